// Dropdown world (F07 chosen options, F08 open state, F11 highlighted entry): selects driven by clicks, keys, outside writes and option list
// changes around the open and close delays.
import { schedule, setup, show, timeline, typeInto } from '../lib/uiworld.mjs';

const POOL = ['apple', 'banana', 'cherry', 'dates', 'elder', 'fig'];
const W = {
    F07: { toggle: 4, pick: 9, chip: 2, all: 2, clear: 1.2, write: 3, options: 3, both: 1, search: 1.5, escape: 0.5, keypick: 2, lock: 0.6 },
    F08: { toggle: 8, pick: 4, outside: 3, key: 7, escape: 3, lock: 1.2, focus: 1.5, blur: 1, tab: 1.5, options: 0.5, remake: 0.6, keypick: 1, search: 0.4 },
    F11: { toggle: 3, key: 12, point: 5, pick: 1.5, escape: 1, outside: 0.6, options: 1.2, search: 1.2, write: 1, all: 0.4, lock: 0.2 },
};
const MOVES = ['ArrowDown', 'ArrowDown', 'ArrowDown', 'ArrowUp', 'ArrowUp', 'Enter', 'Enter', 'Space', 'Home', 'End'];

export function generate(property, rng, size) {
    const faulty = rng.bool(0.4);
    const weights = rng.swarm(W[property], 0.85);
    weights.toggle = Math.max(weights.toggle, 3);
    weights.pick = Math.max(weights.pick, 2);
    const subset = (p) => POOL.filter(() => rng.bool(p));
    const optionList = () => {
        const o = subset(0.65);
        if (rng.bool(0.6)) rng.shuffle(o);
        return o.length ? o : [rng.pick(POOL)];
    };
    const n = property === 'F08' ? rng.range(1, 2) : 1;
    const selects = Array.from({ length: n }, (_, i) => {
        const multiple = rng.bool(property === 'F08' ? 0.4 : 0.65);
        const options = optionList();
        return {
            name: `s${i}`, multiple, options, init: multiple ? options.filter(() => rng.bool(0.3)) : rng.bool(0.5) ? rng.pick(options) : null,
            search: rng.bool(0.35), all: multiple && rng.bool(0.6), closable: rng.bool(0.6), collapse: rng.bool(0.2), objects: rng.weighted({ no: 6, named: 2, numbered: 2 }),
            off: rng.bool(0.3) ? [rng.pick(POOL)] : [], header: true,
        };
    });
    const tl = timeline(rng, { paces: [4, 30, 60, 200, 400], faulty });
    const val = (s) => (s.multiple ? subset(0.35) : rng.bool(0.2) ? null : rng.pick(POOL));
    const nOps = rng.range(4, size ?? 26);
    for (let j = 0; j < nOps; j++) {
        const k = rng.weighted(weights);
        const i = rng.int(n);
        const s = selects[i];
        switch (k) {
            case 'pick': tl.add({ k, i, o: rng.int(6) }); break;
            case 'chip': tl.add({ k, i, o: rng.int(3) }); break;
            case 'write': tl.add({ k, i, v: val(s) }); break;
            case 'options': tl.add({ k, i, v: optionList() }); break;
            case 'both': tl.add({ k, i, o: optionList(), v: val(s) }); break;
            case 'search': tl.add({ k, i, v: rng.pick(['', 'a', 'e', 'rr', 'zz']) }); break;
            case 'point': tl.add({ k, i, o: rng.int(8) }); break;
            case 'key': tl.add(property === 'F11' ? { k, key: rng.pick(MOVES) } : { k, key: rng.pick(['ArrowDown', 'ArrowDown', 'ArrowUp', 'Enter', 'Space', 'Home', 'End']) }); break;
            case 'lock': tl.add({ k, i, what: rng.pick(['disabled', 'readonly']), v: rng.bool(0.5), form: rng.bool(0.35) }); break;
            default: tl.add({ k, i });
        }
        if (property === 'F11' && k === 'toggle') tl.gap(rng.pick([45, 60, 60, 200]));
        if (rng.bool(0.1)) tl.gap(rng.pick([49, 51, 249, 251, 600]));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, selects, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, prop, expect } = setup(sim, scenario, bundle);
    const F08 = prop === 'F08';
    const F11 = prop === 'F11';
    const { V, Vue, document } = env;
    const { h, shallowReactive, markRaw } = Vue;
    env.defaultInView = () => true;
    const selects = scenario.selects.map((d) => markRaw({
        ...d, st: shallowReactive({ v: d.init, options: d.options, disabled: false, readonly: false, key: 0 }), vm: null, marker: null, opts: new Map(),
        open: false, since: 0, focused: false, value: d.init, reports: [], events: [], picked: 0, told: { open: 0, close: 0 },
    }));
    const byValue = (a) => (Array.isArray(a) ? [...a].sort() : a ?? null);
    const eq = (a, b) => show(byValue(a)) === show(byValue(b));
    const keyed = (s) => s.objects === 'named' || s.objects === 'numbered';
    const valueOf = (s, o) => (s.objects === 'named' ? `#${o}` : s.objects === 'numbered' ? POOL.indexOf(o) : o);
    const nameOf = (s, v) => (s.objects === 'named' ? v?.slice(1) : s.objects === 'numbered' ? POOL[v] : v);
    const asOption = (s, o) => (keyed(s) ? { id: valueOf(s, o), name: o } : o);
    const within = (s, v) => {
        const ok = (x) => s.st.options.some((o) => valueOf(s, o) === x);
        return s.multiple ? (v ?? []).filter(ok) : v !== null && ok(v) ? v : null;
    };
    const toModel = (s, v) => (s.multiple ? [].concat(v ?? []).map((o) => valueOf(s, o)) : v === null ? null : valueOf(s, v));
    for (const s of selects) {
        s.st.v = toModel(s, s.init);
        s.value = within(s, s.st.v);
    }
    const form = shallowReactive({ disabled: false, readonly: false });
    const Root = {
        render: () => h('main', [h('p', { class: 'away' }, 'away'), h(V.VsForm, { disabled: form.disabled, readonly: form.readonly }, () => selects.map((s) => h(V.VsSelect, {
            key: `${s.name}.${s.st.key}`, ref: (vm) => (s.vm = vm ?? s.vm),
            // the list is rebuilt on every render, as an inline list in a template would be
            options: s.st.options.map((o) => asOption(s, o)), ...(keyed(s) ? { optionLabel: 'name', optionValue: 'id' } : {}),
            multiple: s.multiple, selectAll: s.all, search: s.search, closableChips: s.closable, collapseChips: s.collapse,
            disabled: s.st.disabled, readonly: s.st.readonly,
            optionsDisabled: s.offFn ??= (o) => s.off.includes(keyed(s) ? o.name : o),
            modelValue: s.st.v,
            'onUpdate:modelValue': (v) => {
                sim.log(`${s.name} := ${show(v)}`);
                s.reports.push(v);
                s.st.v = v;
            },
            onOpen: () => s.events.push('open'), onClose: () => s.events.push('close'), onClickOption: () => s.picked++,
        }, {
            'options-header': () => h('i', { ref: (el) => (s.marker = el ?? s.marker) }),
            option: (p) => h('b', { key: p.label, ref: (el) => (el ? s.opts.set(p.label, el) : 0), 'data-chosen': String(p.selected) }, p.label),
        })))]),
    };
    const { app } = env.mountApp(Root);
    const onScreen = (s) => !!s.marker?.isConnected;
    const locked = (s) => s.st.disabled || s.st.readonly || form.disabled || form.readonly;
    const trigger = (s) => s.vm.$el.querySelector('.vs-select-trigger');
    const shownOptions = (s) => [...s.opts].filter(([, el]) => el.isConnected).map(([label]) => label);
    // what can be highlighted, in the order shown; the search field, select-all and every option that is not disabled
    const listOf = (s) => (s.marker?.isConnected ? s.marker.closest('.vs-floating') : null);
    const entriesOf = (s) => {
        const list = listOf(s);
        if (!list) return [];
        const found = [['search', list.querySelector('.vs-select-search')], ['all', list.querySelector('.vs-select-all')], ...[...s.opts].filter(([o, el]) => list.contains(el) && !s.off.includes(o)).map(([o, el]) => [`option ${o}`, el])].filter(([, el]) => el);
        return found.sort((a, b) => (a[1].compareDocumentPosition(b[1]) & 4 ? -1 : 1));
    };
    const highlighted = (s) => {
        const on = [...(listOf(s)?.querySelectorAll('.vs-focusable-active') ?? [])];
        return on.map((x) => entriesOf(s).find(([, el]) => x === el || x.contains(el))?.[0] ?? 'something else');
    };
    const stalled = scenario.ops.some((o) => o.k === 'stall' || o.k === 'hold');
    // F11: expected highlight after the current step, or undefined when the step leaves it open
    let aim;
    // selects that may take keys, in the order they became focused or open
    const using = [];
    const refresh = () => {
        for (const s of selects) {
            s.focused = document.activeElement === trigger(s);
            const u = s.focused || s.open;
            const at = using.indexOf(s);
            if (u && at < 0) using.push(s);
            if (!u && at >= 0) using.splice(at, 1);
        }
    };
    const setOpen = (s, open) => {
        if (s.open === open) return;
        s.open = open;
        s.told[open ? 'open' : 'close']++;
        s.since = sim.now;
        s.untouched = open;
        sim.probe(open ? 'opened' : 'closed');
    };
    const closeOthers = (keep) => selects.forEach((s) => s !== keep && setOpen(s, false));
    // expected change of the value by the user: {s, value}
    let change = null;
    const userChange = (s, value) => {
        if (eq(s.value, value)) return;
        s.value = value;
        change = { s, value };
        sim.probe('changed');
    };
    const toggled = (s, v) => (s.multiple ? (s.value.includes(v) ? s.value.filter((x) => x !== v) : [...s.value, v]) : v);
    const focus = (el) => {
        if (el) el.focus();
        else document.activeElement?.blur?.();
    };
    const toggleAll = (s) => {
        if (locked(s)) return;
        const avail = shownOptions(s).filter((o) => !s.off.includes(o)).map((o) => valueOf(s, o));
        const full = avail.length && avail.every((v) => s.value.includes(v));
        userChange(s, full ? s.value.filter((v) => !avail.includes(v)) : [...s.value, ...avail.filter((v) => !s.value.includes(v))]);
    };
    function pick(s, label) {
        const el = s.opts.get(label);
        if (!el?.isConnected) return;
        const off = s.off.includes(label);
        const v = valueOf(s, label);
        if (off && s.multiple && s.value.includes(v)) return; // taking back a disabled option: either way is acceptable
        focus(null);
        closeOthers(s);
        if (!locked(s)) {
            if (!off) userChange(s, toggled(s, v));
            if (!s.multiple) setOpen(s, false);
        }
        env.click(el);
    }
    function perform(op) {
        change = null;
        for (const s of selects) s.reports = [];
        const s = selects[op.i ?? 0];
        aim = undefined;
        if (op.k !== 'toggle') s.untouched = false;
        if (F11 && s.open && onScreen(s) && ['pick', 'all', 'write'].includes(op.k)) aim = highlighted(s)[0] ?? null;
        switch (op.k) {
            case 'toggle': {
                const t = trigger(s);
                closeOthers(s);
                focus(t);
                if (!locked(s)) setOpen(s, !s.open);
                env.click(t);
                break;
            }
            case 'pick': {
                if (!F08 && !s.open && !locked(s)) {
                    // bring the list up first; the next pick finds it
                    focus(trigger(s));
                    setOpen(s, true);
                    env.click(trigger(s));
                    break;
                }
                const labels = shownOptions(s);
                if (s.open && labels.length) pick(s, labels[op.o % labels.length]);
                break;
            }
            case 'outside':
                focus(null);
                selects.forEach((x) => setOpen(x, false));
                env.click(document.querySelector('.away'));
                break;
            case 'key': case 'keypick': {
                const top = using.at(-1);
                const key = op.k === 'keypick' ? 'Enter' : op.key;
                if (op.k === 'keypick' && top?.open) env.key('ArrowDown');
                const before = top?.picked;
                const was = top?.open;
                if (F11) {
                    if (!top) break;
                    const names = entriesOf(top).map(([n]) => n);
                    const now = highlighted(top)[0];
                    const at = names.indexOf(now);
                    if (was && names.length) {
                        if (key === 'ArrowDown') aim = names[Math.min(at + 1, names.length - 1)];
                        if (key === 'ArrowUp') aim = names[Math.max(at - 1, 0)];
                        if (key === 'Home') aim = names[0];
                        if (key === 'End') aim = names.at(-1);
                        if (at >= 0) sim.probe(aim === undefined ? 'acted' : 'moved');
                        if (aim === undefined) {
                            // Enter and Space act on what is highlighted and nothing else
                            if (now === 'all') toggleAll(top);
                            else if (now?.startsWith('option ')) {
                                userChange(top, toggled(top, valueOf(top, now.slice(7))));
                                if (!top.multiple) setOpen(top, false);
                            }
                            if (top.multiple || !now?.startsWith('option ')) aim = now ?? null;
                        }
                    }
                    const told = top.picked;
                    const ev = env.key(key, null, key === 'Space' ? { key: ' ' } : {});
                    if (was && key.startsWith('Arrow')) expect(ev.defaultPrevented, 'scrolls', `${key} in an open list was left to scroll the page`);
                    if (was) expect(top.picked - told === (['Enter', 'Space'].includes(key) && now?.startsWith('option ') ? 1 : 0), 'acted', () => `${key} with ${now ?? 'nothing'} highlighted announced ${top.picked - told} picks`);
                    if (!was && !locked(top) && ['ArrowDown', 'Enter', 'Space'].includes(key)) setOpen(top, true);
                    break;
                }
                const ev = env.key(key, null, key === 'Space' ? { key: ' ' } : {});
                if (!top) {
                    expect(!ev.defaultPrevented, 'swallowed', () => `${key} was swallowed with every list closed and nothing focused`);
                    break;
                }
                if (!was && !locked(top) && ['ArrowDown', 'Enter', 'Space'].includes(key)) setOpen(top, true);
                if (was && top.picked > before) {
                    // which entry was highlighted is the component's business: a pick closes a single select
                    if (!top.multiple) setOpen(top, false);
                    change = 'any';
                    sim.probe('picked-by-key');
                } else if (was) change = 'any';
                break;
            }
            case 'point': {
                const list = entriesOf(s);
                if (!s.open || !list.length) break;
                const [name, el] = list[op.o % list.length];
                if (!stalled && sim.now > s.since + 100 && sim.now > (s.pointed ?? -1) + 40) {
                    aim = name;
                    sim.probe('pointed');
                }
                s.pointed = sim.now;
                el.dispatchEvent(new env.window.MouseEvent('mousemove', { bubbles: true }));
                break;
            }
            case 'escape': {
                const top = using.at(-1);
                const ev = env.key('Escape');
                if (top) setOpen(top, false);
                else expect(!ev.defaultPrevented, 'swallowed', 'Escape was swallowed with every list closed and nothing focused');
                break;
            }
            case 'tab': {
                const top = using.at(-1);
                const typing = document.activeElement?.tagName === 'INPUT';
                if (!top || typing || (top.search && top.open)) break;
                env.key('Tab');
                setOpen(top, false);
                const next = selects[selects.indexOf(top) + 1];
                focus(next ? trigger(next) : null);
                break;
            }
            case 'focus': focus(trigger(s)); break;
            case 'blur': focus(null); break;
            case 'lock':
                if (op.form) {
                    form[op.what] = op.v;
                    selects.forEach((x) => locked(x) && setOpen(x, false));
                    break;
                }
                if (s.st[op.what] === op.v) break;
                s.st[op.what] = op.v;
                setOpen(s, false);
                break;
            case 'remake':
                s.st.key++;
                s.open = false;
                s.since = sim.now;
                s.told = { open: 0, close: 0 };
                s.events = [];
                s.marker = null;
                s.opts.clear();
                change = 'any';
                s.value = within(s, s.value);
                break;
            case 'search': {
                const el = s.marker?.isConnected && s.marker.closest('.vs-floating')?.querySelector('input[type=text],input:not([type])');
                if (s.search && s.open && el) typeInto(env, el, op.v);
                break;
            }
            case 'all': {
                const el = s.marker?.isConnected && s.marker.closest('.vs-floating')?.querySelector('.vs-select-all');
                if (!el || !s.open) break;
                toggleAll(s);
                sim.probe('select-all');
                env.click(el);
                break;
            }
            case 'chip': {
                const chips = [...trigger(s).querySelectorAll('.vs-chip')];
                if (!s.closable || !chips.length) break;
                const c = chips[op.o % chips.length];
                const label = c.textContent.trim();
                if (!locked(s)) userChange(s, s.value.filter((v) => v !== valueOf(s, label)));
                sim.probe('chip');
                env.click(c.querySelector('button'));
                break;
            }
            case 'clear': {
                const b = trigger(s).querySelector('.vs-select-clear-button');
                if (!b) break;
                closeOthers(s);
                userChange(s, s.multiple ? [] : null);
                env.click(b);
                break;
            }
            case 'write': {
                const v = toModel(s, op.v);
                if (eq(v, s.st.v)) break;
                s.st.v = v;
                s.value = within(s, v);
                change = 'program';
                break;
            }
            case 'options':
                s.st.options = op.v;
                s.value = within(s, s.value);
                change = 'program';
                sim.probe('options-changed');
                break;
            case 'both':
                s.st.options = op.o;
                s.st.v = toModel(s, op.v);
                s.value = within(s, s.st.v);
                change = 'program';
                break;
        }
    }
    const labelsOf = (s) => (s.multiple ? s.value : s.value === null ? [] : [s.value]).map((v) => nameOf(s, v));
    sim.invariants.push(() => {
        refresh();
        for (const s of selects) {
            const told = { open: s.events.filter((e) => e === 'open').length, close: s.events.filter((e) => e === 'close').length };
            if (F08) {
                expect(told.open === s.told.open && told.close === s.told.close, 'announced', () => `${s.name} announced ${told.open} openings and ${told.close} closings, expected ${s.told.open} and ${s.told.close}`);
                if (!stalled && sim.now > s.since + 320) expect(onScreen(s) === s.open, 'screen', () => `the list of ${s.name} is ${onScreen(s) ? 'on' : 'off'} screen ${sim.now - s.since} ms after it was asked to ${s.open ? 'open' : 'close'}`);
                continue;
            }
            if (F11 && s.open && onScreen(s)) {
                const hl = highlighted(s);
                expect(hl.length <= 1, 'several', () => `${s.name} highlights ${show(hl)}`);
                if (s.untouched && !stalled && sim.now > s.since + 150) {
                    // a list opens at its search field, or else at the first option chosen
                    const held = [].concat(s.st.v ?? [])[0];
                    const first = `option ${nameOf(s, held)}`;
                    const start = s.search ? 'search' : entriesOf(s).some(([n]) => n === first) ? first : null;
                    expect((hl[0] ?? null) === start, 'opens-at', () => `${s.name} opened with ${hl[0] ?? 'nothing'} highlighted, expected ${start ?? 'nothing'}`);
                    sim.probe('opened-at');
                }
                if (aim !== undefined) expect((hl[0] ?? null) === aim, 'highlight', () => `${s.name} highlights ${hl[0] ?? 'nothing'}, expected ${aim ?? 'nothing'}`);
            }
            aim = undefined;
            if (change === 'any') s.value = s.st.v;
            // which value came out of a key pick is not predicted, only that it is shown consistently
            expect(eq(s.st.v, s.value), 'value', () => `${s.name} holds ${show(s.st.v)}, expected ${show(s.value)}`);
            if (s.multiple) expect(new Set(s.st.v).size === s.st.v.length, 'duplicates', () => `${s.name} holds ${show(s.st.v)}`);
            if (change && change.s === s) expect(s.reports.length === 1, 'reported', () => `${s.name} reported ${show(s.reports)} for one change to ${show(change.value)}`);
            if (!change) expect(!s.reports.length, 'reported', () => `${s.name} reported ${show(s.reports)} without a change`);
            const want = labelsOf(s).sort();
            const marked = shownOptions(s).filter((o) => s.opts.get(o).getAttribute('data-chosen') === 'true').sort();
            expect(show(marked) === show(want.filter((o) => shownOptions(s).includes(o))), 'marked', () => `${s.name} marks ${show(marked)} as chosen but holds ${show(s.st.v)}`);
            const text = trigger(s).querySelector('.vs-select-value').textContent.trim();
            const chips = [...trigger(s).querySelectorAll('.vs-chip')].map((c) => c.textContent.trim()).sort();
            if (!s.multiple) expect(text === (want[0] ?? ''), 'label', () => `${s.name} shows ${show(text)} but holds ${show(s.st.v)}`);
            else if (!s.collapse) expect(show(chips) === show(want), 'label', () => `${s.name} shows ${show(chips)} but holds ${show(s.st.v)}`);
            else expect(want.length === 0 ? !chips.length : chips.length === 1 && want.includes(chips[0]) && text.endsWith(want.length > 1 ? `+${want.length - 1}` : chips[0]), 'label', () => `${s.name} shows ${show(text)} but holds ${show(s.st.v)}`);
        }
        change = null;
        for (const s of selects) s.reports = [];
        sim.state(selects.map((s) => `${s.open}${onScreen(s)}${show(s.st.v)}`).join('|'));
    });
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    for (const s of selects) {
        if (F08) expect(onScreen(s) === s.open, 'screen', () => `at rest the list of ${s.name} is ${onScreen(s) ? 'on' : 'off'} screen, last asked to be ${s.open ? 'open' : 'closed'}`);
    }
    if (F08) {
        // an open list still reacts, and a closed one lets keys pass
        for (const s of selects) {
            if (!s.open) continue;
            selects.forEach((x) => setOpen(x, false));
            env.click(document.querySelector('.away'));
            await sim.settle();
            break;
        }
    }
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsSelect, VsSelectTrigger, VsFloating, VsGroupedList, VsVisibleRender, VsSearchInput, VsChip, VsCheckbox', 'select, option, positioning, click-outside and overlay composables', 'Vue runtime'], stub: ['clock, timers, frames', 'intersection and resize observers', 'DOM (jsdom)', 'clicks, keys and the browser\'s focus movement'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: property === 'F11' ? (r) => (r.probes.moved ?? 0) + (r.probes.pointed ?? 0) >= 2 && (r.probes.acted ?? 0) >= 1 : property === 'F08' ? (r) => (r.probes.opened ?? 0) >= 2 && (r.probes.closed ?? 0) >= 1 : (r) => (r.probes.changed ?? 0) >= 1 && (r.probes['options-changed'] ?? 0) + (r.probes['select-all'] ?? 0) + (r.probes.chip ?? 0) + (r.probes['picked-by-key'] ?? 0) >= 1,
        rule: property === 'F11' ? 'a run is non-trivial if the highlight moved at least twice and an entry was taken by key; distinct = distinct sequences of task labels' : property === 'F08' ? 'a run is non-trivial if a list was opened again after having been closed; distinct = distinct sequences of task labels' : 'a run is non-trivial if the user changed the choice and the list was replaced, or chips, select-all or keys were used; distinct = distinct sequences of task labels',
    };
}
