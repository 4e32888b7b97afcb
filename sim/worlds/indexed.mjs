// Selection world (D03): tabs, steps and pagers over a changing list of entries, next to an index view that shows the
// content of the bound entry. The model knows the entries, which of them are disabled, and the entry last chosen.
import { schedule, setup, timeline } from '../lib/uiworld.mjs';

const NAMES = 'abcdefghijklmn'.split('').map((c) => `e-${c}`);
const KINDS = { click: 5, key: 6, button: 4, write: 3, list: 2.5, disable: 2.5, call: 2, vertical: 0.5, showing: 0.6 };

export function generate(property, rng, size) {
    const faulty = rng.bool(0.4);
    const type = rng.pick(['tabs', 'steps', 'pager']);
    const weights = rng.swarm(KINDS, 0.85);
    weights.click = Math.max(weights.click ?? 0, 1);
    if (type === 'steps') weights.button = weights.call = weights.showing = 0;
    if (type === 'tabs') weights.showing = 0;
    if (type === 'pager') weights.key = weights.vertical = 0;
    const most = rng.pick([2, 5, 12]);
    const list = () => rng.shuffle([...NAMES]).slice(0, rng.weighted({ some: 6, none: 1, one: 1 }) === 'some' ? rng.range(1, most) : rng.int(2));
    const off = () => (type === 'pager' ? rng.bool(0.25) : rng.weighted({ none: 2, all: 1, some: 5 }));
    const offNames = () => NAMES.filter(() => rng.bool(rng.pick([0.2, 0.5, 0.8])));
    const start = list();
    const config = {
        type, list: start, at: rng.bool(0.7) ? 0 : rng.int(most + 1), off: rng.bool(0.4) ? off() : type === 'pager' ? false : 'none', offNames: offNames(),
        vertical: rng.bool(0.3), keepAlive: rng.bool(0.4), showing: rng.range(1, 6), edges: rng.bool(0.6),
    };
    const tl = timeline(rng, { paces: [5, 30, 200], faulty });
    const nOps = rng.range(2, size ?? 24);
    const one = () => {
        const k = rng.weighted(weights);
        switch (k) {
            case 'click': return { k, o: rng.int(12) };
            case 'key': return { k, v: rng.pick(['prev', 'prev', 'next', 'next', 'Home', 'End', 'cross']), o: rng.int(12) };
            case 'button': return { k, v: rng.pick(['previous', 'next', 'first', 'last']) };
            case 'call': return { k, v: rng.pick(['goPrev', 'goNext', 'goFirst', 'goLast', 'set']), o: rng.int(12) };
            case 'write': return { k, v: rng.bool(0.8) ? rng.int(most) : rng.pick([-1, most, most + 2]) };
            case 'list': return { k, v: list() };
            case 'disable': return { k, v: off(), names: offNames() };
            case 'showing': return { k, v: rng.range(1, 6) };
            default: return { k };
        }
    };
    for (let j = 0; j < nOps; j++) {
        if (rng.bool(0.2)) {
            const inner = Array.from({ length: rng.range(2, 3) }, one).filter((o) => !['click', 'key', 'button'].includes(o.k));
            if (inner.length) tl.add({ k: 'burst', ops: inner });
        } else tl.add(one());
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.5) ? 'random' : 'time', faulty, config, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, window } = env;
    const { h, shallowReactive } = Vue;
    const cfg = { type: 'tabs', list: [], at: 0, off: 'none', offNames: [], showing: 5, ...scenario.config };
    const { type } = cfg;
    const pager = type === 'pager';
    window.Element.prototype.scrollIntoView = function () {};

    const st = shallowReactive({ list: cfg.list, at: cfg.at, off: cfg.off, names: new Set(cfg.offNames), vertical: !!cfg.vertical, showing: Math.max(1, cfg.showing || 1) });
    const reported = { change: [], bound: [] };
    let vm = null;
    const length = () => (pager ? Math.max(1, st.list.length) : st.list.length);
    const listen = {
        'onUpdate:modelValue': (v) => { reported.bound.push(v); st.at = v; },
        onChange: (v) => reported.change.push(v),
        ref: (x) => (vm = x),
    };
    const disabledProp = () => {
        if (pager) return !!st.off;
        if (st.off === 'all') return true;
        if (st.off !== 'some') return false;
        const names = st.names;
        return (name) => names.has(name);
    };
    const { host } = env.mountApp({
        render: () => h('main', [
            h('section', { class: 'under-test' }, [
                type === 'tabs' ? h(V.VsTabs, { tabs: st.list, modelValue: st.at, disabled: disabledProp(), vertical: st.vertical, controls: 'show', ...listen })
                    : type === 'steps' ? h(V.VsSteps, { steps: st.list, modelValue: st.at, disabled: disabledProp(), vertical: st.vertical, ...listen })
                        : h(V.VsPagination, { length: length(), modelValue: st.at, disabled: disabledProp(), showingLength: st.showing, edgeButtons: !!cfg.edges, ...listen }),
            ]),
            h('section', { class: 'view' }, [
                h(V.VsIndexView, { modelValue: st.at, keepAlive: !!cfg.keepAlive }, () => Array.from({ length: length() }, (_, i) => h('p', { key: i, class: 'content' }, `content ${i}`))),
            ]),
        ]),
    });
    const area = host.querySelector('.under-test');
    const view = host.querySelector('.view');
    const entries = () => [...area.querySelectorAll('[role="tab"]')];
    const pages = () => [...area.querySelectorAll('.vs-page-button')];
    const marked = () => {
        const on = pager ? pages().filter((b) => b.classList.contains('vs-primary')).map((b) => Number(b.textContent.trim()) - 1)
            : entries().map((el, i) => (el.classList.contains('vs-selected') ? i : -1)).filter((i) => i >= 0);
        return on.length > 1 ? NaN : on.length ? on[0] : -1;
    };
    const buttonFor = (v) => {
        if (pager) return area.querySelector(`[aria-label="go to ${v} page"]`);
        return area.querySelector(`[aria-label^="${v} tab"]`);
    };

    // --- the model
    const off = (i) => (pager ? !!st.off : st.off === 'all' || (st.off === 'some' && st.names.has(st.list[i])));
    const exists = (i) => i >= 0 && i < length();
    const m = { sel: exists(cfg.at) ? cfg.at : -1, bound: cfg.at, write: undefined, loose: false };
    let settled = m.sel;
    const search = (from, step) => {
        for (let i = from; exists(i); i += step) if (!off(i)) return i;
        return -1;
    };
    const move = (target) => {
        if (exists(target) && !off(target)) m.sel = target;
        else sim.probe('nowhere');
    };
    const steps = {
        prev: () => move(search(m.sel - 1, -1)),
        next: () => move(search(m.sel + 1, 1)),
        first: () => move(search(0, 1)),
        last: () => move(search(length() - 1, -1)),
    };
    const perform = (op, { burst }) => {
        switch (op.k) {
            case 'click': {
                const els = pager ? pages() : entries();
                const el = els[(op.o ?? 0) % els.length];
                if (!el) break;
                const target = pager ? Number(el.textContent.trim()) - 1 : els.indexOf(el);
                if (!el.disabled) env.click(el);
                move(target);
                break;
            }
            case 'key': {
                const el = entries()[m.sel] ?? entries()[(op.o ?? 0) % (entries().length || 1)];
                if (!el) break;
                const names = st.vertical ? { prev: 'ArrowUp', next: 'ArrowDown', cross: 'ArrowLeft' } : { prev: 'ArrowLeft', next: 'ArrowRight', cross: 'ArrowUp' };
                env.key(names[op.v] ?? op.v ?? 'Home', el);
                if (op.v !== 'cross') steps[{ prev: 'prev', next: 'next', Home: 'first', End: 'last' }[op.v] ?? 'first']();
                break;
            }
            case 'button': {
                const b = buttonFor(op.v ?? 'next');
                if (!b) break;
                if (!b.disabled) env.click(b);
                steps[{ previous: 'prev', next: 'next', first: 'first', last: 'last' }[op.v] ?? 'next']();
                break;
            }
            case 'call': {
                const name = op.v === 'set' ? 'setPage' : op.v ?? 'goNext';
                const target = (op.o ?? 0) % length();
                if (typeof vm?.[name] !== 'function') break;
                // mixed with writes of the same moment, any agreed entry will do
                if (burst) m.loose = true;
                vm[name](target);
                if (op.v === 'set') move(target);
                else steps[{ goPrev: 'prev', goNext: 'next', goFirst: 'first', goLast: 'last' }[name]]();
                break;
            }
            case 'write': st.at = m.write = op.v ?? 0; break;
            case 'list': st.list = op.v ?? []; break;
            case 'disable':
                st.off = op.v ?? (pager ? false : 'none');
                st.names = new Set(op.names ?? []);
                break;
            case 'vertical': st.vertical = !st.vertical; break;
            case 'showing': st.showing = Math.max(1, op.v || 1); break;
        }
    };
    const settle = () => {
        const wanted = m.write ?? m.bound;
        if (m.loose) m.sel = marked();
        else if (wanted !== m.bound) m.sel = exists(wanted) ? wanted : -1;
        else if (!exists(m.sel)) m.sel = -1;
        if (!m.loose && m.sel === -1 && exists(wanted)) m.sel = wanted;
        m.bound = m.loose ? st.at : m.sel !== settled ? m.sel : wanted;
        m.write = undefined;
    };
    const name = (i) => (exists(i) ? `entry ${i}` : 'nothing');
    sim.invariants.push(() => {
        settle();
        const got = marked();
        const change = reported.change.splice(0);
        const update = reported.bound.splice(0);
        if (m.loose) sim.probe('loose');
        expect(got === m.sel, 'marked', () => `${name(got)} is marked in ${type} of ${length()}, expected ${name(m.sel)}`);
        expect(exists(st.at) ? st.at === got : got === -1, 'agree', () => `${name(got)} is marked but ${st.at} is bound (${length()} entries)`);
        expect(st.at === m.bound, 'bound', () => `${st.at} is bound, expected ${m.bound}`);
        expect(change.join() === update.join(), 'reports-agree', () => `changes ${change.join()} but bound updates ${update.join()}`);
        if (!m.loose) {
            const want = m.sel !== settled;
            expect(!want || change[change.length - 1] === m.sel, 'unreported', () => `${name(m.sel)} became current but ${change.join() || 'nothing'} was reported`);
            expect(want || change.length === 0, 'spurious', () => `${change.join()} was reported though ${name(m.sel)} stayed current`);
            expect(change.every((v, i) => i === 0 || v !== change[i - 1]), 'twice', () => `${change.join()} was reported`);
            if (want) sim.probe('changed');
            if (want && m.sel === -1) sim.probe('deselected');
        }
        settled = m.sel;
        m.loose = false;
        const shown = [...view.querySelectorAll('.content')].filter((el) => el.parentElement.style.display !== 'none').map((el) => el.textContent);
        expect(shown.join() === (exists(st.at) ? `content ${st.at}` : ''), 'view', () => `the view shows "${shown.join()}" while ${st.at} is bound (${length()} entries)`);
        if (pager) {
            const numbers = pages().map((b) => Number(b.textContent.trim()) - 1);
            const ok = numbers.length === Math.min(length(), st.showing) && numbers.every((v, i) => exists(v) && (i === 0 || v === numbers[i - 1] + 1)) && (!exists(m.sel) || numbers.includes(m.sel));
            expect(ok, 'pages', () => `pages ${numbers.join()} are offered of ${length()}, showing ${st.showing}, current ${m.sel}`);
        } else {
            expect(entries().length === length(), 'entries', () => `${entries().length} entries of ${length()}`);
        }
        sim.state(`${type}${length()}${m.sel}${st.at}${Array.from({ length: length() }, (_, i) => (off(i) ? 'x' : '.')).join('')}`);
    });
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsTabs, VsSteps, VsPagination, VsIndexView', 'the list selection composable', 'Vue runtime'], stub: ['clock, timers, frames, resize and visibility reports', 'DOM (jsdom)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkConfig: true,
        nontrivial: (r) => (r.probes.changed ?? 0) > 1 && ((r.probes.nowhere ?? 0) > 0 || (r.probes.deselected ?? 0) > 0 || (r.probes.burst ?? 0) > 0),
        rule: 'a run is non-trivial if the selection changed at least twice and a move had nowhere to go, the current entry vanished or several writes met in one moment; distinct = distinct sequences of task labels',
    };
}
