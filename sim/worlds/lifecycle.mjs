// Lifecycle world (P01): a page of unrelated components that are used, opened and taken away at arbitrary instants.
// Interactions are generic (click, hover, focus, type, keys on whatever a component shows), so nothing here knows
// how a component is built; what it leaves behind is read from the page and from the browser.
import { quiet, schedule, setup, show, timeline, typeInto } from '../lib/uiworld.mjs';

const KINDS = [
    'tooltip', 'tooltipFar', 'select', 'selectMany', 'date', 'input', 'textarea', 'search', 'file', 'checkbox', 'switch', 'radios', 'checkboxes', 'accordion', 'expandable', 'tabs', 'steps',
    'pagination', 'table', 'tableSearch', 'image', 'list', 'copy', 'drawer', 'modal', 'dimmed', 'form', 'theme', 'toggle', 'index', 'floating',
];
const HEAVY = { tooltip: 3, tooltipFar: 3, select: 3, selectMany: 2, floating: 3, drawer: 2, modal: 2, tabs: 2, list: 2, table: 1.5, tableSearch: 1.5, date: 2, expandable: 1.5, image: 1.5 };
const GUARDED = new Set(['checkbox', 'switch', 'radios', 'checkboxes', 'modal']);

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const weights = Object.fromEntries(rng.sample(KINDS, rng.range(3, 10)).map((k) => [k, HEAVY[k] ?? 1]));
    const slots = Array.from({ length: rng.range(1, 5) }, (_, i) => ({
        name: `s${i}`, kind: rng.weighted(weights), on: rng.bool(0.8), cfg: rng.int(16),
        delay: rng.pick([0, 1, 30, 120, 400]), guard: rng.pick([0, 5, 60, 300]), refuse: rng.bool(0.3),
        // the application may take the component away as its answer to an event
        quit: rng.bool(0.25) ? rng.pick(['open', 'update:modelValue', 'close', 'change', 'search', 'update:valid']) : null,
    }));
    const tl = timeline(rng, { paces: [4, 20, 60, 150, 400], faulty });
    const one = () => {
        const i = rng.int(slots.length);
        const k = rng.weighted({ click: 6, hover: 5, leave: 1.5, focus: 1.5, blur: 1, type: 2, key: 2, set: 3, remove: 1.2, add: 3.5, remake: 0.8, ask: 1, far: 1, away: 0.7, scroll: 1, resize: 1, view: 1.5, lock: 0.5 });
        switch (k) {
            case 'click': case 'hover': case 'focus': return { k, i, n: rng.bool(0.5) ? 0 : rng.int(6) };
            case 'type': return { k, i, n: rng.int(2), v: rng.pick(['', 'a', 'ab', '2024-02-03', '7']) };
            case 'key': return { k, i, code: rng.pick(['Escape', 'Escape', 'Enter', 'ArrowDown', 'ArrowUp', 'Tab', 'Space']) };
            case 'set': return { k, i, v: rng.bool(0.75) };
            case 'lock': return { k, i, v: rng.bool(0.6) };
            case 'view': return { k, i, v: rng.bool(0.7) };
            case 'far': return { k, v: rng.bool(0.7) };
            default: return { k, i };
        }
    };
    const n = rng.range(4, size ?? 30);
    for (let j = 0; j < n; j++) {
        if (rng.bool(0.12)) tl.add({ k: 'burst', ops: Array.from({ length: rng.range(2, 4) }, one) });
        else {
            const op = one();
            tl.add(op);
            // a removal soon after something was started
            if (op.i !== undefined && rng.bool(0.2) && !['remove', 'add'].includes(op.k)) tl.add({ k: rng.bool(0.6) ? 'remove' : 'remake', i: op.i });
        }
        if (rng.bool(0.1)) tl.gap(rng.pick([50, 250, 600]));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, slots, ops: tl.ops };
}

const TOUCH = 'button,input,textarea,select,a,[role],[tabindex],[data-focusable],.vs-select-trigger,.vs-tooltip-trigger,summary,.vs-dimmed';

export async function run(sim, scenario, bundle) {
    const { env, expect, fail } = setup(sim, scenario, bundle);
    const { V, Vue, window, document } = env;
    const { h, shallowReactive, markRaw } = Vue;
    env.defaultRect = () => ({ x: 10, y: 10, w: 100, h: 20 });
    const slots = scenario.slots.map((d) => markRaw({ cfg: 0, delay: 0, guard: 0, ...d, st: shallowReactive({ on: d.on, key: 0, v: undefined, open: false, lock: false }), vm: null, live: null, leaving: [] }));
    // one life = one mounted instance; its callbacks must not be used once it is over
    const lives = [];
    const begin = (s) => {
        s.live = { s, key: s.st.key, mark: `<${s.name}.${s.st.key}>`, over: false };
        lives.push(s.live);
        return s.live;
    };
    const late = (life, what) => {
        if (life.over) fail('late-callback', `${life.s.kind} called ${what} after it was removed`);
    };
    const use = (life, what, fn) => (...args) => {
        late(life, what);
        const out = fn?.(...args);
        if (life.s.quit === what && !closing && life.s.st.on && life.s.live === life) {
            sim.probe('removed-on-event');
            perform({ k: 'remove', i: slots.indexOf(life.s) });
        }
        return out;
    };
    let marker = 0;
    let closing = false;
    env.clipboardWrite = () => sim.promise('clipboard', 40, { ok: true });
    const guard = (s, life) => use(life, 'its guard', () => {
        sim.probe('guard-asked');
        return sim.promise(`guard ${s.name}`, s.guard, { ok: true, value: !s.refuse });
    });
    const bit = (s, n) => !!(s.cfg & (1 << n));
    const items = (life) => [0, 1, 2].map((i) => ({ id: i, label: `${life.mark} ${i}` }));
    // what the application passes to every field
    const field = (s, life) => ({
        label: life.mark, disabled: s.st.lock,
        rules: [use(life, 'a rule', (v) => (bit(s, 0) && !v ? 'empty' : ''))],
        messages: bit(s, 1) ? [use(life, 'a message', () => ({ state: 'info', text: 'note' }))] : [],
        modelValue: s.st.v, 'onUpdate:modelValue': use(life, 'update:modelValue', (v) => (s.st.v = v)), onChange: use(life, 'change'), 'onUpdate:valid': use(life, 'update:valid'), 'onUpdate:changed': use(life, 'update:changed'),
    });
    const open = (s, life) => ({ modelValue: s.st.open, 'onUpdate:modelValue': use(life, 'update:modelValue', (v) => (s.st.open = v)), onOpen: use(life, 'open'), onClose: use(life, 'close') });
    const keys = (life) => ({ 'key-ArrowDown': use(life, 'a key handler') });
    const options = (life) => [`${life.mark} a`, `${life.mark} b`, `${life.mark} c`];
    const mark = (life) => h('i', { key: ++marker }, life.mark);
    const views = {
        tooltip: (s, life) => h(V.VsTooltip, { clickable: bit(s, 0), contentsHover: bit(s, 1), noAnimation: bit(s, 2), enterDelay: s.delay, leaveDelay: s.delay, disabled: s.st.lock }, { default: () => h('button', 'tip'), tooltip: () => h('button', life.mark) }),
        tooltipFar: (s, life) => h(V.VsTooltip, { target: '#far', clickable: bit(s, 0), contentsHover: bit(s, 1), noAnimation: bit(s, 2), enterDelay: s.delay, leaveDelay: s.delay, disabled: s.st.lock }, { tooltip: () => h('button', life.mark) }),
        floating: (s, life) => h('div', { id: `near-${s.name}` }, [h(V.VsFloating, { target: `#near-${s.name}`, modelValue: s.st.open, 'onUpdate:modelValue': use(life, 'update:modelValue', (v) => (s.st.open = v)), enterDelay: s.delay, leaveDelay: s.delay, noAnimation: bit(s, 0), followWidth: bit(s, 1) }, { default: () => h('button', life.mark) })]),
        select: (s, life) => h(V.VsSelect, { ...field(s, life), options: options(life), search: bit(s, 2), optionsDisabled: bit(s, 3) ? use(life, 'a predicate', () => false) : undefined, callbacks: keys(life), onOpen: use(life, 'open'), onClose: use(life, 'close') }),
        selectMany: (s, life) => h(V.VsSelect, { ...field(s, life), modelValue: s.st.v ?? [], multiple: true, options: options(life), search: bit(s, 2), selectAll: bit(s, 3), closableChips: true }),
        date: (s, life) => h(V.VsDatePicker, { ...field(s, life), modelValue: s.st.v ?? '' }),
        input: (s, life) => h(V.VsInput, { ...field(s, life), modelValue: s.st.v ?? '' }),
        textarea: (s, life) => h(V.VsTextarea, { ...field(s, life), modelValue: s.st.v ?? '' }),
        search: (s, life) => h('p', [mark(life), h(V.VsSearchInput, { useRegex: bit(s, 0), useCaseSensitive: bit(s, 1), modelValue: s.st.v ?? '', 'onUpdate:modelValue': use(life, 'update:modelValue', (v) => (s.st.v = v)), onSearch: use(life, 'search'), disabled: s.st.lock })]),
        file: (s, life) => h(V.VsFileDrop, { ...field(s, life), modelValue: s.st.v ?? [] }),
        checkbox: (s, life) => h(V.VsCheckbox, { ...field(s, life), modelValue: s.st.v ?? false, checkLabel: life.mark, beforeChange: guard(s, life) }),
        switch: (s, life) => h(V.VsSwitch, { ...field(s, life), modelValue: s.st.v ?? false, beforeChange: guard(s, life) }),
        radios: (s, life) => h(V.VsRadioSet, { ...field(s, life), name: `r-${s.name}`, options: options(life), beforeChange: guard(s, life) }),
        checkboxes: (s, life) => h(V.VsCheckboxSet, { ...field(s, life), modelValue: s.st.v ?? [], options: options(life), beforeChange: guard(s, life) }),
        accordion: (s, life) => h(V.VsAccordion, { open: bit(s, 0), disabled: s.st.lock, modelValue: s.st.open, 'onUpdate:modelValue': use(life, 'update:modelValue', (v) => (s.st.open = v)) }, { title: () => 'title', default: () => mark(life) }),
        expandable: (s, life) => h(V.VsExpandable, { open: s.st.open }, { default: () => mark(life) }),
        tabs: (s, life) => h(V.VsTabs, { tabs: options(life), scrollButtons: ['hide', 'show', 'auto'][s.cfg % 3], vertical: bit(s, 2), modelValue: s.st.v ?? 0, 'onUpdate:modelValue': use(life, 'update:modelValue', (v) => (s.st.v = v)), disabled: use(life, 'a predicate', () => s.st.lock) }),
        steps: (s, life) => h(V.VsSteps, { steps: options(life), vertical: bit(s, 2), modelValue: s.st.v ?? 0, 'onUpdate:modelValue': use(life, 'update:modelValue', (v) => (s.st.v = v)) }),
        pagination: (s, life) => h('p', [mark(life), h(V.VsPagination, { length: 7, showingLength: 3, modelValue: s.st.v ?? 0, 'onUpdate:modelValue': use(life, 'update:modelValue', (v) => (s.st.v = v)), disabled: s.st.lock })]),
        table: (s, life) => h(V.VsTable, { columns: [{ key: 'id', label: 'id', sortable: true }, { key: 'label', label: 'label' }], items: (s.rows ??= {})[s.st.key] ??= items(life), selectable: bit(s, 0) ? use(life, 'a predicate', () => true) : false, expandable: bit(s, 1), draggable: bit(s, 2), stickyHeader: bit(s, 3), noVirtualScroll: bit(s, 0), loading: s.st.lock }, { expand: () => 'more' }),
        tableSearch: (s, life) => h(V.VsTable, { columns: [{ key: 'id', label: 'id', sortable: true }, { key: 'label', label: 'label' }], items: (s.rows ??= {})[s.st.key] ??= items(life), search: bit(s, 0) ? { useRegex: true } : true, pagination: true, pageSizeOptions: [{ label: '1', value: 1 }, { label: '2', value: 2 }], pageSize: 2, stickyHeader: bit(s, 3) }),
        image: (s, life) => h('p', [mark(life), h(V.VsImage, { src: `${s.name}.png`, alt: s.name, lazy: bit(s, 0), fallback: bit(s, 1) ? 'f.png' : '', onError: use(life, 'error') })]),
        list: (s, life) => h(V.VsVisibleRender, { height: bit(s, 0) ? 100 : undefined, disabled: s.st.lock }, { default: () => [0, 1, 2].slice(0, s.st.open ? 3 : 2).map((i) => h('p', { key: i, id: `${s.name}-${i}` }, `${life.mark} ${i}`)) }),
        copy: (s, life) => h(V.VsTextWrap, { copy: true, onCopied: use(life, 'copied') }, { default: () => h('span', life.mark) }),
        drawer: (s, life) => h(V.VsDrawer, { ...open(s, life), ...(bit(s, 0) ? { id: `${s.name}-${s.st.open}-${s.st.lock}` } : {}), dimmed: bit(s, 0), dimClose: bit(s, 1), escClose: bit(s, 2), focusLock: bit(s, 3), placement: ['left', 'top', 'right', 'bottom'][s.cfg % 4], callbacks: keys(life) }, { default: () => h('button', life.mark) }),
        modal: (s, life) => h(V.VsModal, { ...open(s, life), dimmed: bit(s, 0), dimClose: bit(s, 1), escClose: bit(s, 2), focusLock: bit(s, 3), callbacks: keys(life), ...(bit(s, 1) ? { beforeClose: guard(s, life) } : {}) }, { default: () => h('button', life.mark) }),
        dimmed: (s, life) => h('div', [h(V.VsDimmed, { modelValue: s.st.open, 'onUpdate:modelValue': use(life, 'update:modelValue', (v) => (s.st.open = v)) }, { default: () => mark(life) })]),
        form: (s, life) => h(V.VsForm, { disabled: s.st.lock, 'onUpdate:valid': use(life, 'update:valid'), 'onUpdate:changed': use(life, 'update:changed') }, { default: () => [h(V.VsInput, { ...field(s, life), modelValue: s.st.v ?? '' }), h(V.VsSelect, { options: options(life), label: 'x', rules: [use(life, 'a rule', (v) => (v ? '' : 'none'))] })] }),
        theme: (s, life) => h('p', [mark(life), h(V.VsThemeButton, { onChange: use(life, 'change') })]),
        toggle: (s, life) => h(V.VsToggle, { modelValue: s.st.open, 'onUpdate:modelValue': use(life, 'update:modelValue', (v) => (s.st.open = v)), loading: s.st.lock }, { default: () => life.mark }),
        index: (s, life) => h(V.VsIndexView, { modelValue: s.st.open ? 1 : 0, keepAlive: bit(s, 0) }, { default: () => [h(V.VsInput, { key: 'a', rules: [use(life, 'a rule', () => '')], label: life.mark }), h(V.VsTooltip, { key: 'b', enterDelay: s.delay }, { default: () => h('button', 'in'), tooltip: () => h('b', life.mark) })] }),
    };
    const SLOT = {
        props: ['s'],
        setup(props) {
            const s = props.s;
            const life = begin(s);
            s.vm = null;
            return () => {
                const node = views[s.kind](s, life);
                return Vue.cloneVNode(node, { ref: (vm) => vm && !life.over && s.live === life && (s.vm = vm) });
            };
        },
    };
    const render = () =>
        h('main', [
            h('button', { id: 'far' }, 'far'), h('p', { class: 'away' }, 'away'),
            ...slots.map((s) => h('section', { key: s.name, id: `at-${s.name}` }, s.st.on ? [h(SLOT, { key: s.st.key, s })] : [])),
        ]);
    // jsdom waits for its own load event in real time
    const snapshot = () => env.listeners.filter((l) => l.type !== 'load').map((l) => `${l.target}.${l.type}${l.capture ? '.capture' : ''}`).sort();
    // the selector engine of jsdom installs its own listeners on first use
    document.querySelector('a:hover, a:focus');
    const before = snapshot();
    const { app, host } = env.mountApp({ render });

    const at = (s) => document.getElementById(`at-${s.name}`);
    /** what the user can reach of a component: inside its place and wherever it put its content */
    const parts = (s) => {
        const out = [...at(s).querySelectorAll(TOUCH)];
        if (s.live && !s.live.over) for (const el of document.body.querySelectorAll(TOUCH)) if (!host.contains(el) && el.textContent.includes(s.live.mark)) out.push(el);
        return out;
    };
    const part = (s, n) => {
        const list = parts(s);
        return list.length ? list[n % list.length] : null;
    };
    const gone = (s) => {
        if (!s.st.on || !s.live || s.live.key !== s.st.key) return;
        s.leaving.push(s.live);
        const floats = [...document.body.children].some((el) => !el.contains(host) && el !== host && el.textContent.includes(s.live.mark));
        if (floats) sim.probe('removed-while-open');
        if (sim.timers.size) sim.probe('removed-with-timers');
        sim.probe('removed');
    };
    function perform(op) {
        const s = slots[op.i];
        switch (op.k) {
            case 'click': { const el = part(s, op.n); if (el) env.click(el); return; }
            case 'hover': {
                const el = part(s, op.n) ;
                for (let e = el; e && e !== host; e = e.parentElement) env.mouse(e, 'mouseenter');
                if (el) env.mouse(el, 'mousemove');
                return;
            }
            case 'leave': {
                for (const el of parts(s)) for (let e = el; e && e !== host && e !== document.body; e = e.parentElement) env.mouse(e, 'mouseleave');
                return;
            }
            case 'focus': part(s, op.n)?.focus?.(); return;
            case 'blur': document.activeElement?.blur?.(); return;
            case 'type': {
                const list = parts(s).filter((el) => /^(INPUT|TEXTAREA)$/.test(el.tagName) && !/checkbox|radio|file/.test(el.type));
                const el = list.length ? list[op.n % list.length] : null;
                if (el && !el.disabled) typeInto(env, el, op.v);
                return;
            }
            case 'key': env.key(op.code); return;
            case 'set': s.st.open = op.v; return;
            case 'lock': s.st.lock = op.v; return;
            case 'remove': gone(s); s.st.on = false; return;
            case 'add': s.st.on ||= (s.st.key++, fresh(s), true); return;
            case 'remake': if (s.st.on) { gone(s); s.st.key++; fresh(s); } return;
            case 'ask': {
                const p = s.vm?.validate?.();
                p?.then?.(() => {});
                if (p !== undefined) sim.probe('validated');
                return;
            }
            case 'far': {
                const el = document.getElementById('far');
                env.mouse(el, op.v ? 'mouseenter' : 'mouseleave');
                return;
            }
            case 'away': env.click(document.querySelector('.away')); return;
            case 'scroll': document.dispatchEvent(new window.Event('scroll')); return;
            case 'resize': {
                window.dispatchEvent(new window.Event('resize'));
                for (const el of at(s).querySelectorAll('*')) env.notifyResize(el);
                return;
            }
            case 'view': for (const el of at(s).querySelectorAll('*')) env.setInView(el, op.v); return;
        }
    }
    const fresh = (s) => {
        s.st.open = false;
        s.st.v = undefined;
        s.st.lock = false;
    };
    const observing = () => [...env.observers].filter((o) => o.targets.size);
    /** nothing left of what was removed: called when nothing is pending */
    function clean(when) {
        const text = document.body.textContent;
        for (const l of lives) if (l.over && text.includes(l.mark)) fail('left-on-page', `${when}, content of a removed ${l.s.kind} is still on the page`);
        for (const o of observing()) {
            const lost = [...o.targets].find((el) => !el.isConnected);
            if (lost) fail('observer-left', `${when}, ${o.kind} observation of a removed element (${lost.className || lost.tagName}) goes on`);
        }
    }
    sim.invariants.push(() => {
        for (const s of slots) {
            for (const l of s.leaving) l.over = true;
            s.leaving = [];
        }
        if (quiet(sim)) clean('at rest');
        sim.state(slots.map((s) => `${s.kind}${s.st.on}${s.st.open}${s.live && !s.live.over && [...document.body.children].some((el) => el !== host && el.textContent.includes(s.live.mark))}`).join('|'));
    });
    schedule(sim, scenario, perform);
    const idle = async (what) => {
        const end = await sim.run();
        expect(end === 'idle', 'not-idle', `the page never came to rest ${what} (${end})`);
    };
    await idle('after the last action');
    clean('after the last action');

    // everything is closed, nothing is focused: the page listens as if its components had just been put there
    const act = async (fn, what) => {
        sim.task(sim.now + 1, 'user', what, fn);
        await idle(`after ${what}`);
    };
    closing = true;
    await act(() => {
        document.activeElement?.blur?.();
        for (const s of slots) {
            s.st.open = false;
            if (s.st.on) perform({ k: 'leave', i: slots.indexOf(s) });
        }
        perform({ k: 'far', v: false });
        perform({ k: 'away' });
    }, 'closing everything');
    for (let i = 0; i < 3; i++) await act(() => env.key('Escape', document.body), 'escape');
    await act(() => document.activeElement?.blur?.(), 'blur');
    const outside = () => [...document.body.children].filter((el) => el !== host).some((el) => slots.some((s) => s.live && !s.live.over && el.textContent.includes(s.live.mark)));
    if (!outside() && slots.every((s) => !s.st.open)) {
        const used = snapshot();
        await act(() => slots.forEach((s) => { if (s.st.on) { gone(s); s.st.key++; fresh(s); } }), 'putting fresh components in their place');
        const unused = snapshot();
        expect(used.join() === unused.join(), 'listener-kept', () => `with everything closed the page listens to ${show(used)}, the same components unused listen to ${show(unused)}`);
        sim.probe('compared-closed');
    }
    await act(() => slots.forEach((s) => { gone(s); s.st.on = false; }), 'removing everything');
    clean('after removing everything');
    const after = snapshot();
    expect(after.join() === before.join(), 'listener-left', () => `after everything was removed the page listens to ${show(after)} instead of ${show(before)}`);
    const watching = observing();
    expect(!watching.length, 'observer-left', () => `after everything was removed ${watching.length} observer(s) go on`);
    await act(() => {
        const e = env.key('Escape', document.body);
        expect(!e.defaultPrevented, 'key-taken', 'after everything was removed the Escape key is still taken');
        for (const v of [true, false]) perform({ k: 'far', v });
        perform({ k: 'away' });
        env.click(document.getElementById('far'));
        perform({ k: 'scroll' });
        window.dispatchEvent(new window.Event('resize'));
    }, 'using the empty page');
    clean('after using the empty page');
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['31 arrangements of the interactive components with their composables, directives, stores and plugins', 'Vue runtime'], stub: ['clock, timers, frames', 'layout geometry', 'resize and intersection observers', 'clipboard', 'application guards (scripted latency and answers)', 'pointer and keyboard events', 'DOM (jsdom)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes['removed-with-timers'] ?? 0) > 0 || (r.probes['removed-while-open'] ?? 0) > 0,
        rule: 'a run is non-trivial if a component was removed while it was open or while timers were pending; distinct = distinct sequences of task labels',
    };
}
