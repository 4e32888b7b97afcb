// Focus world (O09): stacks of focus-locked modals and drawers opened and closed in every order while the user tabs
// and the content changes. The browser's own Tab movement is simulated over the document order.
import { schedule, setup, timeline, visible } from '../lib/uiworld.mjs';

const W = { modal: 4, drawer: 3, close: 4, closeLower: 0.8, tab: 8, content: 2.5, pageFocus: 3, dropOpener: 0.5, kill: 0.4 };
const FOCUSABLE = 'button, [href], input, select, textarea, [tabindex]';

export function generate(property, rng, size) {
    const faulty = rng.bool(0.4);
    const weights = rng.swarm(W, 0.85);
    weights.modal = Math.max(weights.modal, 2);
    weights.close = Math.max(weights.close, 2);
    weights.tab = Math.max(weights.tab, 3);
    const tl = timeline(rng, { faulty });
    const inner = () => Array.from({ length: rng.weighted({ 0: 1, 1: 3, 2: 4, 3: 3, 4: 1 }) | 0 }, () => ({
        tag: rng.weighted({ button: 5, input: 3, a: 1, div: 1, textarea: 1 }), st: rng.weighted({ on: 7, disabled: 1.5, hidden: 1.2, skip: 1 }),
    }));
    const drawers = Array.from({ length: rng.range(0, 2) }, (_, i) => ({ name: `d${i}`, lock: rng.bool(0.9), dimmed: rng.bool(0.5), items: inner() }));
    const nOps = rng.range(4, size ?? 26);
    for (let j = 0; j < nOps; j++) {
        const k = rng.weighted(weights);
        switch (k) {
            case 'modal': tl.add({ k, lock: rng.bool(0.92), items: inner(), by: rng.int(4) }); break;
            case 'drawer': case 'kill': if (drawers.length) tl.add({ k, i: rng.int(drawers.length), by: rng.int(4) }); break;
            case 'close': tl.add({ k, by: rng.pick(['key', 'code', 'id']) }); break;
            case 'tab': {
                const m = rng.range(1, 4);
                const shift = rng.bool(0.4);
                for (let i = 0; i < m; i++) tl.add({ k, shift });
                break;
            }
            case 'content': tl.add({ k, a: rng.pick(['add', 'remove', 'disable', 'enable', 'hide', 'show']), i: rng.int(4), tag: rng.pick(['button', 'input']) }); break;
            case 'pageFocus': tl.add({ k, i: rng.int(4) }); break;
            default: tl.add({ k, i: rng.int(4) });
        }
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, drawers, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, document } = env;
    const { h, shallowReactive, markRaw } = Vue;
    const page = shallowReactive({ openers: [true, true, true, true] });
    const openerEls = [];
    const stack = []; // open overlays, oldest first
    let count = 0;
    const contentOf = (o) => {
        o.content = shallowReactive({ items: o.items.map((x) => ({ ...x })) });
        return markRaw({
            render: () => h('div', { class: `in-${o.name}`, ref: (el) => el && (o.el = el) }, o.content.items.map((x, i) => h(x.tag, {
                key: i, disabled: x.st === 'disabled' && x.tag !== 'a' && x.tag !== 'div' ? true : undefined, style: x.st === 'hidden' ? 'display:none' : undefined,
                tabindex: x.st === 'skip' ? -1 : x.tag === 'div' ? 0 : undefined, href: x.tag === 'a' ? '#' : undefined,
            }, ['input', 'textarea'].includes(x.tag) ? undefined : `${o.name}.${i}`))),
        });
    };
    const drawers = scenario.drawers.map((d) => {
        const o = markRaw({ ...d, kind: 'drawer', st: shallowReactive({ open: false, gone: false }), vm: null, el: null });
        o.Body = contentOf(o);
        return o;
    });
    const Root = {
        render: () => h('main', [
            page.openers.map((on, i) => (on ? h('button', { key: `o${i}`, class: 'opener', ref: (el) => (openerEls[i] = el) }, `o${i}`) : null)),
            drawers.map((d) => (d.st.gone ? null : h(V.VsDrawer, {
                key: d.name, ref: (vm) => (d.vm = vm), focusLock: d.lock, dimmed: d.dimmed, escClose: true, modelValue: d.st.open,
                'onUpdate:modelValue': (v) => (d.st.open = v),
            }, { default: () => h(d.Body) }))),
        ]),
    };
    const { app } = env.mountApp(Root);
    const $vs = V.useVlossom();
    const active = () => (document.activeElement === document.body ? null : document.activeElement);
    const hiddenByStyle = (el) => {
        for (let e = el; e && e.nodeType === 1; e = e.parentElement) if (e.style?.display === 'none') return true;
        return false;
    };
    const focusable = (el) => el && el.isConnected && !el.disabled && !hiddenByStyle(el);
    const tabbables = (root) => Array.from(root.querySelectorAll(FOCUSABLE)).filter((el) => el.tabIndex >= 0 && focusable(el));
    const scope = (o) => o.el?.closest('.vs-focus-trap') ?? o.el;
    const inside = (o) => !!active() && !!scope(o)?.contains(active());
    const name = (el) => (el ? el.textContent || el.tagName.toLowerCase() + (el.id ? `#${el.id}` : '') : 'nothing');
    // lost = the focused element itself was taken away, disabled or hidden, so that no focus is expected until it is moved again
    let lost = false;
    const focusNative = (el) => {
        el.focus();
        lost = false;
    };
    let expected = null; // {kind, ...} judged after the step

    function opening(o) {
        o.before = active();
        o.covered = stack.length;
        o.tainted = lost;
        stack.push(o);
        lost = false;
        expected = { kind: 'opened', o };
    }
    function closing(o) {
        const i = stack.indexOf(o);
        if (i < 0) return;
        const top = i === stack.length - 1;
        const was = inside(o);
        stack.splice(i, 1);
        if (top && o.lock && was && !lost) expected = { kind: 'closed', o };
        else if (!top) expected = { kind: 'kept', el: active(), o };
        else lost = true;
        if (top && lost === false && !(o.lock && was)) lost = true;
    }
    function perform(op) {
        expected = null;
        const top = stack.at(-1);
        switch (op.k) {
            case 'pageFocus': {
                if (stack.length) return; // a locked page is not reachable by the user
                const el = openerEls[op.i];
                if (el) focusNative(el);
                return;
            }
            case 'modal': {
                if (stack.length > 4) return;
                const o = markRaw({ name: `m${count++}`, kind: 'modal', lock: op.lock, items: op.items, el: null });
                o.Body = contentOf(o);
                if (!stack.length && openerEls[op.by]) focusNative(openerEls[op.by]);
                opening(o);
                o.id = $vs.modal.open(o.Body, { focusLock: op.lock });
                return;
            }
            case 'drawer': {
                const d = drawers[op.i];
                if (d.st.gone || d.st.open) return;
                if (!stack.length && openerEls[op.by]) focusNative(openerEls[op.by]);
                opening(d);
                d.st.open = true;
                return;
            }
            case 'kill': {
                const d = drawers[op.i];
                if (d.st.gone) return;
                if (d.st.open) closing(d);
                else expected = { kind: 'kept', el: active(), o: d };
                d.st.gone = true;
                d.st.open = false;
                return;
            }
            case 'close':
                if (!top) return;
                closing(top);
                sim.probe('closed-top');
                if (op.by === 'key' || top.kind === 'drawer') {
                    if (op.by === 'key') env.key('Escape');
                    else top.st.open = false;
                } else if (op.by === 'id') $vs.modal.closeWithId('body', top.id);
                else $vs.modal.close();
                return;
            case 'closeLower': {
                if (stack.length < 2) return;
                const o = stack[op.i % (stack.length - 1)];
                closing(o);
                sim.probe('closed-lower');
                if (o.kind === 'drawer') o.st.open = false;
                else $vs.modal.closeWithId('body', o.id);
                return;
            }
            case 'dropOpener': {
                if (openerEls[op.i] === active()) lost = true;
                page.openers = page.openers.map((x, i) => (i === op.i ? !x : x));
                return;
            }
            case 'content': {
                if (!top) return;
                const items = top.content.items.slice();
                const i = items.length ? op.i % items.length : 0;
                const ST = { disable: 'disabled', enable: 'on', hide: 'hidden', show: 'on' };
                if (op.a === 'add') items.push({ tag: op.tag, st: 'on' });
                else if (op.a === 'remove') items.splice(items.length - 1, 1);
                else if (items[i]) items[i] = { ...items[i], st: ST[op.a] };
                const held = active();
                top.content.items = items;
                expected = { kind: 'content', held };
                return;
            }
            case 'tab': {
                if (!top || !top.lock || lost) return;
                const list = tabbables(scope(top));
                const at = active();
                if (!list.length || !inside(top)) return;
                sim.probe('tab');
                const ev = env.key('Tab', at, { shiftKey: op.shift });
                const all = tabbables(document);
                if (!ev.defaultPrevented) {
                    // what the browser does: the next tabbable element in document order
                    const order = all.filter((el) => (op.shift ? at.compareDocumentPosition(el) & 2 : at.compareDocumentPosition(el) & 4));
                    const next = op.shift ? order.at(-1) : order[0];
                    if (next) next.focus();
                    else at.blur?.();
                }
                const i = list.indexOf(at);
                const want = i < 0 ? null : op.shift ? list[(i + list.length - 1) % list.length] : list[(i + 1) % list.length];
                if (i === 0 && op.shift) sim.probe('wrapped-back');
                if (i === list.length - 1 && !op.shift) sim.probe('wrapped');
                expect(inside(top), 'escaped', () => `${op.shift ? 'Shift+Tab' : 'Tab'} from ${name(at)} left ${top.name} for ${name(active())}`);
                if (want) expect(active() === want, 'wrap', () => `${op.shift ? 'Shift+Tab' : 'Tab'} from ${name(at)} of ${top.name} went to ${name(active())}, expected ${name(want)}`);
            }
        }
    }
    function judge() {
        const e = expected;
        expected = null;
        if (!e) return;
        const top = stack.at(-1);
        if (e.kind === 'opened' && e.o.lock) {
            expect(inside(e.o), 'not-entered', () => `focus is on ${name(active())} after ${e.o.name} opened`);
        } else if (e.kind === 'content') {
            if (e.held && !(active() === e.held && focusable(e.held))) lost = true;
            if (e.held && !focusable(e.held)) lost = true;
        } else if (e.kind === 'closed') {
            const el = e.o.before;
            if (el && focusable(el) && !e.o.tainted) {
                sim.probe('returned');
                expect(active() === el, 'not-returned', () => `focus is on ${name(active())} after ${e.o.name} closed, expected ${name(el)}`);
                // what had focus before may belong to an overlay that was closed out of order and is on its way out
                if (top && !scope(top)?.contains(el)) lost = true;
            } else lost = true;
        } else if (e.kind === 'kept' && !lost) {
            const el = e.el;
            if (el && focusable(el)) expect(active() === el, 'stolen', () => `focus moved from ${name(el)} to ${name(active())} when ${e.o.name}, which did not hold it, went away`);
        }
        if (!lost && top?.lock) expect(inside(top), 'outside', () => `focus is on ${name(active())} while ${top.name} is open on top`);
    }
    sim.invariants.push(() => sim.state(`${stack.map((o) => o.kind[0]).join('')}|${stack.at(-1) ? inside(stack.at(-1)) : ''}|${lost}|${active()?.tagName}`));
    sim.invariants.push(judge);
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsFocusTrap, VsModal nodes and views, VsDrawer, modal plugin, overlay stores', 'Vue runtime'], stub: ['clock, timers, frames', 'DOM (jsdom), with the browser refusing focus to what is not displayed', 'the browser\'s own Tab movement (next tabbable element in document order)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes.returned ?? 0) > 0 && (r.probes.tab ?? 0) > 0,
        rule: 'a run is non-trivial if focus was followed into an overlay, through at least one Tab and back to the element before it; distinct = distinct sequences of task labels',
    };
}
