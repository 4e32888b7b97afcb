// Expandable world (D04): accordions and expandable panels over simulated CSS transitions (height 300 ms, opacity
// 600 ms) that are cancelled when interrupted or hidden, plus transition ends bubbling from the content.
import { schedule, setup, timeline } from '../lib/uiworld.mjs';

const KINDS = { toggle: 7, key: 1.5, write: 3, grow: 1.5, inner: 2, hide: 1, disable: 0.5, call: 1.5, burst: 1 };

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const weights = rng.swarm(KINDS, 0.9);
    weights.toggle = Math.max(weights.toggle, 3);
    if (!faulty) weights.hide = 0;
    const n = rng.range(1, 2);
    const panels = Array.from({ length: n }, (_, i) => ({ name: `p${i}`, bare: rng.bool(0.3), init: rng.bool(0.3), height: rng.pick([0, 1, 40, 900]) }));
    const tl = timeline(rng, { paces: [10, 60, 150, 400], faulty });
    const nOps = rng.range(3, size ?? 22);
    const one = (k, burst) => {
        const i = rng.int(n);
        switch (k) {
            case 'write': case 'disable': return { k, i, v: rng.bool(0.5) };
            case 'grow': return { k, i, v: rng.pick([0, 10, 80, 500]) };
            case 'hide': return { k, i, v: rng.bool(0.5) };
            case 'inner': return { k, i, what: rng.pick(['transitionend', 'transitioncancel', 'animationend']) };
            case 'burst': return burst ? { k: 'write', i, v: rng.bool(0.5) } : { k, ops: Array.from({ length: rng.range(2, 3) }, () => one(rng.pick(['write', 'call', 'write']), true)) };
            default: return { k, i };
        }
    };
    for (let j = 0; j < nOps; j++) {
        tl.add(one(rng.weighted(weights)));
        if (rng.bool(0.15)) tl.gap(rng.pick([150, 299, 301, 599, 620, 900]));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, panels, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, document, window } = env;
    const { h, shallowReactive, markRaw } = Vue;
    const panels = scenario.panels.map((d) => markRaw({ ...d, st: shallowReactive({ v: d.init, disabled: false, hidden: false }), vm: null, content: null, open: d.init, told: 0, want: 0, root: null }));
    const hiddenEl = (el) => {
        for (let e = el; e && e.nodeType === 1; e = e.parentElement) if (e.style.display === 'none') return true;
        return false;
    };
    Object.defineProperty(window.HTMLElement.prototype, 'offsetHeight', {
        configurable: true,
        get() {
            const p = panels.find((x) => x.content && this.contains(x.content));
            return p && this.isConnected && !hiddenEl(this) ? p.height : 0;
        },
    });
    env.mountApp({
        render: () => h('main', panels.map((p) => h('section', { key: p.name, ref: (el) => (p.root = el ?? p.root), style: { display: p.st.hidden ? 'none' : null } }, [
            p.bare
                ? h(V.VsExpandable, { open: p.st.v }, () => h('i', { ref: (el) => (p.content = el ?? p.content) }))
                : h(V.VsAccordion, {
                    ref: (vm) => (p.vm = vm ?? p.vm), disabled: p.st.disabled, modelValue: p.st.v,
                    'onUpdate:modelValue': (v) => (p.st.v = v), onToggle: () => p.told++,
                }, { title: () => h('b', p.name), default: () => h('i', { ref: (el) => (p.content = el ?? p.content) }) }),
        ]))),
    });
    const title = (p) => p.root.querySelector('.vs-accordion-title');

    // --- the browser's side of transitions: one record per element, compared after every task
    const boxes = new Map();
    const DURATION = { height: 300, opacity: 600 };
    const read = (el) => ({ height: el.style.height, opacity: el.style.opacity });
    const num = (v) => (v === '' || v === 'auto' ? null : parseFloat(v));
    function transitions() {
        for (const p of panels) {
            const el = p.content?.isConnected ? p.content.closest('.vs-expandable-wrapper') : null;
            if (el && !boxes.has(el)) {
                // a freshly inserted panel that animates was laid out collapsed first
                const now = read(el);
                boxes.set(el, { p, cur: num(now.opacity) === null ? now : { height: '0', opacity: '0' }, running: {} });
            }
        }
        for (const [el, b] of boxes) {
            if (!el.isConnected) {
                boxes.delete(el);
                b.dead = true;
                continue;
            }
            const now = read(el);
            const hidden = hiddenEl(el);
            for (const prop of ['height', 'opacity']) {
                if (hidden && b.running[prop]) {
                    delete b.running[prop];
                    sim.fault('transition-cancelled');
                }
                if (now[prop] === b.cur[prop]) continue;
                const from = num(b.cur[prop]);
                const to = num(now[prop]);
                if (b.running[prop]) sim.probe('interrupted');
                delete b.running[prop];
                // implicit full opacity animates too; an automatic height does not
                const start = prop === 'opacity' ? from ?? 1 : from;
                const end = prop === 'opacity' ? to ?? 1 : to;
                b.cur[prop] = now[prop];
                if (hidden) {
                    sim.fault('transition-skipped');
                    continue;
                }
                if (start === null || end === null || start === end) continue;
                const token = (b.running[prop] = {});
                sim.after(DURATION[prop], `transition-${b.p.name}`, `transitionend ${prop}`, () => {
                    if (b.dead || b.running[prop] !== token) return;
                    delete b.running[prop];
                    const e = new window.Event('transitionend', { bubbles: true });
                    e.propertyName = prop;
                    el.dispatchEvent(e);
                });
            }
        }
    }
    const set = (p, v) => {
        if (p.open === v) return;
        p.open = v;
        p.want++;
        sim.probe('asked');
    };
    function perform(op, { burst }) {
        const p = panels[op.i ?? 0];
        switch (op.k) {
            case 'toggle':
                if (p.bare) {
                    set(p, !p.open);
                    p.st.v = p.open;
                    break;
                }
                if (!p.st.disabled) set(p, !p.open);
                env.click(title(p));
                break;
            case 'key':
                if (p.bare) break;
                if (!p.st.disabled) set(p, !p.open);
                env.key('Enter', p.root.firstElementChild);
                break;
            case 'call':
                if (p.bare) break;
                if (burst) {
                    p.mixed = true;
                    break;
                }
                if (!p.st.disabled) set(p, !p.open);
                p.vm.toggle();
                break;
            case 'write':
                p.st.v = op.v;
                if (!burst) set(p, op.v);
                break;
            case 'grow': p.height = op.v; break;
            case 'hide': p.st.hidden = op.v; break;
            case 'disable': p.st.disabled = op.v; break;
            case 'inner': if (p.content?.isConnected) {
                const e = new window.Event(op.what, { bubbles: true });
                e.propertyName = 'color';
                sim.probe('inner-event');
                p.content.dispatchEvent(e);
            }
        }
    }
    const after = (op) => {
        // several writes in one tick count as one
        if (op.k === 'burst') for (const p of panels) set(p, p.st.v);
    };
    sim.invariants.push(() => {
        transitions();
        for (const p of panels) {
            expect(p.st.v === p.open, 'bound', () => `${p.name} is bound to ${p.st.v}, last asked to be ${p.open ? 'open' : 'closed'}`);
            if (p.open) expect(!!p.content?.isConnected, 'absent', () => `${p.name} is open but its content is not on the page`);
            if (!p.bare) expect(p.told === p.want, 'announced', () => `${p.name} announced ${p.told} changes, made ${p.want}`);
        }
        sim.state(panels.map((p) => `${p.open}${p.content?.isConnected}${p.content?.closest('.vs-expandable-wrapper')?.style.height}`).join('|'));
    });
    schedule(sim, scenario, perform, after);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    for (const p of panels) {
        const on = !!p.content?.isConnected;
        expect(on === p.open, 'at-rest', () => `${p.name} was last asked to be ${p.open ? 'open' : 'closed'}, its content is ${on ? 'on' : 'off'} the page`);
        if (!on) continue;
        for (let e = p.content.parentElement; e && e !== p.root; e = e.parentElement) {
            expect(e.style.height === '' || e.style.height === 'auto', 'clipped', () => `${p.name} is left at a fixed height of ${e.style.height}`);
            expect(e.style.opacity === '' || e.style.opacity === '1', 'faded', () => `${p.name} is left at opacity ${e.style.opacity}`);
        }
    }
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsExpandable, VsAccordion', 'Vue runtime and its transition component'], stub: ['clock, timers, frames', 'CSS transitions of height and opacity (started, cancelled, skipped when hidden)', 'element heights', 'DOM (jsdom)', 'user input'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        nontrivial: (r) => (r.probes.interrupted ?? 0) > 0 || (r.probes['inner-event'] ?? 0) > 0,
        rule: 'a run is non-trivial if a transition was interrupted or an event bubbled out of the content; distinct = distinct sequences of task labels',
    };
}
