// Scroll shadow world (S03): elements whose scroll shadow is switched on and off while the application re-renders them
// with other classes and styles of its own. The model knows each element's own styling and its switch.
import { schedule, setup, timeline } from '../lib/uiworld.mjs';

const TYPES = ['', '', 'inline-size', 'size', 'scroll-state'];

export function generate(property, rng, size) {
    const faulty = rng.bool(0.4);
    const tl = timeline(rng, { faulty, paces: [2, 20, 80] });
    const els = Array.from({ length: rng.range(1, 3) }, () => ({
        kind: rng.bool(0.7) ? 'plain' : 'inner', overflow: rng.weighted({ auto: 5, scroll: 2, hidden: 1, '': 0.7 }), long: rng.bool(0.75), on: rng.weighted({ yes: 2, unset: 2, no: 2 }), own: rng.pick(TYPES), cls: rng.bool(0.3), axis: rng.bool(0.5),
    }));
    const weights = rng.swarm({ switch: 5, class: 3, render: 2, own: 2, remake: 1 }, 0.85);
    weights.switch = Math.max(weights.switch ?? 0, 1);
    const one = () => {
        const k = rng.weighted(weights);
        const i = rng.int(els.length);
        return k === 'switch' ? { k, i, v: rng.weighted({ yes: 3, unset: 2, no: 4 }) } : k === 'own' ? { k, i, v: rng.pick(TYPES) } : { k, i };
    };
    const nOps = rng.range(3, size ?? 20);
    for (let j = 0; j < nOps; j++) {
        if (rng.bool(0.25)) tl.add({ k: 'burst', ops: Array.from({ length: rng.range(2, 4) }, one) });
        else tl.add(one());
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.5) ? 'random' : 'time', faulty, els, ops: tl.ops };
}

const VALUE = { yes: true, no: false, unset: undefined };

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, window } = env;
    const { h, shallowReactive, withDirectives, markRaw } = Vue;
    for (const [prop, axis] of [['scrollHeight', true], ['scrollWidth', false]]) {
        Object.defineProperty(window.Element.prototype, prop, { configurable: true, get() { return this.textContent.includes(axis ? 'tall' : 'wide') ? 500 : 50; } });
    }
    for (const prop of ['clientHeight', 'clientWidth']) Object.defineProperty(window.Element.prototype, prop, { configurable: true, get: () => 100 });
    const els = scenario.els.map((d) => markRaw({ ...d, st: shallowReactive({ on: d.on ?? 'unset', own: d.own ?? '', cls: !!d.cls, n: 0, life: 0 }) }));
    const scrolls = (e) => e.overflow === 'scroll' || (e.overflow === 'auto' && e.long);
    const off = (e) => e.kind === 'plain' && e.st.on === 'no';
    const style = (e) => ({ ...(e.overflow ? { [e.axis ? 'overflowY' : 'overflowX']: e.overflow } : {}), ...(e.st.own ? { containerType: e.st.own } : {}) });
    const body = (e) => [e.long ? (e.axis ? 'tall' : 'wide') : 'short', e.st.n];
    const { app } = env.mountApp({
        render: () => h('main', els.map((e, i) => {
            const key = `${i}/${e.st.life}`;
            if (e.kind === 'inner') {
                return h(V.VsInnerScroll, { key, ref: (vm) => vm && (e.el = vm.$el.querySelector('.vs-inner-scroll-body')), hideScroll: e.st.cls, styleSet: { $content: style(e) } }, { default: () => body(e) });
            }
            return withDirectives(h('div', { key, ref: (el) => el && (e.el = el), class: ['box', { more: e.st.cls }], style: style(e) }, body(e)), [[V.scrollShadow, VALUE[e.st.on]]]);
        })),
    });
    function perform(op) {
        const e = els[op.i];
        if (!e) return;
        if (op.k === 'switch') {
            if (e.kind === 'inner') return;
            if (e.st.on !== op.v) sim.probe(`${e.st.on}-to-${op.v}`);
            e.st.on = op.v;
        } else if (op.k === 'class') {
            if (scrolls(e) && !off(e)) sim.probe('class-while-on');
            e.st.cls = !e.st.cls;
        } else if (op.k === 'render') e.st.n++;
        else if (op.k === 'remake') e.st.life++;
        else if (op.k === 'own' && (op.v !== 'scroll-state' || (off(e) && !e.shown)) && e.st.own !== 'scroll-state') {
            sim.probe('own-style');
            e.st.own = op.v;
        }
    }
    const types = (text) => text.split(' ').filter(Boolean).sort().join(' ');
    sim.invariants.push(() => {
        els.forEach((e, i) => {
            const on = scrolls(e) && !off(e);
            e.shown = on;
            const has = e.el.classList.contains('vs-scroll-shadow');
            const type = types(e.el.style.containerType);
            const own = types(e.st.own);
            expect(has === on, 'marker', () => `element ${i} ${has ? 'has' : 'lacks'} its shadow, it is switched ${e.st.on} and ${scrolls(e) ? 'scrolls' : 'does not scroll'}`);
            const want = on && !own.includes('scroll-state') ? types(`${own} scroll-state`) : own;
            expect(type === want, 'style', () => `element ${i} has container type "${type}", expected "${want}"`);
            for (const c of e.kind === 'inner' ? [] : ['box']) expect(e.el.classList.contains(c), 'class', () => `element ${i} lost its class ${c}`);
            expect(e.el.classList.contains(e.kind === 'inner' ? 'vs-hide-scroll' : 'more') === e.st.cls, 'class', () => `element ${i} has the classes "${e.el.className}"`);
        });
        sim.state(els.map((e) => `${e.kind}${e.st.on}${e.st.own}${e.st.cls}${scrolls(e)}`).join('|'));
    });
    schedule(sim, scenario, perform);
    await sim.run();
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['scroll shadow directive', 'VsInnerScroll', 'Vue runtime'], stub: ['layout sizes', 'DOM (jsdom)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes['class-while-on'] ?? 0) > 0 || Object.keys(r.probes).filter((p) => /-to-/.test(p)).length > 1,
        rule: 'a run is non-trivial if the class of an element with shadow changed or switches of two kinds happened; distinct = distinct sequences of task labels',
    };
}
