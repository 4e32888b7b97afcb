// Layout world (S02): layouts side by side or inside each other, with headers, footers and drawers that come, go, move,
// resize, open and close. The model is the list of parts; at rest the space each content area and each drawer reserves
// is compared with what those parts take.
import { quiet, schedule, setup, timeline } from '../lib/uiworld.mjs';

const PLACES = ['left', 'top', 'right', 'bottom'];
const POSITIONS = ['absolute', 'fixed', 'sticky', 'relative', ''];
const SIZES = ['40px', '2rem', '5rem', ''];
const DRAWER_SIZES = { '': '20%', xs: '12%', lg: '60%', '120px': '120px', 300: '300px' };
const TAKES = ['absolute', 'fixed', 'sticky'];
const KINDS = { on: 5, swap: 1.5, layout: 2, position: 2, height: 2, open: 6, push: 2, size: 2, place: 2, move: 1.5, content: 0.6, clayout: 0.6 };

export function generate(property, rng, size) {
    const faulty = rng.bool(0.4);
    const n = rng.range(1, 2);
    const nested = n === 2 && rng.bool(0.5);
    const weights = rng.swarm(KINDS, 0.85);
    weights.on = Math.max(weights.on ?? 0, 2);
    const parts = [];
    for (let l = 0; l < n; l++) {
        const add = (p) => parts.push({ l, on: rng.bool(0.7), layout: rng.bool(0.85), position: rng.pick(POSITIONS), height: rng.pick(SIZES), ...p });
        if (rng.bool(0.8)) add({ type: 'header' });
        if (rng.bool(0.7)) add({ type: 'footer' });
        for (const place of rng.shuffle([...PLACES]).slice(0, rng.int(4))) add({ type: 'drawer', place, push: rng.bool(0.8), open: rng.bool(0.4), size: rng.pick(Object.keys(DRAWER_SIZES)) });
        if (rng.bool(0.35)) add({ type: rng.pick(['header', 'footer']), deep: true });
    }
    if (!parts.length) parts.push({ l: 0, type: 'header', on: true, layout: true, position: 'fixed', height: '40px' });
    const tl = timeline(rng, { paces: [8, 60, 250, 600], faulty });
    const one = () => {
        const k = rng.weighted(weights);
        const p = rng.int(parts.length);
        switch (k) {
            case 'on': return { k, p, v: rng.bool(0.5) };
            case 'layout': return { k, p, v: rng.bool(0.6) };
            case 'position': return { k, p, v: rng.pick(POSITIONS) };
            case 'height': return { k, p, v: rng.pick(SIZES) };
            case 'open': return { k, p, v: rng.bool(0.5) };
            case 'push': return { k, p, v: rng.bool(0.6) };
            case 'size': return { k, p, v: rng.pick(Object.keys(DRAWER_SIZES)) };
            case 'place': return { k, p, v: rng.pick(PLACES) };
            case 'move': return { k, p, v: rng.int(n) };
            case 'content': return { k, l: rng.int(n), v: rng.bool(0.6) };
            case 'clayout': return { k, l: rng.int(n), v: rng.bool(0.7) };
            default: return { k, p };
        }
    };
    const nOps = rng.range(2, size ?? 22);
    for (let j = 0; j < nOps; j++) {
        tl.add(rng.bool(0.25) ? { k: 'burst', ops: Array.from({ length: rng.range(2, 4) }, one) } : one());
        if (rng.bool(0.15)) tl.gap(500);
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.5) ? 'random' : 'time', faulty, n, nested, parts, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue } = env;
    const { h, shallowReactive } = Vue;
    const n = Math.max(1, scenario.n || 1);
    const layouts = Array.from({ length: n }, (_, i) => shallowReactive({ i, content: true, layout: true }));
    const parts = scenario.parts.map((d, i) => shallowReactive({
        name: `p${i}`, type: d.type ?? 'header', l: Math.min(d.l ?? 0, n - 1), on: !!d.on, layout: !!d.layout, position: d.position ?? '', height: d.height ?? '',
        place: d.place ?? 'left', push: !!d.push, open: !!d.open, size: d.size ?? '', deep: !!d.deep, gen: 0,
    }));
    const slot = (p, l = p.l, place = p.place) => `${l}${p.type}${p.type === 'drawer' ? place : ''}`;
    const taken = (p, key) => parts.some((q) => q !== p && !q.deep && slot(q) === key);
    // the minimiser may make two parts claim one slot; the first keeps it
    for (const p of parts) if (!p.deep) p.dead = parts.some((q) => q !== p && !q.deep && !q.dead && parts.indexOf(q) < parts.indexOf(p) && slot(q) === slot(p));
    const live = parts.filter((p) => !p.dead);

    const part = (p) => {
        const key = `${p.name}-${p.gen}`;
        const cls = `part-${p.name}`;
        if (p.type === 'drawer') {
            return h(V.VsDrawer, {
                key, class: cls, layout: p.layout, placement: p.place, pushContainer: p.push, size: p.size === '300' ? 300 : p.size || undefined, modelValue: p.open,
                'onUpdate:modelValue': (v) => (p.open = v),
            }, { default: () => 'drawer' });
        }
        return h(p.type === 'header' ? V.VsHeader : V.VsFooter, { key, class: cls, layout: p.layout, position: p.position || undefined, height: p.height || undefined }, () => p.name);
    };
    const layout = (l) => h(V.VsLayout, { key: `l${l.i}`, class: `layout-${l.i}` }, () => [
        ...live.filter((p) => p.l === l.i && !p.deep && p.on).map(part),
        l.content ? h(V.VsContainer, { key: 'content', layout: l.layout, class: `content-${l.i}` }, () => [
            ...live.filter((p) => p.l === l.i && p.deep && p.on).map(part),
            scenario.nested && l.i === 0 && layouts[1] ? layout(layouts[1]) : null,
        ]) : null,
    ]);
    const { host } = env.mountApp({ render: () => h('main', scenario.nested ? [layout(layouts[0])] : layouts.map(layout)) });

    const perform = (op) => {
        const p = parts[op.p ?? 0];
        const l = layouts[op.l ?? 0];
        switch (op.k) {
            case 'content': if (l) l.content = !!op.v; return;
            case 'clayout': if (l) l.layout = !!op.v; return;
        }
        if (!p || p.dead) return;
        switch (op.k) {
            case 'on': p.on = !!op.v; break;
            case 'swap': p.gen++; break;
            case 'layout': p.layout = !!op.v; break;
            case 'position': p.position = op.v ?? ''; break;
            case 'height': p.height = op.v ?? ''; break;
            case 'open': p.open = !!op.v; break;
            case 'push': p.push = !!op.v; break;
            case 'size': p.size = op.v ?? ''; break;
            case 'place': if (p.type === 'drawer' && !taken(p, slot(p, p.l, op.v ?? 'left'))) p.place = op.v ?? 'left'; break;
            case 'move': if (layouts[op.v ?? 0] && (p.deep || !taken(p, slot(p, op.v ?? 0)))) p.l = op.v ?? 0;
        }
    };

    // --- the model
    const there = (p, l) => p.l === l.i && p.on && !p.deep && p.layout && !p.dead;
    const bar = (l, type) => parts.filter((p) => p.type === type && there(p, l) && TAKES.includes(p.position)).map((p) => p.height || '3rem');
    const drawer = (l, place) => parts.filter((p) => p.type === 'drawer' && there(p, l) && p.place === place && p.push && p.open).map((p) => DRAWER_SIZES[p.size] ?? p.size);
    const wanted = (l) => ({
        paddingTop: [...bar(l, 'header'), ...drawer(l, 'top')], paddingBottom: [...bar(l, 'footer'), ...drawer(l, 'bottom')],
        paddingLeft: drawer(l, 'left'), paddingRight: drawer(l, 'right'),
    });
    const clear = (p, l) => {
        if (!p.layout) return {};
        const side = p.place === 'left' || p.place === 'right';
        return {
            top: p.place === 'top' ? bar(l, 'header') : [], bottom: p.place === 'bottom' ? bar(l, 'footer') : [],
            paddingTop: side ? bar(l, 'header') : [], paddingBottom: side ? bar(l, 'footer') : [],
        };
    };
    // a sum of lengths, in any notation
    const lengths = (text) => {
        const sum = {};
        for (const [, value, unit] of String(text).matchAll(/([\d.]+)(px|rem|em|%)/g)) sum[unit] = (sum[unit] ?? 0) + Number(value);
        return Object.keys(sum).sort().map((unit) => `${sum[unit]}${unit}`).join(' + ');
    };
    const compare = (el, want, what, klass) => {
        for (const side of Object.keys(want)) {
            const a = lengths(el.style[side]);
            const b = lengths(want[side].join(' + '));
            expect(a === b, klass, () => `${what} has ${side} ${a || 'none'}, expected ${b || 'none'}`);
        }
    };
    const onPage = (l) => !(scenario.nested && l.i === 1) || layouts[0].content;
    sim.invariants.push(() => {
        sim.state(live.map((p) => `${p.on ? 1 : 0}${p.layout ? 1 : 0}${p.type[0]}${p.position[0] ?? '-'}${p.open ? 1 : 0}${p.push ? 1 : 0}${p.l}${p.place[0]}`).join('|'));
        if (!quiet(sim)) return;
        sim.probe('judged');
        for (const l of layouts) {
            if (!onPage(l)) continue;
            const content = host.querySelector(`.content-${l.i}`);
            expect(!!content === l.content, 'content', () => `content area of layout ${l.i} is ${content ? 'there' : 'missing'}`);
            if (content) {
                const want = l.layout ? wanted(l) : { paddingTop: [], paddingBottom: [], paddingLeft: [], paddingRight: [] };
                if (Object.values(want).some((x) => x.length)) sim.probe('reserved');
                compare(content, want, `the content area of layout ${l.i}`, 'reserved');
            }
            for (const p of live) {
                if (p.type !== 'drawer' || p.l !== l.i || !p.on || p.deep) continue;
                const el = host.querySelector(`.part-${p.name}:not(.gone) .vs-drawer-content`) ?? host.querySelector(`.part-${p.name}`);
                if (el?.classList.contains('vs-drawer-content')) compare(el, clear(p, l), `drawer ${p.name} of layout ${l.i}`, 'clear');
            }
        }
    });
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsLayout, VsContainer, VsHeader, VsFooter, VsDrawer, VsBar', 'the layout store and layout child composable', 'overlay store and focus trap of the drawers', 'Vue runtime'], stub: ['clock, timers, frames', 'DOM (jsdom)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: ['parts'],
        nontrivial: (r) => (r.probes.reserved ?? 0) > 0 && (r.probes.judged ?? 0) > 2,
        rule: 'a run is non-trivial if space was reserved at some settled moment and at least three were judged; distinct = distinct sequences of task labels',
    };
}
