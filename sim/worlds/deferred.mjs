// Deferred rendering world (D06): lists whose elements come and go, in and out of view, while visibility reports are
// under way and the list is switched on and off.
import { quiet, schedule, setup, timeline } from '../lib/uiworld.mjs';

const KINDS = { view: 8, add: 3, remove: 2, shuffle: 1.5, disable: 2, margin: 1, threshold: 1, replace: 1, rerender: 1, burst: 1.5 };

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const weights = rng.swarm(KINDS, 0.9);
    weights.view = Math.max(weights.view, 3);
    const n = rng.range(1, 2);
    const lists = Array.from({ length: n }, (_, i) => ({ name: `l${i}`, off: rng.bool(0.25), wrapped: rng.bool(0.3), items: Array.from({ length: rng.range(0, 5) }, () => rng.bool(0.5)) }));
    const tl = timeline(rng, { paces: [3, 12, 40, 150], faulty });
    const nOps = rng.range(3, size ?? 26);
    const one = (k, burst) => {
        const i = rng.int(n);
        switch (k) {
            case 'view': return { k, i, at: rng.int(6), v: rng.bool(0.5) };
            case 'add': return { k, i, at: rng.int(6), v: rng.bool(0.5) };
            case 'remove': case 'replace': return { k, i, at: rng.int(6), v: rng.bool(0.5) };
            case 'shuffle': return { k, i, by: rng.range(1, 4) };
            case 'disable': return { k, i, v: rng.bool(0.5) };
            case 'margin': return { k, i, v: rng.pick(['0px', '10px', '100px']) };
            case 'threshold': return { k, i, v: rng.pick([0, 0.5, 1]) };
            case 'burst': return { k, ops: Array.from({ length: rng.range(2, 4) }, () => one(rng.pick(['add', 'remove', 'shuffle', 'disable', 'margin', 'replace', 'view']), true)) };
            default: return { k, i };
        }
    };
    for (let j = 0; j < nOps; j++) {
        tl.add(one(rng.weighted(weights)));
        if (rng.bool(0.15)) tl.gap(rng.pick([20, 60, 300]));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, lists, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue } = env;
    const { h, shallowReactive, markRaw } = Vue;
    let ids = 0;
    const item = (v) => markRaw({ id: `e${++ids}`, view: !!v, el: null });
    const lists = scenario.lists.map((d) => markRaw({
        name: d.name, wrapped: !!d.wrapped, st: shallowReactive({ items: (d.items ?? []).map(item), off: !!d.off, margin: '0px', threshold: 0, n: 0 }), gone: [],
    }));
    const byEl = new WeakMap();
    env.defaultInView = (el) => byEl.get(el)?.view ?? false;
    const row = (it) => h('p', { key: it.id, ref: (el) => el && ((it.el = el), byEl.set(el, it)) }, it.id);
    env.mountApp({
        render: () => h('main', lists.map((l) => h(V.VsVisibleRender, {
            key: l.name, disabled: l.st.off, rootMargin: l.st.margin, threshold: l.st.threshold, selector: l.wrapped ? '.inner' : undefined, title: String(l.st.n),
        }, () => (l.wrapped ? h('div', { class: 'inner' }, l.st.items.map(row)) : l.st.items.map(row))))),
    });
    const perform = (op) => {
        const l = lists[op.i ?? 0];
        if (!l) return;
        const items = l.st.items;
        const at = items.length ? (op.at ?? 0) % items.length : -1;
        switch (op.k) {
            case 'view':
                if (at < 0) break;
                items[at].view = !!op.v;
                if (items[at].el) env.setInView(items[at].el, !!op.v);
                sim.probe('view-change');
                break;
            case 'add': l.st.items = items.toSpliced(op.at ?? 0, 0, item(op.v)); break;
            case 'remove':
            case 'replace':
                if (at < 0) break;
                l.gone.push(items[at]);
                l.st.items = op.k === 'remove' ? items.toSpliced(at, 1) : items.toSpliced(at, 1, item(op.v));
                break;
            case 'shuffle': {
                const by = items.length ? (op.by ?? 1) % items.length : 0;
                l.st.items = [...items.slice(by), ...items.slice(0, by)];
                break;
            }
            case 'disable': l.st.off = !!op.v; break;
            case 'margin': l.st.margin = op.v ?? '0px'; break;
            case 'threshold': l.st.threshold = op.v ?? 0; break;
            case 'rerender': l.st.n++;
        }
    };
    const hidden = (el) => el.dataset.ioVisible === 'false';
    const judge = () => {
        for (const l of lists) {
            for (const it of l.st.items) {
                const el = it.el;
                expect(!!el?.isConnected, 'lost', () => `${it.id} of ${l.name} is not on the page`);
                if (l.st.off) {
                    expect(!hidden(el), 'off', () => `${l.name} is switched off but hides ${it.id}`);
                    continue;
                }
                expect(hidden(el) === !it.view, 'visibility', () => `${it.id} of ${l.name} is ${it.view ? 'in' : 'out of'} view but ${hidden(el) ? 'hidden' : 'shown'}`);
                sim.probe('judged');
            }
            for (const g of l.gone) {
                if (!g.el || g.el.isConnected) continue;
                for (const o of env.observers) expect(!o.targets.has(g.el), 'still-watched', () => `${g.id} was removed from ${l.name} but is still watched`);
            }
        }
    };
    sim.invariants.push(() => {
        sim.state(lists.map((l) => `${l.st.off}${l.st.items.map((it) => `${it.view}${it.el?.dataset.ioVisible}`)}`).join('|'));
        if (quiet(sim)) judge();
    });
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    judge();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsVisibleRender', 'Vue runtime', 'DOM mutation reports (jsdom)'], stub: ['visibility reports (delayed, batched per observer)', 'clock, timers, frames', 'DOM (jsdom)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        nontrivial: (r) => (r.probes['view-change'] ?? 0) > 0 && (r.probes.judged ?? 0) > 0,
        rule: 'a run is non-trivial if an element\'s view changed and visibility was judged; distinct = distinct sequences of task labels',
    };
}
