// Image world (D05): images over a simulated loader. Every URL has a fixed outcome and each request its own latency;
// asking an element for another URL drops the events of the request before it, as browsers do.
import { schedule, setup, timeline } from '../lib/uiworld.mjs';

const URLS = ['a.png', 'b.png', 'c.png', 'd.png', 'e.png'];
const KINDS = { src: 6, fallback: 4, both: 1.5, view: 3, alt: 0.5, remount: 0.4 };

export function generate(property, rng, size) {
    const faulty = rng.bool(0.75);
    const bad = faulty ? URLS.filter(() => rng.bool(0.55)) : [];
    const pool = rng.shuffle([...URLS]).slice(0, rng.range(2, 5));
    const weights = rng.swarm(KINDS, 0.9);
    weights.src = Math.max(weights.src, 2);
    const n = rng.range(1, 2);
    const url = () => rng.pick(pool);
    const images = Array.from({ length: n }, (_, i) => ({ name: `i${i}`, src: url(), fallback: rng.bool(0.5) ? url() : '', lazy: rng.bool(0.35), view: rng.bool(0.3), plain: rng.bool(0.3) }));
    const slow = rng.pick([20, 120, 600]);
    const tl = timeline(rng, { paces: [10, 50, 200, 500], faulty });
    const nOps = rng.range(2, size ?? 18);
    for (let j = 0; j < nOps; j++) {
        const k = rng.weighted(weights);
        const i = rng.int(n);
        if (k === 'src') tl.add({ k, i, v: url() });
        else if (k === 'fallback') tl.add({ k, i, v: rng.bool(0.25) ? '' : url() });
        else if (k === 'both') tl.add({ k, i, v: url(), f: rng.bool(0.25) ? '' : url() });
        else if (k === 'view') tl.add({ k, i, v: rng.bool(0.6) });
        else tl.add({ k, i });
        if (rng.bool(0.2)) tl.gap(rng.pick([30, 200, 700]));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, bad, slow, images, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, window } = env;
    const { h, shallowReactive, markRaw } = Vue;
    const bad = new Set(scenario.bad ?? []);
    const slow = scenario.slow ?? 100;
    const images = scenario.images.map((d) => markRaw({
        name: d.name, lazy: !!d.lazy, plain: !!d.plain, view: !!d.view, st: shallowReactive({ src: d.src ?? URLS[0], fallback: d.fallback ?? '', alt: '', gen: 0 }),
        root: null, errors: 0, failures: 0, requests: 0, seen: !!d.view,
    }));
    const ownerOf = (el) => images.find((m) => m.root && m.root.contains(el));

    // --- the browser's image loader
    const loads = new WeakMap();
    let reqs = 0;
    function request(el, url) {
        const load = { url, state: 'pending' };
        if (loads.get(el)?.state === 'pending') sim.probe('superseded');
        loads.set(el, load);
        const id = ++reqs;
        if (url) {
            asked.push({ el, url });
            sim.log(`request ${url}`);
        }
        sim.after(url ? 1 + sim.rollInt(`load${id}`, slow) : 1, `load${id}`, `${url || 'empty'} settles`, () => {
            if (loads.get(el) !== load) return;
            const ok = url && !bad.has(url);
            load.state = ok ? 'ok' : 'failed';
            const m = ownerOf(el);
            if (!ok && url) {
                sim.fault('image-failure');
                if (m && el.isConnected) m.failures++;
            }
            el.dispatchEvent(new window.Event(ok ? 'load' : 'error'));
        });
    }
    const asked = [];
    const proto = window.HTMLImageElement.prototype;
    const native = Object.getOwnPropertyDescriptor(proto, 'src');
    Object.defineProperty(proto, 'src', { configurable: true, get() { return native.get.call(this); }, set(v) { this.setAttribute('src', v); } });
    const setAttribute = window.Element.prototype.setAttribute;
    proto.setAttribute = function (name, value) {
        setAttribute.call(this, name, value);
        if (name === 'src') request(this, String(value));
    };
    proto.removeAttribute = function (name) {
        window.Element.prototype.removeAttribute.call(this, name);
        if (name === 'src') loads.delete(this);
    };
    env.defaultInView = (el) => ownerOf(el)?.view ?? false;

    env.mountApp({
        render: () => h('main', images.map((m) => h('section', { key: m.name, ref: (el) => (m.root = el ?? m.root) }, [
            h(V.VsImage, { key: m.st.gen, src: m.st.src, fallback: m.st.fallback || undefined, lazy: m.lazy, noSkeleton: m.plain, alt: m.st.alt, onError: () => m.errors++ }),
        ]))),
    });
    const perform = (op) => {
        const m = images[op.i ?? 0];
        if (!m) return;
        switch (op.k) {
            case 'src': m.st.src = op.v ?? URLS[0]; break;
            case 'fallback': m.st.fallback = op.v ?? ''; break;
            case 'both':
                m.st.src = op.v ?? URLS[0];
                m.st.fallback = op.f ?? '';
                break;
            case 'alt': m.st.alt += 'x'; break;
            case 'remount':
                m.st.gen++;
                m.requests = 0;
                m.seen = m.view;
                break;
            case 'view':
                m.view = !!op.v;
                if (m.view) m.seen = true;
                for (const el of [m.root, ...m.root.querySelectorAll('*')]) env.setInView(el, m.view);
        }
    };
    sim.invariants.push(() => {
        for (const { el, url } of asked.splice(0)) {
            const m = ownerOf(el);
            if (!m) continue;
            m.requests++;
            expect(!m.lazy || m.seen, 'too-early', () => `${m.name} asked for ${url} before it came into view`);
        }
        for (const m of images) expect(m.errors === m.failures, 'reports', () => `${m.name} reported ${m.errors} failures, ${m.failures} happened`);
        sim.state(images.map((m) => `${m.st.src}${m.st.fallback}${loads.get(m.root.querySelector('img'))?.url}${loads.get(m.root.querySelector('img'))?.state}`).join('|'));
    });
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    for (const m of images) {
        if (m.lazy && !m.view && m.requests === 0) continue;
        const img = m.root.querySelector('img');
        const load = img && loads.get(img);
        const works = (u) => !!u && !bad.has(u);
        const want = works(m.st.src) ? m.st.src : works(m.st.fallback) ? m.st.fallback : null;
        const errorState = !!m.root.querySelector('.vs-image-fallback');
        const shown = img && load?.state === 'ok' && !img.classList.contains('vs-hidden') && !errorState ? load.url : null;
        const text = () => `source ${m.st.src} (${works(m.st.src) ? 'works' : 'fails'}), fallback ${m.st.fallback || 'none'} (${works(m.st.fallback) ? 'works' : 'fails'})`;
        sim.probe(want === m.st.src ? 'shows-source' : want ? 'shows-fallback' : 'shows-error');
        if (want) expect(shown === want, 'shown', () => `${m.name}: ${text()}, but shows ${shown ?? (errorState ? 'its error state' : 'nothing')}`);
        else expect(errorState, 'no-error-state', () => `${m.name}: ${text()}, but its error state is not shown`);
    }
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsImage, VsSkeleton', 'Vue runtime', 'the visibility observer composable'], stub: ['image loading (per-URL outcome, per-request latency)', 'visibility reports', 'clock, timers, frames', 'DOM (jsdom)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: ['bad'],
        nontrivial: (r) => (r.probes.superseded ?? 0) > 0 || (r.probes['shows-fallback'] ?? 0) > 0 || (r.probes['shows-error'] ?? 0) > 0,
        rule: 'a run is non-trivial if a request was superseded before it settled or a fallback or error was due; distinct = distinct sequences of task labels',
    };
}
