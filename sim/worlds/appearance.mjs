// Appearance world (S04): components with colour schemes and style sets of their own or of the application, while both
// change. The model resolves scheme and styling from what is set now; the settings handed over are watched for changes.
import { schedule, setup, timeline, show } from '../lib/uiworld.mjs';

const KINDS = ['VsDivider', 'VsChip', 'VsButton', 'VsLabelValue', 'VsLoading'];
const SCHEMES = ['red', 'blue', 'green', 'teal'];
const NAMES = ['brand', 'dense', 'plain'];
/** variables of each kind, and its parts with styling of their own */
const VARIABLES = { VsDivider: ['$border', '$verticalMargin'], VsChip: ['$height'], VsButton: [], VsLabelValue: [], VsLoading: ['$barColor', '$barWidth'] };
const PARTS = { VsDivider: {}, VsChip: { $closeButton: '.vs-chip-close-button' }, VsButton: { $content: '.vs-button-content' }, VsLabelValue: { $value: '.vs-value' }, VsLoading: {} };
const STYLES = { opacity: ['0.1', '0.5', 0], zIndex: [1, '2', 0, null], display: ['flex', 'grid'], width: ['11px', '12px'] };
const css = (key) => key.replace(/[A-Z]/g, (c) => `-${c.toLowerCase()}`);

function styles(rng, p) {
    const out = {};
    for (const [key, values] of Object.entries(STYLES)) if (rng.bool(p)) out[key] = rng.pick(values);
    return out;
}
function styleSet(rng, kind) {
    const out = styles(rng, 0.4);
    for (const key of VARIABLES[kind]) if (rng.bool(0.5)) out[key] = `${1 + rng.int(5)}px`;
    for (const key of Object.keys(PARTS[kind])) if (rng.bool(0.5)) out[key] = styles(rng, 0.5);
    if (kind === 'VsButton' && rng.bool(0.6)) out.$loading = styleSet(rng, 'VsLoading');
    return out;
}
const registry = (rng) => Object.fromEntries(NAMES.filter(() => rng.bool(0.7)).map((name) => [name, Object.fromEntries(KINDS.filter(() => rng.bool(0.6)).map((kind) => [kind, styleSet(rng, kind)]))]));
const schemes = (rng) => Object.fromEntries(['default', ...KINDS].filter((k) => rng.bool(k === 'default' ? 0.5 : 0.35)).map((k) => [k, rng.pick(SCHEMES)]));
const ownScheme = (rng) => rng.weighted({ '': 4, none: 1.5, red: 1, blue: 1 });
const ownSet = (rng, kind) => (rng.bool(0.3) ? null : rng.bool(0.6) ? rng.pick(rng.bool(0.85) ? NAMES : ['nobody']) : styleSet(rng, kind));

export function generate(property, rng, size) {
    const tl = timeline(rng, { faulty: false, paces: [2, 20] });
    const items = Array.from({ length: rng.range(2, 6) }, () => {
        const kind = rng.pick(KINDS);
        return { kind, scheme: ownScheme(rng), set: ownSet(rng, kind), width: rng.bool(0.3) ? 40 : null, primary: rng.bool(0.3) };
    });
    const weights = rng.swarm({ schemes: 3, sets: 4, scheme: 2.5, set: 4, share: 2, width: 1.5, primary: 1.5, remake: 1.5, render: 1 }, 0.85);
    const one = () => {
        const k = rng.weighted(weights);
        const i = rng.int(items.length);
        const kind = items[i].kind;
        if (k === 'schemes') return { k, v: schemes(rng) };
        if (k === 'sets') return { k, v: registry(rng) };
        if (k === 'scheme') return { k, i, v: ownScheme(rng) };
        if (k === 'set') return { k, i, v: ownSet(rng, kind) };
        if (k === 'share') return { k, i, from: rng.int(items.length) };
        if (k === 'width') return { k, i, v: rng.pick([null, 40, '50%']) };
        return { k, i };
    };
    const nOps = rng.range(3, size ?? 20);
    for (let j = 0; j < nOps; j++) {
        if (rng.bool(0.3)) tl.add({ k: 'burst', ops: Array.from({ length: rng.range(2, 4) }, one) });
        else tl.add(one());
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.5) ? 'random' : 'time', faulty: false, items, schemes: schemes(rng), sets: registry(rng), ops: tl.ops };
}

const isObject = (v) => v !== null && typeof v === 'object';
/** later settings over earlier ones, part by part */
function over(a, b) {
    const out = { ...a };
    for (const [key, v] of Object.entries(b)) out[key] = isObject(v) && isObject(out[key]) ? over(out[key], v) : v;
    return out;
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue } = env;
    const { h, shallowReactive, markRaw } = Vue;
    const copy = (v) => JSON.parse(JSON.stringify(v ?? null));
    const given = []; // everything handed to the library, with how it looked then
    const give = (v) => {
        const mine = copy(v);
        if (isObject(mine)) given.push([mine, show(mine)]);
        return mine;
    };
    // the model's own copies
    let schemesNow = copy(scenario.schemes) ?? {};
    let setsNow = copy(scenario.sets) ?? {};
    const items = (scenario.items ?? []).map((d) => markRaw({
        kind: d.kind ?? 'VsDivider',
        set: copy(d.set),
        st: shallowReactive({ scheme: d.scheme ?? '', set: give(d.set), width: d.width ?? null, primary: !!d.primary, life: 0, n: 0 }),
    }));
    const { app } = env.mountApp({
        render: () => h('main', items.map((e, i) => h(V[e.kind], {
            key: `${i}/${e.st.life}`,
            ref: (vm) => vm && (e.el = vm.$el),
            ...(e.st.scheme ? { colorScheme: e.st.scheme } : {}),
            ...(e.st.set !== null ? { styleSet: e.st.set } : {}),
            ...(e.kind === 'VsLoading' && e.st.width !== null ? { width: e.st.width } : {}),
            ...(e.kind === 'VsButton' ? { loading: true, primary: e.st.primary } : {}),
            ...(e.kind === 'VsChip' ? { closable: true } : {}),
        }, e.kind === 'VsDivider' || e.kind === 'VsLoading' ? undefined : { default: () => `${e.st.n}` }))),
    }, { colorScheme: give(schemesNow), styleSet: give(setsNow) });
    const vs = app.config.globalProperties.$vs;

    function perform(op) {
        const e = items[op.i ?? 0];
        if (!e) return;
        sim.probe(op.k);
        if (op.k === 'schemes') {
            schemesNow = copy(op.v) ?? {};
            vs.colorScheme = give(schemesNow);
        } else if (op.k === 'sets') {
            setsNow = copy(op.v) ?? {};
            vs.styleSet = give(setsNow);
        } else if (op.k === 'scheme') e.st.scheme = op.v ?? '';
        else if (op.k === 'set') {
            e.set = copy(op.v);
            e.st.set = give(op.v);
        } else if (op.k === 'share') {
            // the same object for two components of a kind
            const other = items[op.from];
            if (other?.kind !== e.kind) return;
            e.set = other.set;
            e.st.set = other.st.set;
        } else if (op.k === 'width') e.st.width = op.v ?? null;
        else if (op.k === 'primary') e.st.primary = !e.st.primary;
        else if (op.k === 'remake') e.st.life++;
        else e.st.n++;
    }

    const scheme = (own, kind) => (own === 'none' ? 'default' : own || schemesNow[kind] || schemesNow.default || 'default');
    const resolve = (set, kind) => (typeof set === 'string' ? setsNow[set]?.[kind] ?? {} : set ?? {});
    const shownScheme = (el) => [...el.classList].filter((c) => c.startsWith('vs-cs-')).join(' ');
    function shown(el) {
        const out = {};
        for (let i = 0; i < el.style.length; i++) out[el.style[i]] = el.style.getPropertyValue(el.style[i]);
        return out;
    }
    function wanted(set, kind) {
        const out = {};
        for (const [key, v] of Object.entries(set)) {
            if (isObject(v) || v === undefined || v === null) continue;
            out[key.startsWith('$') ? `--${css(kind).replace(/^-/, '')}-${key.slice(1)}` : css(key)] = String(v);
        }
        return out;
    }
    const sorted = (o) => show(Object.entries(o).sort(([a], [b]) => (a < b ? -1 : 1)));
    const looks = (el, set, kind, what) => {
        expect(el, 'missing', () => `${what} is not there`);
        const is = sorted(shown(el));
        const should = sorted(wanted(set, kind));
        expect(is === should, 'style', () => `${what} has the styling ${is}, what is set calls for ${should}`);
    };
    sim.invariants.push(() => {
        items.forEach((e, i) => {
            const what = `component ${i} (${e.kind})`;
            const cs = `vs-cs-${scheme(e.st.scheme, e.kind)}`;
            expect(shownScheme(e.el) === cs, 'scheme', () => `${what} shows ${shownScheme(e.el)}, set are ${show(e.st.scheme)} and ${show(schemesNow)}`);
            let set = resolve(e.set, e.kind);
            if (e.kind === 'VsButton') set = over({ $loading: { ...(e.st.primary ? { $barColor: 'var(--vs-cs-font-primary)' } : {}), width: '30%', height: '60%' } }, set);
            if (e.kind === 'VsLoading' && e.st.width !== null) set = over(set, { width: typeof e.st.width === 'number' ? `${e.st.width}px` : e.st.width });
            looks(e.el, set, e.kind, what);
            for (const [part, where] of Object.entries(PARTS[e.kind])) looks(e.el.querySelector(where), set[part] ?? {}, '', `${part} of ${what}`);
            if (e.kind === 'VsButton') {
                const inner = e.el.querySelector('.vs-loading');
                looks(inner, set.$loading, 'VsLoading', `the loading of ${what}`);
                const own = `vs-cs-${scheme(e.st.scheme, 'VsLoading')}`;
                expect(shownScheme(inner) === own, 'scheme', () => `the loading of ${what} shows ${shownScheme(inner)} instead of ${own}`);
            }
        });
        const altered = given.find(([v, before]) => show(v) !== before);
        expect(!altered, 'altered', () => `a setting given as ${altered[1]} has become ${show(altered[0])}`);
        sim.state(items.map((e) => `${e.kind}${e.st.scheme}${typeof e.set === 'string' ? e.set : e.set ? 'o' : ''}`).join('|') + show(schemesNow));
    });
    schedule(sim, scenario, perform);
    await sim.run();
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsDivider, VsChip, VsButton, VsLabelValue, VsLoading', 'colour scheme and style set resolution', 'application settings', 'Vue runtime'], stub: ['DOM (jsdom)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes.schemes ?? 0) + (r.probes.sets ?? 0) > 0 && (r.probes.set ?? 0) + (r.probes.scheme ?? 0) + (r.probes.share ?? 0) > 0,
        rule: 'a run is non-trivial if settings of the application and of a component both changed; distinct = distinct sequences of task labels',
    };
}
