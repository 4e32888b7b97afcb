// Search box world (F06): keystrokes, clears, outside writes and mode switches around the debounce time.
import { schedule, setup, show, timeline, typeInto } from '../lib/uiworld.mjs';

const TEXTS = ['', 'a', 'ab', 'aB', 'B', 'a.', '^a', '[', 'b$', 'zz'];
const SUBJECTS = ['abc', 'ABC', 'xaBy', 'a.c', 'b', '[x', '', 'zzz'];
const DELAY = 400;
const W = { type: 8, erase: 1.5, clear: 1.2, write: 2, mode: 1.5, modeProp: 0.8, remake: 0.5 };

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const weights = rng.swarm(W, 0.85);
    weights.type = Math.max(weights.type, 4);
    const tl = timeline(rng, { paces: [20, 80, 250, 420, 900], faulty });
    const nOps = rng.range(3, size ?? 24);
    for (let j = 0; j < nOps; j++) {
        const k = rng.weighted(weights);
        switch (k) {
            case 'type': case 'write': tl.add({ k, v: rng.pick(TEXTS) }); break;
            case 'mode': case 'modeProp': tl.add({ k, m: rng.pick(['cs', 're']) }); break;
            default: tl.add({ k });
        }
        if (rng.bool(0.25)) tl.gap(rng.pick([DELAY - 2, DELAY - 1, DELAY, DELAY + 1, 900]));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, init: rng.pick(TEXTS), cs: rng.bool(0.4), re: rng.bool(0.4), ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue } = env;
    const { h, shallowReactive } = Vue;
    const st = shallowReactive({ v: scenario.init, cs: scenario.cs, re: scenario.re, key: 0 });
    let vm = null;
    let text = scenario.init; // what the box must hold
    let armed = null; // {at, must} the pause being waited for
    let stalled = false;
    const onSearch = (gen) => (value) => {
        sim.log(`search ${show(value)}`);
        expect(gen === st.key, 'after-removal', () => `a removed search box reported ${show(value)}`);
        expect(armed, 'extra', () => `a search for ${show(value)} was reported again without anything having changed`);
        expect(sim.now >= armed.at + DELAY, 'early', () => `a search for ${show(value)} was reported ${sim.now - armed.at} ms after the last change`);
        expect(value === text, 'stale', () => `a search for ${show(value)} was reported while the box holds ${show(text)}`);
        sim.probe(armed.n > 1 ? 'burst-reported' : 'reported');
        armed = null;
    };
    const touch = (must) => (armed = { at: sim.now, must: must || !!armed?.must, n: (armed?.n ?? 0) + 1 });
    const { app } = env.mountApp({
        render: () => h('main', [h(V.VsSearchInput, {
            key: st.key, ref: (x) => (vm = x ?? vm), useCaseSensitive: true, useRegex: true,
            modelValue: st.v, 'onUpdate:modelValue': (v) => (st.v = v),
            caseSensitive: st.cs, 'onUpdate:caseSensitive': (v) => (st.cs = v),
            regex: st.re, 'onUpdate:regex': (v) => (st.re = v),
            onSearch: (onSearch.cache ??= [])[st.key] ??= onSearch(st.key),
        })]),
    });
    const input = () => vm.$el.querySelector('input');
    function perform(op) {
        switch (op.k) {
            case 'type': case 'erase': {
                const v = op.k === 'erase' ? text.slice(0, -1) : op.v;
                if (v === text) return;
                text = v;
                touch(true);
                sim.probe('typed');
                typeInto(env, input(), v);
                return;
            }
            case 'clear':
                if (text !== '') touch(true);
                text = '';
                vm.clear();
                return;
            case 'write':
                if (op.v === st.v) return;
                if (armed) sim.probe('written-while-waiting');
                // a write is shown; whether it is also announced as a search is up to the box
                if (op.v !== text) touch(false);
                text = op.v;
                st.v = op.v;
                return;
            case 'mode': {
                const b = vm.$el.querySelectorAll('.vs-search-input-toggle');
                touch(false);
                env.click(b[op.m === 'cs' ? 0 : 1]);
                return;
            }
            case 'modeProp':
                touch(false);
                st[op.m] = !st[op.m];
                return;
            case 'remake':
                st.key++;
                armed = null;
                // what was typed and not yet reported goes with the box
                text = st.v;
                sim.probe('remade');
        }
    }
    const matches = (s) => {
        if (!text) return true;
        const plain = () => (st.cs ? s.includes(text) : s.toLowerCase().includes(text.toLowerCase()));
        if (!st.re) return plain();
        let r;
        try {
            r = new RegExp(text, st.cs ? '' : 'i');
        } catch {
            return plain();
        }
        return r.test(s);
    };
    sim.invariants.push(() => {
        const shown = input().value;
        expect(shown === text, 'box', () => `the box shows ${show(shown)}, expected ${show(text)}`);
        for (const s of SUBJECTS) expect(vm.match(s) === matches(s), 'match', () => `${show(s)} ${vm.match(s) ? 'matches' : 'does not match'} ${show(text)} (case ${st.cs}, pattern ${st.re})`);
        if (armed?.must && !stalled) expect(sim.now <= armed.at + DELAY + 1, 'late', () => `${show(text)} was not reported ${sim.now - armed.at} ms after the last change`);
        if (!armed) expect(st.v === text, 'model', () => `the bound text is ${show(st.v)} but the box holds ${show(text)}`);
        sim.state(`${text}|${st.v}|${st.cs}|${st.re}|${!!armed}`);
    });
    stalled = scenario.ops.some((o) => o.k === 'stall');
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    expect(!armed?.must, 'lost', () => `${show(text)} was never reported`);
    expect(st.v === text, 'model', () => `the bound text ended as ${show(st.v)} but the box holds ${show(text)}`);
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsSearchInput, VsInput, VsToggle, input composables, debounce utility', 'Vue runtime'], stub: ['clock, timers', 'DOM (jsdom)', 'keystrokes and clicks'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes['burst-reported'] ?? 0) + (r.probes['written-while-waiting'] ?? 0) > 0,
        rule: 'a run is non-trivial if several changes fell into one pause or an outside write met a waiting report; distinct = distinct sequences of task labels',
    };
}
