// Guarded toggle world (F04): switches, checkboxes, radios and their sets with scripted asynchronous change guards,
// clicked and written from outside while guards are deciding.
import { same, schedule, setup, show, timeline } from '../lib/uiworld.mjs';

const KINDS = { switch: 3, switchYN: 1.5, switchMulti: 1.5, checkbox: 2.5, checkboxYN: 1, checkboxMulti: 2, checkboxSet: 3, radios: 3, radioSet: 3 };
const OPTIONS = ['a', 'b', 'c'];
const many = (k) => ['switchMulti', 'checkboxMulti', 'checkboxSet'].includes(k);
const oneOf = (k) => ['radios', 'radioSet'].includes(k);

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const n = rng.range(1, 2);
    const pick = (kind) => {
        if (many(kind)) return OPTIONS.filter(() => rng.bool(0.4));
        if (oneOf(kind)) return rng.bool(0.3) ? null : rng.pick(OPTIONS);
        return kind.endsWith('YN') ? rng.pick(['Y', 'N']) : rng.bool(0.5);
    };
    const groups = Array.from({ length: n }, (_, i) => {
        const kind = rng.weighted(KINDS);
        return {
            name: `g${i}`, kind, init: pick(kind), objects: rng.bool(0.3),
            guard: rng.bool(0.93) ? Array.from({ length: rng.range(1, 5) }, () => ({ ans: rng.weighted(faulty ? { yes: 6, no: 3, reject: 1.2, throw: 0.7 } : { yes: 6, no: 3 }), lat: rng.bool(0.15) ? -1 : rng.pick([0, 1, 5, 20, 60, 150, 400]) })) : null,
        };
    });
    const tl = timeline(rng, { paces: [2, 8, 30, 120], faulty });
    const nOps = rng.range(3, size ?? 22);
    for (let j = 0; j < nOps; j++) {
        const i = rng.int(n);
        if (rng.bool(0.82)) tl.add({ k: 'click', i, o: rng.int(3) });
        else tl.add({ k: 'write', i, v: pick(groups[i].kind) });
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, groups, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue } = env;
    const { h, shallowReactive, markRaw } = Vue;
    // some groups work with objects: every write brings fresh copies of equal content
    const live = (d, v) => (!d.objects ? v : Array.isArray(v) ? v.map((x) => live(d, x)) : v === null ? v : { is: v });
    const key = (v) => (Array.isArray(v) ? v.map(key) : v !== null && typeof v === 'object' ? v.is : v);
    const groups = scenario.groups.map((d) => markRaw({ ...d, st: shallowReactive({ v: live(d, d.init) }), els: [], calls: 0, want: d.init, pending: 0, asking: null, asked: 0 }));
    const setOf = (g, v) => (many(g.kind) ? key(Array.isArray(v) ? v : []).sort() : key(v));
    const truthy = (g) => (g.kind.endsWith('YN') ? 'Y' : true);
    const falsy = (g) => (g.kind.endsWith('YN') ? 'N' : false);
    const on = (g, v, o) => (many(g.kind) ? Array.isArray(v) && v.includes(OPTIONS[o]) : oneOf(g.kind) ? v === OPTIONS[o] : v === truthy(g));
    // the value after a request to switch option o on or off, applied to v
    const applied = (g, v, o, to) => {
        if (oneOf(g.kind)) return OPTIONS[o];
        if (!many(g.kind)) return to ? truthy(g) : falsy(g);
        return to ? (v.includes(OPTIONS[o]) ? v : [...v, OPTIONS[o]]) : v.filter((x) => x !== OPTIONS[o]);
    };
    const guard = (g) => (from, to, option) => {
        const req = g.asking;
        expect(req && !req.seen, 'asked', () => `the guard of ${g.name} was asked ${req ? 'again' : 'without a request'}`);
        req.seen = true;
        const want = applied(g, g.want, req.o, req.to);
        expect(same(setOf(g, from), setOf(g, g.want)) && same(setOf(g, to), setOf(g, want)), 'asked-with',
            () => `the guard of ${g.kind} ${g.name} was asked (${show(from)} -> ${show(to)}), expected (${show(g.want)} -> ${show(want)})`);
        void option;
        const a = g.guard[g.calls++ % g.guard.length];
        sim.probe('guard');
        const settle = (ok) => {
            if (!ok) return;
            sim.probe('approved');
            if (g.pending) sim.probe('approved-while-others-pending');
            g.want = applied(g, g.want, req.o, req.to);
        };
        if (a.ans === 'throw') {
            sim.fault('guard-throws');
            throw new Error('guard failed (injected)');
        }
        if (a.ans === 'reject') sim.fault('guard-rejects');
        if (a.lat < 0 && a.ans !== 'reject') {
            settle(a.ans === 'yes');
            return a.ans === 'yes';
        }
        g.pending++;
        const p = sim.promise(`guard ${g.name}#${g.calls}`, Math.max(0, a.lat), a.ans === 'reject' ? { ok: false, error: new Error('guard failed (injected)') } : { ok: true, value: a.ans === 'yes' });
        p.then(
            (v) => {
                g.pending--;
                settle(v);
            },
            () => g.pending--,
        );
        return p;
    };
    const common = (g) => ({
        modelValue: g.st.v,
        'onUpdate:modelValue': (v) => {
            sim.log(`${g.name} := ${show(v)}`);
            g.st.v = v;
        },
        ...(g.guard ? { beforeChange: (g.fn ??= guard(g)) } : {}),
    });
    const render = (g) => {
        const el = (o) => (vm) => vm && (g.els[o] = vm.$el);
        switch (g.kind) {
            case 'switch': case 'checkbox': return h(g.kind === 'switch' ? V.VsSwitch : V.VsCheckbox, { key: g.name, ref: el(0), ...common(g), ...(g.objects ? { trueValue: live(g, true), falseValue: live(g, false) } : {}) });
            case 'switchYN': case 'checkboxYN': return h(g.kind === 'switchYN' ? V.VsSwitch : V.VsCheckbox, { key: g.name, ref: el(0), ...common(g), trueValue: live(g, 'Y'), falseValue: live(g, 'N') });
            case 'switchMulti': case 'checkboxMulti':
                return OPTIONS.map((o, i) => h(g.kind === 'switchMulti' ? V.VsSwitch : V.VsCheckbox, { key: g.name + o, ref: el(i), ...common(g), multiple: true, trueValue: live(g, o) }));
            case 'radios': return OPTIONS.map((o, i) => h(V.VsRadio, { key: g.name + o, ref: el(i), ...common(g), radioValue: live(g, o), name: g.name }));
            case 'checkboxSet': case 'radioSet': return h(g.kind === 'radioSet' ? V.VsRadioSet : V.VsCheckboxSet, { key: g.name, ref: el('set'), ...common(g), options: (g.options ??= live(g, OPTIONS)), ...(g.objects ? { optionLabel: 'is' } : {}), name: g.name });
        }
    };
    const { app } = env.mountApp({ render: () => h('main', groups.map((g) => h('section', { key: g.name }, render(g)))) });
    const inputs = (g) => (g.inputs ??= g.kind.endsWith('Set') ? Array.from(g.els.set.querySelectorAll('input')) : g.els.map((e) => e.querySelector('input')));
    let judged = null;
    function perform(op) {
        const g = groups[op.i];
        if (op.k === 'write') {
            if (g.pending) sim.probe('write-while-pending');
            g.st.v = live(g, op.v);
            g.want = op.v;
            return;
        }
        const o = inputs(g).length === 1 ? 0 : op.o;
        const input = inputs(g)[o];
        // a radio that is already marked does not react to a click; a user can only ask for another one
        if (oneOf(g.kind) && input.checked) return;
        const req = { o, to: oneOf(g.kind) ? true : !on(g, g.want, o), seen: false };
        if (g.pending) sim.probe('request-while-pending');
        g.asking = req;
        sim.probe('request');
        judged = { g, req };
        if (!g.guard) g.want = applied(g, g.want, o, req.to);
        env.mouse(input, 'click');
    }
    sim.invariants.push(() => {
        const judgedNow = !!judged;
        if (judged) {
            const { g, req } = judged;
            judged = null;
            g.asking = null;
            if (g.guard) expect(req.seen, 'not-asked', () => `the guard of ${g.kind} ${g.name} was not asked`);
        }
        for (const g of groups) {
            const v = g.st.v;
            expect(same(setOf(g, v), setOf(g, g.want)), 'value', () => `${g.kind} ${g.name} holds ${show(v)}, expected ${show(g.want)}`);
            // a control whose guard is still deciding, or has just decided, may show either state
            if (g.pending || judgedNow) g.since = sim.now;
            if (g.pending || sim.now - (g.since ?? 0) < 40) continue;
            inputs(g).forEach((el, o) => expect(el.checked === on(g, key(v), o), 'shown', () => `${g.kind} ${g.name} shows ${inputs(g).map((e) => e.checked)} but holds ${show(v)}`));
        }
        sim.state(groups.map((g) => `${g.kind}${show(g.st.v)}${g.pending}`).join('|'));
    });
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    for (const g of groups) inputs(g).forEach((el, o) => expect(el.checked === on(g, key(g.st.v), o), 'shown', () => `${g.kind} ${g.name} shows ${inputs(g).map((e) => e.checked)} but holds ${show(g.st.v)}`));
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsSwitch, VsCheckbox, VsCheckboxSet, VsRadio, VsRadioSet, input composables', 'Vue runtime'], stub: ['clock, timers, frames', 'change guards (scripted)', 'DOM (jsdom, with native checkbox and radio behaviour)', 'clicks'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes['request-while-pending'] ?? 0) + (r.probes['write-while-pending'] ?? 0) > 0 && (r.probes.approved ?? 0) > 0,
        rule: 'a run is non-trivial if a request or an outside write fell into the time a guard was deciding and at least one request was approved; distinct = distinct sequences of task labels',
    };
}
