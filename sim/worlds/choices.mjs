// Choice set world (F12): checkbox sets and radio sets whose options are replaced while the user chooses, the program
// writes, and change guards are deciding. The model knows the options offered and the values held.
import { same, schedule, setup, show, timeline } from '../lib/uiworld.mjs';

const NAMES = ['ash', 'birch', 'cedar', 'date', 'elm'];
const FORMS = { plain: 3, keyed: 3, object: 3, nested: 2, number: 1.5 };

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const n = rng.range(1, 2);
    const list = () => rng.shuffle([...NAMES]).slice(0, rng.range(rng.bool(0.1) ? 0 : 1, NAMES.length));
    const pick = (d, from) => (d.many ? rng.shuffle(from.filter(() => rng.bool(0.4))) : rng.bool(0.25) || !from.length ? null : rng.pick(from));
    const groups = Array.from({ length: n }, (_, i) => {
        const d = { name: `g${i}`, many: rng.bool(0.55), form: rng.weighted(FORMS), options: list() };
        return {
            ...d, init: pick(d, NAMES),
            guard: rng.bool(0.5) ? Array.from({ length: rng.range(1, 4) }, () => ({ ans: rng.weighted(faulty ? { yes: 6, no: 3, reject: 1, throw: 0.6 } : { yes: 6, no: 3 }), lat: rng.bool(0.15) ? -1 : rng.pick([0, 1, 5, 20, 60, 150, 400]) })) : null,
        };
    });
    const weights = rng.swarm({ click: 7, write: 2.5, options: 4, refresh: 2, both: 1.5, twice: 1 }, 0.85);
    weights.click = Math.max(weights.click ?? 0, 2);
    const tl = timeline(rng, { paces: [2, 8, 30, 120], faulty });
    const nOps = rng.range(3, size ?? 22);
    for (let j = 0; j < nOps; j++) {
        const i = rng.int(n);
        const d = groups[i];
        const k = rng.weighted(weights);
        if (k === 'click') tl.add({ k, i, o: rng.int(5) });
        else if (k === 'write') tl.add({ k, i, v: pick(d, NAMES) });
        else if (k === 'options') tl.add({ k, i, v: list() });
        else if (k === 'refresh') tl.add({ k, i });
        else if (k === 'both') {
            const v = list();
            tl.add({ k: 'burst', ops: rng.shuffle([{ k: 'options', i, v }, { k: 'write', i, v: pick(d, v) }]) });
        } else tl.add({ k: 'burst', ops: [{ k: 'options', i, v: list() }, { k: 'options', i, v: list() }] });
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, groups, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue } = env;
    const { h, shallowReactive, markRaw } = Vue;
    // fresh objects each time: equal content, another identity
    const value = (g, name) => (g.form === 'object' ? { id: name, label: `the ${name}` } : g.form === 'nested' ? { id: name } : g.form === 'number' ? NAMES.indexOf(name) : name);
    const option = (g, name) => (g.form === 'keyed' ? { label: `the ${name}`, v: name } : g.form === 'nested' ? { text: { label: `the ${name}` }, v: { id: name } } : value(g, name));
    const label = (g, name) => (g.form === 'plain' ? name : g.form === 'number' ? String(NAMES.indexOf(name)) : `the ${name}`);
    const extra = (g) => (g.form === 'keyed' ? { optionLabel: 'label', optionValue: 'v' } : g.form === 'nested' ? { optionLabel: 'text.label', optionValue: 'v' } : g.form === 'object' ? { optionLabel: 'label' } : {});
    const live = (g, v) => (Array.isArray(v) ? v.map((x) => value(g, x)) : v === null ? null : value(g, v));
    const key = (g, v) => (Array.isArray(v) ? v.map((x) => key(g, x)) : v === null || v === undefined ? null : g.form === 'number' ? NAMES[v] : typeof v === 'object' ? v.id : v);
    const groups = scenario.groups.map((d) => {
        const g = markRaw({ form: 'plain', options: [], guard: null, ...d, calls: 0, pending: [], asking: null, updates: [], since: 0, settled: null });
        g.offered = g.options;
        g.init ??= g.many ? [] : null;
        g.want = g.init;
        g.st = shallowReactive({ v: live(g, g.init), options: g.offered.map((o) => option(g, o)) });
        return g;
    });
    const applied = (g, name, to) => (!g.many ? name : to ? (g.want.includes(name) ? g.want : [...g.want, name]) : g.want.filter((x) => x !== name));
    const guard = (g) => (from, to) => {
        const req = g.asking;
        expect(req && !req.seen, 'asked', () => `the guard of ${g.name} was asked ${req ? 'again' : 'without a request'}`);
        req.seen = true;
        const want = applied(g, req.name, req.to);
        expect(same(key(g, from), g.want) && same(key(g, to), want), 'asked-with', () => `the guard of ${g.name} was asked (${show(from)} -> ${show(to)}), expected (${show(g.want)} -> ${show(want)})`);
        const a = g.guard[g.calls++ % g.guard.length];
        const settle = (ok) => {
            if (ok && !req.gone) {
                sim.probe('approved');
                g.want = applied(g, req.name, req.to);
            } else if (ok) sim.probe('approved-but-gone');
        };
        if (a.ans === 'throw') {
            sim.fault('guard-throws');
            throw new Error('guard failed (injected)');
        }
        if (a.ans === 'reject') sim.fault('guard-rejects');
        if (a.lat < 0 && a.ans !== 'reject') {
            settle(a.ans === 'yes');
            return a.ans === 'yes';
        }
        g.pending.push(req);
        const p = sim.promise(`guard ${g.name}#${g.calls}`, Math.max(0, a.lat), a.ans === 'reject' ? { ok: false, error: new Error('guard failed (injected)') } : { ok: true, value: a.ans === 'yes' });
        const end = (ok) => {
            g.pending = g.pending.filter((r) => r !== req);
            g.since = sim.now;
            settle(ok);
        };
        p.then(end, () => end(false));
        return p;
    };
    const { app } = env.mountApp({
        render: () => h('main', groups.map((g) => h(g.many ? V.VsCheckboxSet : V.VsRadioSet, {
            key: g.name, ref: (vm) => vm && (g.el = vm.$el), ...extra(g), name: g.name,
            options: g.st.options, modelValue: g.st.v,
            'onUpdate:modelValue': (v) => {
                sim.log(`${g.name} := ${show(v)}`);
                g.updates.push(key(g, v));
                g.st.v = v;
            },
            ...(g.guard ? { beforeChange: (g.fn ??= guard(g)) } : {}),
        }))),
    });
    const boxes = (g) => [...g.el.querySelectorAll('input')];
    let judged = null;
    function perform(op, { burst }) {
        const g = groups[op.i];
        if (op.k === 'click') {
            const input = boxes(g)[op.o % (boxes(g).length || 1)];
            if (!input || (!g.many && input.checked)) return;
            const name = g.offered[boxes(g).indexOf(input)];
            const req = { name, to: !g.many || !g.want.includes(name), seen: false, gone: false };
            if (g.pending.length) sim.probe('request-while-pending');
            sim.probe('request');
            g.asking = req;
            judged = { g, req };
            if (!g.guard) g.want = applied(g, name, req.to);
            env.mouse(input, 'click');
            return;
        }
        if (op.k === 'write') {
            g.st.v = live(g, op.v);
            g.written = true;
            g.writeTo = op.v;
        } else {
            g.next = op.k === 'refresh' ? g.offered : op.v;
            g.st.options = g.next.map((o) => option(g, o));
            sim.probe(op.k === 'refresh' ? 'same-options-anew' : g.pending.length ? 'options-while-pending' : 'options');
        }
        if (!burst) flush(g, op);
    }
    // what the set must hold once the requests of this tick have been carried out
    function flush(g, op) {
        if (g.next) {
            const kept = g.many ? g.want.filter((x) => g.next.includes(x)) : g.next.includes(g.want) ? g.want : null;
            const replaced = !same(g.next, g.offered);
            for (const req of g.pending) if (!g.next.includes(req.name)) req.gone = true;
            g.offered = g.next;
            if (replaced) {
                if (!same(kept, g.want)) sim.probe('dropped');
                if (op.k !== 'burst') g.settled = { from: g.updates.length, dropped: !same(kept, g.want) };
                g.want = kept;
            } else if (op.k !== 'burst') g.settled = { from: g.updates.length, dropped: false };
        }
        if (g.written) g.want = g.writeTo;
        g.next = null;
        g.written = false;
        g.since = sim.now;
    }
    const look = (g, when) => {
        const shown = boxes(g);
        const texts = shown.map((el) => (el.closest('label') ?? el.parentElement).textContent.trim());
        expect(same(texts, g.offered.map((o) => label(g, o))), 'options', () => `${g.name} shows the choices ${show(texts)}, offered are ${show(g.offered)} ${when}`);
        const checked = g.offered.filter((_, o) => shown[o].checked);
        const held = g.offered.filter((o) => (g.many ? g.want.includes(o) : g.want === o));
        expect(same(checked, held), 'shown', () => `${g.name} shows ${show(checked)} but holds ${show(g.want)} ${when}`);
    };
    sim.invariants.push(() => {
        if (judged) {
            const { g, req } = judged;
            judged = null;
            g.asking = null;
            g.since = sim.now;
            if (g.guard) expect(req.seen, 'not-asked', () => `the guard of ${g.name} was not asked`);
        }
        for (const g of groups) {
            expect(same(key(g, g.st.v), g.want), 'value', () => `${g.many ? 'checkbox' : 'radio'} set ${g.name} holds ${show(key(g, g.st.v))}, expected ${show(g.want)}`);
            if (g.settled) {
                const { from, dropped } = g.settled;
                g.settled = null;
                const told = g.updates.slice(from);
                expect(dropped ? told.length === 1 && same(told[0], g.want) : !told.length, 'told', () => `new options for ${g.name} ${dropped ? `leave ${show(g.want)}` : 'change nothing'}, reported ${show(told)}`);
            }
            if (!g.pending.length && sim.now - g.since >= 40) look(g, '');
        }
        sim.state(groups.map((g) => `${g.many}${g.form}${show(g.want)}${show(g.offered)}${g.pending.length}`).join('|'));
    });
    schedule(sim, scenario, perform, (op) => {
        if (op.k === 'burst') for (const g of groups) if (g.next || g.written) flush(g, op);
    });
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    for (const g of groups) look(g, 'at rest');
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsCheckboxSet, VsRadioSet, VsCheckbox, VsRadio, option and input composables', 'Vue runtime'], stub: ['clock, timers, frames', 'change guards (scripted)', 'DOM (jsdom, with native checkbox and radio behaviour)', 'clicks'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes.dropped ?? 0) + (r.probes['options-while-pending'] ?? 0) > 0 && (r.probes.request ?? 0) > 0,
        rule: 'a run is non-trivial if new options dropped a held value or arrived while a guard was deciding, and the user chose something; distinct = distinct sequences of task labels',
    };
}
