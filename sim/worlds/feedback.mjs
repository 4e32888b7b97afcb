// Feedback world (F09): repeated copies and failed validations around the duration of their feedback.
import { schedule, setup, show, timeline } from '../lib/uiworld.mjs';

const COPY = 2000;
const SHAKE = 600;
const FIELDS = ['VsInput', 'VsTextarea', 'VsCheckbox', 'VsSwitch', 'VsRadioSet', 'VsSelect', 'VsFileDrop'];

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const wraps = Array.from({ length: rng.range(0, 2) }, (_, i) => ({ name: `w${i}`, text: rng.pick(['one', 'two', '']) }));
    const fields = Array.from({ length: rng.range(wraps.length ? 0 : 1, 2) }, (_, i) => ({ name: `f${i}`, comp: rng.pick(FIELDS), bad: rng.bool(0.7) }));
    const tl = timeline(rng, { paces: [30, 200, 500, 900], faulty });
    const items = wraps.length + fields.length;
    const one = (inBurst) => {
        const i = rng.int(items);
        if (i < wraps.length) {
            const k = rng.weighted({ copy: 6, text: 2, remake: inBurst ? 0 : 0.4 });
            if (k === 'copy') return { k, i, lat: rng.pick([0, 0, 1, 30, 400, 1990]), ok: !faulty || rng.bool(0.7), sync: faulty && rng.bool(0.1) };
            return k === 'text' ? { k, i, v: rng.pick(['one', 'two', 'three', '']) } : { k, i };
        }
        const k = rng.weighted({ validate: 7, bad: inBurst ? 0 : 2, remake: inBurst ? 0 : 0.3 });
        return { k, i, ...(k === 'bad' ? { v: rng.bool(0.7) } : {}) };
    };
    const nOps = rng.range(3, size ?? 20);
    for (let j = 0; j < nOps; j++) {
        if (rng.bool(0.08)) tl.add({ k: 'burst', ops: Array.from({ length: rng.range(2, 3) }, () => one(true)) });
        else tl.add(one(false));
        if (rng.bool(0.2)) tl.gap(rng.pick([SHAKE - 1, SHAKE + 1, COPY - 1, COPY + 1, 100]));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, wraps, fields, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue } = env;
    const { h, shallowReactive, markRaw } = Vue;
    const items = [
        ...scenario.wraps.map((d) => markRaw({ ...d, wrap: true, dur: COPY, st: shallowReactive({ text: d.text, key: 0 }), vm: null, end: null, was: false, copied: [] })),
        ...scenario.fields.map((d) => markRaw({ ...d, wrap: false, dur: SHAKE, st: shallowReactive({ bad: d.bad, key: 0 }), vm: null, end: null, was: false, copied: [] })),
    ];
    let current = null;
    env.clipboardWrite = (text) => {
        const { x, op } = current;
        sim.probe('copy-asked');
        expect(text === x.st.text, 'copied-text', () => `${show(text)} was put on the clipboard while ${show(x.st.text)} is shown`);
        if (!op.ok) sim.fault(op.sync ? 'clipboard-throws' : 'clipboard-rejects');
        if (!op.ok && op.sync) throw new Error('clipboard (injected)');
        const p = sim.promise(`clipboard ${x.name}`, op.lat, op.ok ? { ok: true } : { ok: false, error: new Error('clipboard (injected)') });
        const gen = x.st.key;
        p.then(
            () => {
                if (gen !== x.st.key) return;
                if (x.end !== null && sim.now < x.end) sim.probe('retriggered');
                x.end = sim.now + COPY;
                x.expectCopied = text;
            },
            () => {},
        );
        return p;
    };
    const render = (x) => {
        const ref = (vm) => (x.vm = vm ?? x.vm);
        if (x.wrap) return h(V.VsTextWrap, { key: `${x.name}.${x.st.key}`, ref, copy: true, onCopied: (t) => x.copied.push(t) }, { default: () => h('span', x.st.text) });
        const options = ['VsRadioSet', 'VsSelect'].includes(x.comp) ? { options: ['p', 'q'] } : {};
        return h(V[x.comp], { key: `${x.name}.${x.st.key}`, ref, ...options, messages: [], rules: x.st.bad ? (x.badRules ??= [() => 'bad']) : (x.goodRules ??= [() => '']) });
    };
    const { app } = env.mountApp({ render: () => h('main', items.map((x) => h('section', { key: x.name }, [render(x)]))) });
    const shown = (x) => {
        if (x.wrap) return !!x.vm.$el.querySelector('.copied');
        const el = x.vm.$el.nodeType === 1 ? x.vm.$el : x.vm.$el.parentElement;
        return /shake-horizontal/.test(el.className) || !!el.querySelector('.shake-horizontal');
    };
    function perform(op) {
        const x = items[op.i];
        switch (op.k) {
            case 'text': x.st.text = op.v; return;
            case 'bad': x.st.bad = op.v; return;
            case 'remake':
                if (shown(x)) sim.probe('removed-while-shown');
                x.st.key++;
                x.end = null;
                x.was = false;
                return;
            case 'copy': {
                // in a burst the text may have been written but not rendered yet
                if (x.dirty && x.wrap) return;
                current = { x, op };
                env.click(x.vm.$el.querySelector('.vs-copy-button'));
                current = null;
                return;
            }
            case 'validate': {
                const ok = x.vm.validate();
                expect(ok === !x.st.bad, 'validate', () => `${x.comp} answered ${ok} to validate with ${x.st.bad ? 'a failing' : 'a passing'} rule`);
                if (ok) return;
                if (x.end !== null && sim.now < x.end) sim.probe('retriggered');
                x.end = sim.now + SHAKE;
            }
        }
    }
    const stalled = scenario.ops.some((o) => o.k === 'stall');
    sim.invariants.push(() => {
        for (const x of items) {
            if (x.expectCopied !== undefined) {
                expect(x.copied.length === 1 && x.copied[0] === x.expectCopied, 'announced', () => `copying ${show(x.expectCopied)} was announced as ${show(x.copied)}`);
                x.expectCopied = undefined;
                x.copied = [];
            }
            expect(!x.copied.length, 'announced', () => `a copy was announced (${show(x.copied)}) that did not happen`);
            const on = shown(x);
            if (x.end !== null && sim.now < x.end) expect(on, 'ended-early', () => `${x.name} feedback ended ${x.end - sim.now} ms too early`);
            if (on) expect(x.end !== null, 'unasked', () => `${x.name} shows feedback for nothing`);
            if (on && x.end !== null && !stalled) expect(sim.now <= x.end + 1, 'too-long', () => `${x.name} feedback is still shown ${sim.now - x.end} ms after its end`);
            if (on && !x.was) expect(sim.now < x.end + 1 || stalled, 'unasked', () => `${x.name} shows feedback for nothing`);
            x.was = on;
        }
        sim.state(items.map((x) => `${x.name}${x.was}`).join('|'));
    });
    schedule(sim, scenario, (op, info) => {
        perform(op);
        if (op.k === 'text' && info.burst) items[op.i].dirty = true;
    }, () => items.forEach((x) => (x.dirty = false)));
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    for (const x of items) expect(!shown(x), 'for-good', () => `${x.name} feedback never ended`);
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsTextWrap, VsInputWrapper inside seven kinds of fields, input composables, clipboard utility', 'Vue runtime'], stub: ['clock, timers', 'clipboard (scripted latency and failures)', 'DOM (jsdom)', 'clicks'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes.retriggered ?? 0) > 0,
        rule: 'a run is non-trivial if feedback was triggered again while it was shown; distinct = distinct sequences of task labels',
    };
}
