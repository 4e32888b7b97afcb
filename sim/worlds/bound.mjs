// Bound overlay world (O08): declarative modals, drawers and dimmed layers bound with v-model, written by the program
// and closed by keys, backdrops and code, with slow, refusing and failing guards.
import { schedule, setup, timeline, visible } from '../lib/uiworld.mjs';

const W = { write: 6, key: 4, dim: 2, code: 3, clear: 0.6, flip: 1, burst: 1, remake: 0.8, rename: 0.6 };
const CALM = 2500;

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const calm = rng.bool(0.3);
    const weights = rng.swarm(W, 0.85);
    weights.write = Math.max(weights.write, 3);
    const n = rng.range(1, 3);
    const items = Array.from({ length: n }, (_, i) => {
        const kind = rng.weighted({ modal: 5, drawer: 3, dimmed: 1.5 });
        return {
            name: `x${i}`, kind, init: rng.bool(0.35), esc: rng.bool(0.8), dimmed: rng.bool(0.6), dimClose: rng.bool(0.8), focusLock: rng.bool(0.3),
            container: rng.bool(0.3) ? '#c1' : 'body',
            guard: kind === 'modal' && rng.bool(0.6)
                ? Array.from({ length: rng.range(1, 4) }, () => ({ ans: rng.weighted(faulty ? { yes: 4, no: 4, undef: 1, reject: 1.5, throw: 1 } : { yes: 4, no: 4, undef: 1 }), lat: rng.bool(0.25) ? -1 : rng.pick([0, 1, 5, 20, 60, 150, 320, 700]) }))
                : null,
        };
    });
    const tl = timeline(rng, { faulty: faulty && !calm });
    const one = (inBurst) => {
        const k = rng.weighted(inBurst ? { write: 5, code: 2, flip: 1 } : weights);
        const i = rng.int(n);
        switch (k) {
            case 'write': return { k, i, v: rng.bool(0.5) };
            case 'key': return { k };
            case 'clear': return { k, c: rng.pick(['body', '#c1']) };
            case 'burst': return { k };
            case 'code': return { k, i, v: rng.bool(0.3) };
            case 'remake': return { k, i, v: rng.bool(0.5) };
            default: return { k, i };
        }
    };
    const nOps = rng.range(3, size ?? 18);
    for (let j = 0; j < nOps; j++) {
        const o = one(false);
        if (calm) tl.gap(CALM);
        if (o.k === 'burst') {
            if (!calm) tl.add({ k: 'burst', ops: Array.from({ length: rng.range(2, 3) }, () => one(true)) });
        } else tl.add(o);
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, calm, items, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue } = env;
    const { h, reactive, shallowReactive, markRaw } = Vue;
    const COMP = { modal: 'VsModal', drawer: 'VsDrawer', dimmed: 'VsDimmed' };
    const items = scenario.items.map((d) => markRaw({
        ...d, st: shallowReactive({ v: d.init, key: 0, id: 0, mounted: true }), el: null, vm: null, guardCalls: 0, pending: 0, events: [], want: d.init, since: 0,
    }));
    const stack = []; // predicted open order, calm runs only
    const page = reactive({ c1: true });
    const guard = (x) => () => {
        const g = x.guard[x.guardCalls++ % x.guard.length];
        x.lastAnswer = g.ans;
        sim.probe('guard');
        if (g.ans === 'throw') {
            sim.fault('guard-throws');
            throw new Error('guard failed (injected)');
        }
        const value = g.ans === 'yes' ? true : g.ans === 'no' ? false : undefined;
        if (g.ans === 'reject') sim.fault('guard-rejects');
        if (g.lat < 0 && g.ans !== 'reject') return value;
        x.pending++;
        const p = sim.promise(`guard ${x.name}#${x.guardCalls}`, Math.max(0, g.lat), g.ans === 'reject' ? { ok: false, error: new Error('guard failed (injected)') } : { ok: true, value });
        const done = () => x.pending--;
        p.then(done, done);
        return p;
    };
    const Root = {
        render: () => h('main', [
            page.c1 ? h('div', { id: 'c1' }) : null,
            items.filter((x) => x.st.mounted).map((x) => h(V[COMP[x.kind]], {
                key: `${x.name}-${x.st.key}`,
                ref: (vm) => (x.vm = vm),
                ...(x.kind === 'dimmed' ? {} : { id: `${x.name}.${x.st.id}` }),
                modelValue: x.st.v,
                'onUpdate:modelValue': (v) => {
                    sim.log(`${x.name} reports ${v}`);
                    x.st.v = v;
                },
                ...(x.kind === 'dimmed' ? {} : {
                    escClose: x.esc, dimmed: x.dimmed, dimClose: x.dimClose, focusLock: x.focusLock,
                    onOpen: () => x.events.push('open'), onClose: () => x.events.push('close'),
                }),
                ...(x.kind === 'modal' ? { container: x.container, ...(x.guard ? { beforeClose: (x.guardFn ??= guard(x)) } : {}) } : {}),
            }, x.kind === 'dimmed' ? undefined : { default: () => h('div', { class: `in-${x.name}`, ref: (el) => el && (x.el = el) }, [h('button', x.name)]) })),
        ]),
    };
    const { app } = env.mountApp(Root);
    const $vs = V.useVlossom();
    const onScreen = (x) => {
        if (!x.st.mounted && x.kind !== 'modal') return false;
        if (x.kind === 'dimmed') {
            const el = x.vm?.$el;
            return !!el && el.nodeType === 1 && visible(el);
        }
        return !!x.el && visible(x.el);
    };
    // calm predictions
    const open = (x) => {
        x.want = true;
        if (!stack.includes(x)) stack.push(x);
    };
    const close = (x) => {
        x.want = false;
        if (stack.includes(x)) stack.splice(stack.indexOf(x), 1);
    };
    const next = (x) => (x.guard ? x.guard[x.guardCalls % x.guard.length].ans : 'yes');
    const tryClose = (x) => {
        if (x.want && ['yes', 'undef'].includes(next(x))) close(x);
    };
    for (const x of items) if (x.init && x.kind !== 'dimmed') stack.push(x);
    // initial opening order within one tick is not predicted
    let ambiguous = stack.length > 1;

    function perform(op) {
        const x = items[op.i ?? 0];
        switch (op.k) {
            case 'write':
                if (op.v !== x.st.v) sim.probe(onScreen(x) && x.pending ? 'write-while-guard-pending' : 'write');
                if (op.v) open(x);
                else tryClose(x);
                x.st.v = op.v;
                return;
            case 'flip':
                x.st.v = !x.st.v;
                x.st.v = !x.st.v;
                return;
            case 'key': {
                const t = stack.filter((y) => y.kind !== 'dimmed').at(-1);
                if (t && t.esc && !ambiguous) tryClose(t);
                else if (t && ambiguous && scenario.calm) return;
                env.key('Escape');
                return;
            }
            case 'dim': {
                if (x.kind === 'dimmed' || !x.dimmed || !onScreen(x)) return;
                const d = x.kind === 'drawer' ? x.vm.$el.querySelector('.vs-dimmed') : x.el.closest('.vs-modal-node')?.querySelector('.vs-dimmed');
                if (!d || !visible(d)) return;
                if (x.dimClose) tryClose(x);
                sim.probe('backdrop');
                env.click(d);
                return;
            }
            case 'code': {
                if (!x.vm) return;
                if (x.kind === 'drawer') {
                    (op.v ? open : close)(x);
                    if (op.v) x.vm.openDrawer();
                    else x.vm.closeDrawer();
                } else if (x.kind === 'dimmed') {
                    (op.v ? open : close)(x);
                    if (op.v) x.vm.show();
                    else x.vm.hide();
                } else {
                    const top = stack.filter((y) => y.kind === 'modal' && y.container === x.container).at(-1);
                    if (ambiguous && scenario.calm) return;
                    if (top) tryClose(top);
                    $vs.modal.close(x.container).catch(() => {});
                }
                return;
            }
            case 'clear':
                for (const y of items) if (y.kind === 'modal' && y.container === op.c) close(y);
                $vs.modal.clear(op.c);
                return;
            case 'rename':
                x.st.id++;
                if (x.st.v) sim.probe('renamed-while-open');
                return;
            case 'remake':
                if (onScreen(x)) sim.probe('removed-while-open');
                close(x);
                x.st.key++;
                x.st.v = op.v;
                x.events = [];
                x.want = op.v;
                if (op.v) open(x);
        }
    }
    sim.invariants.push(() => {
        for (const x of items) {
            // Vue leaves an element in sight that is shown and hidden between two frames while an older transition is overdue
            if (x.kind === 'drawer' && x.seen !== x.st.v) {
                x.quirk = x.at !== undefined && sim.frames - x.at < 2;
                x.seen = x.st.v;
                x.at = sim.frames;
            }
            const seq = x.events;
            for (let i = 1; i < seq.length; i++) expect(seq[i] !== seq[i - 1], 'announced', () => `${x.name} announced ${seq.join(',')}`);
        }
        sim.state(items.map((x) => `${x.kind}${x.st.v}${onScreen(x)}${x.pending}`).join('|'));
    });
    const agree = (x, when) => {
        if (x.quirk) return;
        const on = onScreen(x);
        expect(on === x.st.v, 'disagree', () => `${x.kind} ${x.name} is ${on ? 'on screen' : 'not on screen'} but its bound value is ${x.st.v} (${when})`);
    };
    if (scenario.calm) {
        // judge each operation once everything it started has settled
        for (const op of scenario.ops) {
            sim.task(op.t + CALM - 1, 'judge', 'judge', () => {
                if (stack.length <= 1) ambiguous = false;
                for (const x of items) {
                    agree(x, `after ${op.k}`);
                    if (!ambiguous) expect(x.st.v === x.want, 'outcome', () => `${x.kind} ${x.name} ended with bound value ${x.st.v} after ${op.k}, expected ${x.want}`);
                }
            });
        }
    }
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    for (const x of items) agree(x, 'at rest');
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsModal, VsModalNode, VsModalView, VsDrawer, VsDimmed, VsFocusTrap, modal plugin, overlay stores', 'Vue runtime'], stub: ['clock, timers, frames', 'close guards (scripted)', 'DOM (jsdom)', 'keys and clicks'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes.guard ?? 0) + (r.probes.burst ?? 0) + (r.probes.backdrop ?? 0) > 0 && (r.probes.write ?? 0) > 0,
        rule: 'a run is non-trivial if the bound value was written and a guard was asked, a backdrop was clicked, or several requests fell into one tick; distinct = distinct sequences of task labels',
    };
}
