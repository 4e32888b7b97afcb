// Toast world (O06): toasts in several containers and positions, hovered, closed, removed, cleared and timing out,
// against a model with one clock per toast.
import { schedule, setup, timeline, visible } from '../lib/uiworld.mjs';

const TIMEOUTS = [40, 100, 150, 300, 301, 1000, undefined];
const HOWS = ['show', 'info', 'success', 'warning', 'error'];
const W = { show: 6, hover: 4, leave: 3, closeBtn: 2, remove: 1.5, clear: 0.7, makeC: 0.5, burst: 1 };

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const weights = rng.swarm(W, 0.85);
    weights.show = Math.max(weights.show, 3);
    const containers = ['body', '#c1', '#c12'].slice(0, rng.range(1, 3));
    const tl = timeline(rng, { faulty, paces: [4, 20, 60, 120, 250], stall: 0.08 });
    const places = rng.bool(0.5) ? [['top', 'center']] : [['top', 'center'], ['bottom', 'end'], ['top', 'start']];
    const auto = rng.pick([1, 0.8, 0.5]);
    let n = 0;
    const op = (inBurst) => {
        const k = rng.weighted(inBurst ? { show: 4, remove: 1, clear: 1 } : weights);
        switch (k) {
            case 'show': {
                const [placement, align] = rng.pick(places);
                return { k, m: `t${n++}`, c: rng.pick(containers), placement, align, auto: rng.bool(auto), timeout: rng.pick(TIMEOUTS) ?? null, how: rng.pick(HOWS), text: rng.bool(0.3) };
            }
            case 'clear': return { k, c: rng.pick(containers) };
            case 'makeC': case 'leave': case 'burst': return { k };
            default: return { k, i: rng.int(6) };
        }
    };
    const nOps = rng.range(4, size ?? 26);
    for (let i = 0; i < nOps; i++) {
        const o = op(false);
        if (o.k === 'burst') tl.add({ k: 'burst', ops: Array.from({ length: rng.range(2, 4) }, () => op(true)) });
        else tl.add(o);
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, late: rng.bool(0.4), ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, document } = env;
    const { h, reactive } = Vue;
    const page = reactive({ c2: !scenario.late });
    const { app } = env.mountApp({ render: () => h('main', [h('div', { id: 'c1' }), page.c2 ? h('div', { id: 'c12' }) : null]) });
    const $vs = V.useVlossom();
    const store = V.useToastContainerStore();
    const toasts = [];
    let pointer = null;
    const live = () => toasts.filter((t) => t.el && !t.gone);
    const rootOf = (t) => t.el?.closest('.vs-toast');

    function perform(op) {
        switch (op.k) {
            case 'show': {
                const t = { name: op.m, c: op.c, auto: op.auto, timeout: op.timeout ?? 5000, el: null, gone: false, mounts: 0, lost: false, text: op.text, asked: sim.now };
                t.lost = !document.querySelector(op.c);
                const ids = new Set(store.get(op.c).map((x) => x.id));
                const content = op.text ? op.m : { render: () => h('span', { 'data-t': op.m, ref: (el) => { if (el && el !== t.el) { t.el = el; t.mounts++; } } }, op.m) };
                const options = { container: op.c, placement: op.placement, align: op.align, autoClose: op.auto };
                if (op.timeout) options.timeout = op.timeout;
                $vs.toast[op.how](content, options);
                const mine = store.get(op.c).find((x) => !ids.has(x.id));
                t.id = mine?.id;
                if (!t.lost) toasts.push(t);
                else {
                    sim.fault('container-missing');
                    expect(!mine, 'phantom', `a toast for the missing container ${op.c} was kept`);
                }
                return;
            }
            case 'hover': {
                const list = live().filter((t) => visible(rootOf(t)));
                if (!list.length) return;
                const t = list[op.i % list.length];
                if (pointer === t) return;
                leave();
                pointer = t;
                sim.probe('hover');
                env.mouse(rootOf(t), 'mouseenter');
                return;
            }
            case 'leave': return leave();
            case 'closeBtn': {
                const list = live();
                if (!list.length) return;
                const t = list[op.i % list.length];
                const b = rootOf(t)?.querySelector('.vs-toast-close');
                if (!b) return;
                sim.probe('close-button');
                gone(t);
                b.click();
                return;
            }
            case 'remove': {
                const list = toasts.filter((t) => !t.gone && t.id);
                if (!list.length) return;
                const t = list[op.i % list.length];
                gone(t);
                $vs.toast.remove(t.c, t.id);
                return;
            }
            case 'clear':
                for (const t of toasts) if (!t.gone && t.c === op.c) {
                    gone(t);
                    sim.probe('cleared-toast');
                }
                $vs.toast.clear(op.c);
                return;
            case 'makeC': page.c2 = true;
        }
    }
    function gone(t) {
        t.gone = true;
        if (pointer === t) pointer = null;
    }
    function leave() {
        if (!pointer) return;
        const t = pointer;
        pointer = null;
        if (rootOf(t)) env.mouse(rootOf(t), 'mouseleave');
        if (sim.now >= t.at + t.timeout) sim.probe('left-after-timeout');
    }
    function find(t) {
        if (t.text && !t.el) {
            for (const e of document.querySelectorAll('.vs-toast')) if (e.textContent.trim() === t.name) t.el = e.firstElementChild ?? e;
        }
        return rootOf(t);
    }
    sim.invariants.push(() => {
        const overdue = sim.peekTime() <= sim.now;
        for (const t of toasts) {
            if (t.gone && !t.el) continue;
            const root = find(t);
            const on = !!root && visible(root);
            if (t.gone) {
                expect(!on, 'still-there', `toast ${t.name} is on screen after it was closed, removed, cleared or timed out`);
                continue;
            }
            if (t.at === undefined) {
                expect(on, 'not-shown', `toast ${t.name} did not appear in ${t.c}`);
                expect(document.querySelector(t.c)?.contains(root), 'wrong-container', `toast ${t.name} is not inside ${t.c}`);
                t.at = sim.now;
                continue;
            }
            const due = t.at + t.timeout;
            if (!on) {
                expect(t.auto && sim.now >= due - 0.001, 'vanished-early', `toast ${t.name} vanished at ${sim.now}, ${t.auto ? `due at ${due}` : 'although it does not close by itself'}`);
                expect(pointer !== t, 'vanished-under-pointer', `toast ${t.name} vanished while hovered`);
                sim.probe('timed-out');
                t.gone = true;
            } else {
                expect(t.mounts <= 1, 'remounted', `toast ${t.name} was rendered anew while it was on screen`);
                if (t.auto && sim.now > due && !overdue) {
                    if (pointer === t) sim.probe('held-past-timeout');
                    else expect(false, 'overstayed', `toast ${t.name} is still on screen at ${sim.now}, due at ${due}`);
                }
            }
        }
        sim.state(toasts.map((t) => `${t.c}${t.gone ? 'x' : Math.sign((t.at ?? 0) + t.timeout - sim.now)}${pointer === t}`).join(','));
    });
    schedule(sim, scenario, perform);
    await sim.run();
    leave();
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    for (const t of toasts) if (!t.gone) expect(!t.auto, 'overstayed', `toast ${t.name} never went away`);
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['toast plugin, VsToastView, VsToast, VsRender, OverlayWrapper app, container stores', 'Vue runtime'], stub: ['clock, timers, frames', 'DOM (jsdom)', 'pointer'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        nontrivial: (r) => (r.probes.hover ?? 0) + (r.probes['cleared-toast'] ?? 0) + (r.probes['close-button'] ?? 0) + (r.probes.burst ?? 0) > 0 && (r.probes['timed-out'] ?? 0) > 0,
        rule: 'a run is non-trivial if a toast timed out and another was hovered, closed, cleared, or several calls fell into one tick; distinct = distinct sequences of task labels',
    };
}
