// Scroll lock world (O07): several holders lock and unlock several containers around animation frames.
import { schedule, setup, timeline } from '../lib/uiworld.mjs';

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const tl = timeline(rng, { faulty, paces: [2, 6, 20, 60], hold: 0.12, stall: 0.05 });
    const containers = [0, 1, 2].slice(0, rng.range(1, 3)).map((i) => ({
        name: `s${i}`, overflow: rng.pick(['', '', 'auto', 'scroll', 'hidden']), padR: rng.pick(['', '', '12px', '0px']), padB: rng.pick(['', '', '3px']),
        tall: rng.bool(0.7), wide: rng.bool(0.4),
    }));
    const holders = Array.from({ length: rng.range(1, 5) }, (_, i) => ({ name: `l${i}`, c: rng.int(containers.length) }));
    const one = () => ({ k: rng.weighted({ lock: 5, unlock: 5 }), i: rng.int(holders.length) });
    const nOps = rng.range(3, size ?? 22);
    for (let i = 0; i < nOps; i++) {
        if (rng.bool(0.25)) tl.add({ k: 'burst', ops: Array.from({ length: rng.range(2, 4) }, one) });
        else tl.add(one());
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, touch: rng.bool(0.2), containers, holders, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, document, window } = env;
    // jsdom claims touch support; without it locks also pad the place of the scroll bar
    if (!scenario.touch) delete window.ontouchstart;
    const els = scenario.containers.map((c) => {
        const el = document.createElement('div');
        el.id = c.name;
        el.style.overflow = c.overflow;
        el.style.paddingRight = c.padR;
        el.style.paddingBottom = c.padB;
        for (const [p, v] of Object.entries({ scrollHeight: c.tall ? 500 : 50, clientHeight: 100, scrollWidth: c.wide ? 500 : 50, clientWidth: 100 })) {
            Object.defineProperty(el, p, { configurable: true, value: v });
        }
        document.body.appendChild(el);
        return el;
    });
    const snap = (el) => `${el.style.overflow}|${el.style.paddingRight}|${el.style.paddingBottom}`;
    const before = els.map(snap);
    const holders = scenario.holders.map((hd) => ({ ...hd, api: null, held: false }));
    const { app } = env.mountApp({
        setup() {
            for (const hd of holders) hd.api = V.useScrollLock(`#${scenario.containers[hd.c].name}`);
            return () => Vue.h('main');
        },
    });
    const since = els.map(() => ({ frames: -1 })); // frame count when the container became locked / free
    const count = (i) => holders.filter((hd) => hd.c === i && hd.held).length;
    function perform(op) {
        const hd = holders[op.i];
        if (!hd) return;
        const was = count(hd.c);
        if (op.k === 'lock') {
            if (hd.held) sim.probe('locked-twice');
            hd.api.lock();
            hd.held = true;
        } else {
            if (!hd.held) sim.probe('unlocked-twice');
            hd.api.unlock();
            hd.held = false;
        }
        const now = count(hd.c);
        if (now > 1) sim.probe('overlapping-locks');
        if ((was > 0) !== (now > 0)) since[hd.c].frames = sim.frames;
        expect(!!hd.api.isLocked.value === hd.held, 'flag', `lock ${hd.name} reports isLocked=${hd.api.isLocked.value}`);
    }
    sim.invariants.push(() => {
        els.forEach((el, i) => {
            const n = count(i);
            // from the frame after the change on
            if (n > 0 && sim.frames > since[i].frames) expect(el.style.overflow === 'hidden', 'not-locked', `${el.id} can scroll although ${n} lock(s) are held`);
            if (n === 0 && sim.frames > since[i].frames) expect(snap(el) === before[i], 'not-restored', `${el.id} is "${snap(el)}" with no lock held, was "${before[i]}"`);
        });
        sim.state(els.map((el, i) => `${count(i)}${snap(el)}`).join(';'));
    });
    schedule(sim, scenario, perform);
    await sim.run();
    els.forEach((el, i) => {
        if (count(i) === 0) expect(snap(el) === before[i], 'not-restored', `${el.id} is "${snap(el)}" with no lock held, was "${before[i]}"`);
        else expect(el.style.overflow === 'hidden', 'not-locked', `${el.id} can scroll although locks are held`);
    });
    app.unmount();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['scroll lock composable'], stub: ['animation frames', 'layout sizes', 'DOM (jsdom)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes['overlapping-locks'] ?? 0) + (r.probes.burst ?? 0) > 0,
        rule: 'a run is non-trivial if locks overlapped on one container or several calls fell into one frame; distinct = distinct sequences of task labels',
    };
}
