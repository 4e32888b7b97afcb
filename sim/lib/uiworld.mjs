// Helpers shared by the UI worlds.
import { createUiEnv } from './uienv.mjs';

/** environment plus the checks every UI world makes: no error and no unhandled rejection the workload did not inject */
export function setup(sim, scenario, bundle, options = {}) {
    const env = createUiEnv(sim, bundle, options);
    const prop = scenario.property;
    const expect = (cond, klass, msg) => sim.check(cond, `${prop}:${klass}`, msg);
    const fail = (klass, msg) => sim.violate(`${prop}:${klass}`, msg);
    const injected = options.injected ?? /injected/;
    sim.dispose = () => env.dispose();
    sim.invariants.push(() => {
        const bad = sim.errors.find((e) => !injected.test(String(e.error?.message ?? e.error)));
        if (bad) fail('error', `unexpected error (${bad.where}): ${String(bad.error?.stack ?? bad.error).split('\n').slice(0, 3).join(' | ')}`);
        const rej = sim.rejections.find((e) => !injected.test(String(e?.message ?? e)));
        if (rej !== undefined) fail('rejection', `unhandled rejection: ${String(rej?.message ?? rej)}`);
    });
    return { env, prop, expect, fail };
}

/** schedules the scenario's operations as user/program tasks of one ordered stream */
export function schedule(sim, scenario, perform, after) {
    let i = 0;
    for (const op of scenario.ops) {
        const n = ++i;
        sim.task(op.t, 'user', `op ${op.k}`, () => {
            if (op.k === 'stall') return sim.stall(op.ms);
            if (op.k === 'hold') return sim.holdFrames(op.ms);
            if (op.k === 'burst') {
                sim.probe('burst');
                for (const o of op.ops) perform(o, { burst: op, n });
            } else perform(op, { burst: null, n });
            after?.(op);
        });
    }
}

/** strictly increasing instants for generated operations */
export function timeline(rng, { paces = [2, 10, 40, 120, 350], stall = 0.05, hold = 0.03, faulty = false } = {}) {
    const pace = rng.pick(paces);
    let t = 0;
    const ops = [];
    return {
        ops,
        pace,
        add(op) {
            t += 1 + rng.int(pace);
            ops.push({ t, ...op });
            if (faulty && rng.bool(stall)) {
                t += 1 + rng.int(pace);
                ops.push({ t, k: 'stall', ms: rng.pick([20, 200, 900]) });
            }
            if (faulty && rng.bool(hold)) {
                t += 1 + rng.int(pace);
                ops.push({ t, k: 'hold', ms: rng.pick([50, 400]) });
            }
        },
        gap(ms) {
            t += ms;
        },
        get t() {
            return t;
        },
    };
}

export const leaving = (el) => /-leave-(from|active|to)\b/.test(el.getAttribute?.('class') ?? '');
/** attached, not display:none anywhere up, not in a leave transition */
export function visible(el) {
    if (!el || !el.isConnected) return false;
    for (let e = el; e && e.nodeType === 1; e = e.parentElement) {
        if (e.style?.display === 'none' || leaving(e)) return false;
    }
    return true;
}
export function typeInto(env, el, text) {
    const proto = el.tagName === 'TEXTAREA' ? env.window.HTMLTextAreaElement.prototype : env.window.HTMLInputElement.prototype;
    Object.getOwnPropertyDescriptor(proto, 'value').set.call(el, text);
    el.dispatchEvent(new env.window.Event('input', { bubbles: true }));
}
export const same = (a, b) => JSON.stringify(a ?? null) === JSON.stringify(b ?? null);
export const show = (v) => JSON.stringify(v) ?? String(v);
/** nothing is pending except the user's next actions */
export function quiet(sim) {
    if (sim.timers.size || sim.frameCallbacks.length) return false;
    for (const [name, list] of sim.streams) if (name !== 'user' && list.length) return false;
    return true;
}
