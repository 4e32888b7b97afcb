// Discrete-event kernel. It owns the clock, timers, animation frames, the settlement of every external
// promise, observer deliveries and user actions. One step = one task; all microtasks are drained after it.
import { hashString } from './rng.mjs';

const realImmediate = globalThis.setImmediate;
export const drainMicrotasks = () => new Promise((resolve) => realImmediate(resolve));

export class Violation extends Error {
    constructor(klass, message) {
        super(message);
        this.klass = klass;
    }
}
class Stop extends Error {}

const FRAME = 1000 / 60;

export class Sim {
    /** scenario: { tie, policy: 'time' | 'random', ops, ... } */
    constructor(scenario, options = {}) {
        this.scenario = scenario;
        this.tie = scenario.tie >>> 0;
        this.policy = scenario.policy ?? 'time';
        this.now = 0;
        this.epoch = 1700000000000;
        this.seq = 0;
        this.steps = 0;
        this.timers = new Map();
        this.frameCallbacks = [];
        this.frameHeldUntil = 0;
        this.frames = 0;
        this.streams = new Map(); // name -> array of {t, seq, label, fn}, kept sorted by (t, seq)
        this.maxSteps = options.maxSteps ?? 4000;
        this.maxTime = options.maxTime ?? 3600_000;
        this.trace = options.trace ? [] : null;
        this.digest = 0x811c9dc5;
        this.shape = 0x811c9dc5;
        this.states = new Set();
        this.faults = {};
        this.probes = {};
        this.evaluations = 0;
        this.errors = [];
        this.stopped = false;
        this.violation = null;
        this.invariants = [];
        this.choicePoints = 0;
        this.rejections = [];
    }

    // ---- logging and measures (never draw randomness)
    log(text) {
        const line = `${Math.round(this.now * 1000) / 1000} ${text}`;
        this.digest = hashString(line, this.digest);
        if (this.trace) this.trace.push(line);
    }
    fault(kind, n = 1) {
        this.faults[kind] = (this.faults[kind] ?? 0) + n;
    }
    probe(name, n = 1) {
        this.probes[name] = (this.probes[name] ?? 0) + n;
    }
    state(text) {
        this.states.add(hashString(text));
    }
    /** deterministic choice tied to a label, independent of what else happens in the run */
    roll(label) {
        return hashString(label, this.tie ^ 0x5bd1e995) / 4294967296;
    }
    rollInt(label, n) {
        return Math.floor(this.roll(label) * n);
    }
    violate(klass, message) {
        if (!this.violation) {
            this.violation = { klass, message, t: this.now, step: this.steps };
            this.log(`VIOLATION ${klass}: ${message}`);
        }
        this.stopped = true;
        throw new Stop();
    }
    check(cond, klass, message) {
        this.evaluations++;
        if (!cond) this.violate(klass, typeof message === 'function' ? message() : message);
    }

    // ---- seams
    api() {
        const sim = this;
        const setTimer = (fn, ms, args, interval) => {
            const id = ++sim.seq;
            const delay = Math.max(0, Number(ms) || 0);
            sim.timers.set(id, { id, due: sim.now + delay, seq: id, fn, args, interval: interval ? Math.max(1, delay) : 0 });
            return id;
        };
        return {
            setTimeout: (fn, ms, ...args) => setTimer(fn, ms, args, false),
            clearTimeout: (id) => void sim.timers.delete(id),
            setInterval: (fn, ms, ...args) => setTimer(fn, ms, args, true),
            clearInterval: (id) => void sim.timers.delete(id),
            requestAnimationFrame: (fn) => {
                const id = ++sim.seq;
                sim.frameCallbacks.push({ id, fn });
                if (sim.frameCallbacks.length === 1) sim.frameRequestedAt = sim.now;
                return id;
            },
            cancelAnimationFrame: (id) => {
                sim.frameCallbacks = sim.frameCallbacks.filter((f) => f.id !== id);
            },
        };
    }
    makeDate() {
        const sim = this;
        const RealDate = Date;
        return class SimDate extends RealDate {
            constructor(...args) {
                if (args.length === 0) super(sim.epoch + Math.floor(sim.now));
                else super(...args);
            }
            static now() {
                return sim.epoch + Math.floor(sim.now);
            }
        };
    }

    /** schedule an external task. Tasks of one stream run in (t, insertion) order; streams race. */
    task(t, stream, label, fn) {
        const list = this.streams.get(stream) ?? [];
        if (!this.streams.has(stream)) this.streams.set(stream, list);
        const item = { t: Math.max(t, this.now), seq: ++this.seq, label, fn };
        let i = list.length;
        while (i > 0 && list[i - 1].t > item.t) i--;
        list.splice(i, 0, item);
        return item;
    }
    after(ms, stream, label, fn) {
        return this.task(this.now + Math.max(0, ms), stream, label, fn);
    }
    /** a promise whose settlement the simulator schedules; outcome: {ok, value} | {ok:false, error} | null (never) */
    promise(label, latency, outcome) {
        return new Promise((resolve, reject) => {
            if (!outcome) {
                this.fault('never-settles');
                return;
            }
            this.after(latency, `settle:${label}`, `settle ${label}`, () => (outcome.ok ? resolve(outcome.value) : reject(outcome.error)));
        });
    }
    stall(ms) {
        this.now += ms;
        this.fault('stall');
    }
    holdFrames(ms) {
        this.frameHeldUntil = Math.max(this.frameHeldUntil, this.now + ms);
        this.fault('frames-held');
    }

    nextFrameAt() {
        if (this.frameCallbacks.length === 0) return Infinity;
        let at = (Math.floor(this.frameRequestedAt / FRAME + 1e-9) + 1) * FRAME;
        if (at < this.frameHeldUntil) at = this.frameHeldUntil;
        return at;
    }

    pickNext() {
        const candidates = [];
        let timer = null;
        for (const t of this.timers.values()) {
            if (!timer || t.due < timer.due || (t.due === timer.due && t.seq < timer.seq)) timer = t;
        }
        if (timer) candidates.push({ kind: 'timer', t: timer.due, seq: timer.seq, timer });
        const frameAt = this.nextFrameAt();
        if (frameAt !== Infinity) candidates.push({ kind: 'frame', t: frameAt, seq: this.frameCallbacks[0].id });
        for (const [name, list] of this.streams) {
            if (list.length) candidates.push({ kind: 'task', t: list[0].t, seq: list[0].seq, stream: name });
        }
        if (candidates.length === 0) return null;
        let min = Infinity;
        for (const c of candidates) if (c.t < min) min = c.t;
        const horizon = Math.max(min, this.now);
        const ready = candidates.filter((c) => c.t <= horizon + 1e-9);
        ready.sort((a, b) => a.t - b.t || a.seq - b.seq);
        let chosen = ready[0];
        if (ready.length > 1) {
            this.choicePoints++;
            if (this.policy === 'random') chosen = ready[this.rollInt(`pick${this.steps}`, ready.length)];
        }
        if (horizon > this.now) this.now = horizon;
        return chosen;
    }

    runTask(label, fn) {
        try {
            fn();
        } catch (error) {
            if (error instanceof Stop) throw error;
            this.reportError(`task ${label}`, error);
        }
    }
    reportError(where, error) {
        this.errors.push({ where, error, t: this.now });
        this.log(`ERROR ${where}: ${error && error.message ? error.message : String(error)}`);
    }

    step() {
        const next = this.pickNext();
        if (!next) return false;
        this.steps++;
        if (next.kind === 'timer') {
            const { timer } = next;
            if (timer.interval) {
                timer.due = this.now + timer.interval;
                timer.seq = ++this.seq;
            } else this.timers.delete(timer.id);
            this.shape = hashString('timer', this.shape);
            this.log('timer');
            this.runTask('timer', () => timer.fn(...(timer.args ?? [])));
        } else if (next.kind === 'frame') {
            const callbacks = this.frameCallbacks;
            this.frameCallbacks = [];
            this.frames++;
            this.shape = hashString('frame', this.shape);
            this.log('frame');
            for (const { fn } of callbacks) this.runTask('frame', () => fn(this.now));
        } else {
            const item = this.streams.get(next.stream).shift();
            if (this.streams.get(next.stream).length === 0) this.streams.delete(next.stream);
            this.shape = hashString(item.label, this.shape);
            this.log(item.label);
            this.runTask(item.label, item.fn);
        }
        return true;
    }

    /** runs to quiescence (nothing scheduled) or to the given time; returns 'idle' | 'time' | 'steps' */
    async run(untilTime = Infinity) {
        await this.settle();
        while (!this.stopped) {
            if (this.steps >= this.maxSteps) return 'steps';
            if (untilTime !== Infinity) {
                const at = this.peekTime();
                if (at > untilTime) {
                    this.now = Math.max(this.now, untilTime);
                    return 'time';
                }
            }
            if (this.now > this.maxTime) return 'time';
            if (!this.step()) return 'idle';
            await this.settle();
        }
        return 'stopped';
    }
    peekTime() {
        let min = this.nextFrameAt();
        for (const t of this.timers.values()) if (t.due < min) min = t.due;
        for (const list of this.streams.values()) if (list.length && list[0].t < min) min = list[0].t;
        return min;
    }
    async settle() {
        await drainMicrotasks();
        for (const inv of this.invariants) inv();
    }
}

export function isStop(error) {
    return error instanceof Stop;
}
