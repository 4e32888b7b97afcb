// Overlay world: modals from code, alert/confirm/prompt dialogs and drawers in several containers, driven by
// code, keys, buttons and backdrops, against a reference model that predicts after every step what is on screen,
// which callbacks ran and how every returned promise settled. Serves O01..O05 with different workloads.
import { createUiEnv } from '../lib/uienv.mjs';

const CONTAINERS = ['body', '#c1', '#c12'];
const KEYS = ['Escape', 'Enter', 'KeyX'];

// ------------------------------------------------------------------ generation
const BASE_WEIGHTS = {
    open: 5, close: 2, closeId: 2, closeWrong: 0.3, clear: 0.7, key: 4, dim: 1.5,
    dialog: 2, answer: 2, type: 0.7, drawer: 2.5, drawerKill: 0.6, drawerMake: 0.6, emit: 0.6,
};
const PROFILES = {
    O01: { weights: { key: 8, drawerKill: 1.2, drawerMake: 1.2, clear: 1 }, guards: 0.35, reenter: 0.1, burst: 0.12 },
    O02: { weights: { open: 6, close: 5, closeId: 5, dim: 3, key: 3, dialog: 0.7, answer: 0.7, drawer: 1.5, clear: 0.7 }, guards: 0.75, reenter: 0.06, burst: 0.12 },
    O03: { weights: { close: 3, closeId: 3, clear: 1.2, dialog: 1, answer: 1, type: 0 }, guards: 0.45, reenter: 0.4, burst: 0.15 },
    O04: { weights: { dialog: 7, answer: 7, type: 2.5, open: 2, key: 4, clear: 0.8, drawer: 2 }, guards: 0.1, reenter: 0.08, burst: 0.1 },
    O05: { weights: { open: 5, dialog: 3, clear: 4, close: 3, drawer: 1.5, key: 2 }, guards: 0.35, reenter: 0.12, burst: 0.12 },
};

function genGuard(rng, faulty) {
    const n = rng.range(1, 3);
    const answers = [];
    for (let i = 0; i < n; i++) {
        answers.push({
            ans: rng.weighted(faulty ? { yes: 4, no: 3, undef: 1, reject: 1.2, throw: 0.6, never: 0.4 } : { yes: 5, no: 3, undef: 1 }),
            lat: rng.bool(0.25) ? -1 : rng.pick([0, 1, 5, 20, 60, 150, 320, 700]),
        });
    }
    return answers;
}

export function generateOverlay(property, rng, size) {
    const profile = PROFILES[property];
    const faulty = rng.bool(0.6);
    const weights = rng.swarm({ ...BASE_WEIGHTS, ...profile.weights }, 0.8);
    weights.open = Math.max(weights.open, 1.5);
    if (property === 'O04') {
        weights.dialog = Math.max(weights.dialog, 4);
        weights.answer = Math.max(weights.answer, 3);
    }
    if (property === 'O05') weights.clear = Math.max(weights.clear, 2);
    if (property === 'O01') weights.key = Math.max(weights.key, 4);
    const nContainers = rng.weighted({ 1: 2, 2: 4, 3: 2 }) | 0;
    const containers = CONTAINERS.slice(0, nContainers);
    const nOps = rng.range(4, size ?? 18);
    const pace = rng.pick([2, 10, 40, 120, 350]);
    const guards = rng.bool(0.8) ? profile.guards : 0;
    const reenter = rng.bool(0.7) ? profile.reenter : 0;
    const drawers = rng.range(0, 3);
    const ops = [];
    const names = { modal: 0, dialog: 0 };
    const known = []; // names generated so far (targets)
    let t = 0;
    const drawerDefs = [];
    for (let i = 0; i < drawers; i++) {
        drawerDefs.push({
            name: `d${i}`, esc: rng.bool(0.7), dimmed: rng.bool(0.5), dimClose: rng.bool(0.7), focusLock: rng.bool(0.4),
            keyX: rng.bool(0.6), mounted: rng.bool(0.8), open: rng.bool(0.2), reenter: genReenter(rng, reenter, known),
        });
    }
    function simpleOp(inBurst) {
        const kind = rng.weighted(inBurst ? { open: weights.open, close: weights.close, closeId: weights.closeId, clear: weights.clear, drawer: weights.drawer, dialog: weights.dialog } : weights);
        const c = rng.pick(containers);
        switch (kind) {
            case 'open': {
                const m = `m${names.modal++}`;
                const op = {
                    k: 'open', m, c, esc: rng.bool(0.75), dimmed: rng.bool(0.6), dimClose: rng.bool(0.75), keyX: rng.bool(0.6),
                    keyEnter: rng.bool(0.3), focusLock: rng.bool(0.3),
                    guard: rng.bool(guards) ? genGuard(rng, faulty) : null,
                    reenter: genReenter(rng, reenter, known),
                };
                if (rng.bool(0.06) && known.some((k) => k.startsWith('m'))) op.reuse = rng.pick(known.filter((k) => k.startsWith('m')));
                known.push(m);
                return op;
            }
            case 'dialog': {
                const d = `q${names.dialog++}`;
                known.push(d);
                return { k: 'dialog', m: d, kind: rng.pick(['alert', 'confirm', 'prompt']), c, dimmed: rng.bool(0.6), rule: rng.bool(0.4), init: rng.bool(0.3) ? 'init' : null, reenter: null, keyX: rng.bool(0.4) };
            }
            case 'close': return { k: 'close', c };
            case 'closeId': return { k: 'closeId', m: pickTarget() };
            case 'closeWrong': return { k: 'closeWrong', m: pickTarget() };
            case 'clear': return { k: 'clear', c };
            case 'key': return { k: 'key', code: rng.weighted({ Escape: 5, Enter: 2, KeyX: 3 }) };
            case 'dim': return { k: 'dim', m: pickTarget() };
            case 'answer': return { k: 'answer', m: pickTarget('q'), how: rng.weighted({ ok: 3, cancel: 2 }) };
            case 'type': return { k: 'type', m: pickTarget('q'), text: rng.pick(['', 'a', 'bad', 'hello', '42']) };
            case 'emit': return { k: 'emit', m: pickTarget(), withId: rng.bool(0.7) };
            case 'drawer': return { k: 'drawer', m: `d${rng.int(Math.max(1, drawers))}`, v: rng.bool(0.6) };
            case 'drawerKill': return { k: 'drawerKill', m: `d${rng.int(Math.max(1, drawers))}` };
            case 'drawerMake': return { k: 'drawerMake', m: `d${rng.int(Math.max(1, drawers))}`, v: rng.bool(0.4) };
        }
    }
    function pickTarget(prefix) {
        const list = prefix ? known.filter((k) => k.startsWith(prefix)) : known;
        if (list.length === 0) return prefix ? 'q0' : 'm0';
        // bias to recent ones
        return rng.bool(0.6) ? list[list.length - 1 - rng.int(Math.min(3, list.length))] : rng.pick(list);
    }
    for (let i = 0; i < nOps; i++) {
        t += 1 + rng.int(pace);
        if (rng.bool(profile.burst)) {
            const n = rng.range(2, 3);
            const list = [];
            for (let j = 0; j < n; j++) list.push(simpleOp(true));
            ops.push({ t, k: 'burst', ops: list });
        } else if (faulty && rng.bool(0.05)) ops.push({ t, k: 'stall', ms: rng.pick([20, 200, 900]) });
        else if (faulty && rng.bool(0.03)) ops.push({ t, k: 'hold', ms: rng.pick([50, 400]) });
        else ops.push({ t, ...simpleOp(false) });
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, containers, drawers: drawerDefs, ops };
}

function genReenter(rng, p, known) {
    if (!rng.bool(p)) return null;
    return {
        on: rng.pick(['open', 'close', 'key']),
        act: rng.pick(['clear', 'close', 'closeOther', 'closeSelf', 'openNew', 'drawerToggle']),
        other: known.length ? rng.pick(known) : 'm0',
    };
}

// ------------------------------------------------------------------ execution
export async function runOverlay(sim, scenario, bundle) {
    const env = createUiEnv(sim, bundle);
    const { V, Vue, document } = env;
    const { h, reactive } = Vue;
    const prop = scenario.property;
    const fail = (klass, msg) => sim.violate(`${prop}:${klass}`, msg);
    const expect = (cond, klass, msg) => sim.check(cond, `${prop}:${klass}`, msg);

    // ---------------- model
    const all = new Map(); // name -> overlay record
    let stack = []; // open overlays in opening order
    let serial = 0;
    const calls = []; // outstanding and finished close calls
    let stepOpened = new Set();
    let reSerial = 0;
    let burstStep = -1;

    function mk(name, kind, extra) {
        const o = { name, kind, uid: ++serial, open: false, seen: [], notes: { open: 0, close: 0, ovOpen: 0, ovClose: 0, emitOpen: 0, emitClose: 0 }, keys: {}, expectKeys: {}, requests: 0, guardCalls: 0, expectGuardCalls: 0, ...extra };
        all.set(name, o);
        return o;
    }
    function modelOpen(o) {
        o.open = true;
        o.openedStep = sim.steps;
        o.openedFrame = sim.frames;
        o.quirk = false;
        o.everOpen = (o.everOpen ?? 0) + 1;
        stack.push(o);
        stepOpened.add(o);
    }
    function modelClose(o) {
        if (!o.open) return false;
        o.open = false;
        // Vue itself loses the leave animation of an element shown and hidden between two frames when an earlier
        // transition timer is overdue; whether such a drawer becomes invisible is not this library's doing
        o.quirk = sim.frames - o.openedFrame < 2;
        o.closedStep = sim.steps;
        o.sameStep = o.openedStep === sim.steps;
        stack = stack.filter((x) => x !== o);
        return true;
    }
    const newestIn = (c) => [...all.values()].filter((o) => (o.kind === 'modal' || o.kind === 'dialog') && o.open && o.c === c).sort((a, b) => a.uid - b.uid).pop();

    // overlays opened within one tick have no defined order among themselves
    function topIsAmbiguous() {
        const top = stack[stack.length - 1];
        return stack.some((o) => o !== top && o.openedStep === top.openedStep);
    }
    // deferred model effects of guardless requests: applied in call order when the step is drained
    let deferred = [];
    function requestClose(o, call) {
        // a close request addressed to overlay o; asks the guard if there is one
        if (!o.guard) {
            deferred.push(() => {
                const did = modelClose(o);
                if (call) call.expected = did;
                if (did) dialogGone(o);
            });
            return;
        }
        o.expectGuardCalls++;
        o.waiting = o.waiting ?? [];
        o.waiting.push(call ?? { kind: 'ui' });
    }
    function guardAnswered(o, call, outcome) {
        // runs inside the settlement task: the close takes effect during the drain of this step
        deferred.push(() => {
            if (outcome === 'yes' || outcome === 'undef') {
                const did = modelClose(o);
                if (did) sim.probe('guard-approved-close');
                else sim.probe('guard-approved-but-gone');
                call.expected = did;
            } else if (outcome === 'no') {
                call.expected = false;
                sim.probe('guard-refused');
            } else {
                call.expected = 'fail';
                sim.fault('guard-' + outcome);
            }
        });
    }
    function dialogGone(o, value) {
        if (o.kind !== 'dialog' || o.answer) return;
        o.answer = { value: value !== undefined ? value : o.dkind === 'alert' ? undefined : o.dkind === 'confirm' ? false : null };
        o.answerStep = sim.steps;
    }

    // ---------------- application
    // every content element registers itself when it is created (a selector query per step would be slow)
    const made = new Map();
    const reg = (name) => (el) => {
        if (!el) return;
        if (!made.has(name)) made.set(name, new Set());
        made.get(name).add(el);
    };
    const contentOf = (name) => [...(made.get(name) ?? [])].filter((el) => el.isConnected);
    const S = reactive({ drawers: {} });
    for (const d of scenario.drawers) {
        const o = mk(d.name, 'drawer', { ...d, c: null, open: false });
        S.drawers[d.name] = { mounted: d.mounted, value: d.mounted && d.open };
        if (d.mounted && d.open) modelOpen(o);
    }
    const drawerCallbacks = {};
    for (const d of scenario.drawers) {
        const o = all.get(d.name);
        drawerCallbacks[d.name] = {
            open: () => note(o, 'open'),
            close: () => note(o, 'close'),
            'key-Escape': () => key(o, 'Escape'),
            ...(d.keyX ? { 'key-KeyX': () => key(o, 'KeyX') } : {}),
        };
    }
    const Root = {
        render: () =>
            h('div', { id: 'root' }, [
                h('button', { id: 'outside' }, 'outside'),
                h('div', { id: 'c1' }),
                h('div', { id: 'c12' }),
                ...scenario.drawers.map((d) =>
                    S.drawers[d.name].mounted
                        ? h(
                              V.VsDrawer,
                              {
                                  key: d.name,
                                  modelValue: S.drawers[d.name].value,
                                  'onUpdate:modelValue': (v) => (S.drawers[d.name].value = v),
                                  onOpen: () => note(all.get(d.name), 'emitOpen'),
                                  onClose: () => note(all.get(d.name), 'emitClose'),
                                  dimmed: d.dimmed,
                                  dimClose: d.dimClose,
                                  escClose: d.esc,
                                  focusLock: d.focusLock,
                                  callbacks: drawerCallbacks[d.name],
                              },
                              { default: () => h('div', { 'data-o': d.name, ref: reg(d.name) }, d.name) },
                          )
                        : null,
                ),
            ]),
    };
    const { app } = env.mountApp(Root);
    const $vs = V.useVlossom();

    function note(o, what) {
        sim.log(`note ${o.name} ${what}`);
        o.notes[what]++;
        o.seen.push(what);
        const re = o.reenter;
        if (re && re.on === what && mayReenter(o)) reenterAct(o, re);
    }
    function key(o, code) {
        sim.log(`keycb ${o.name} ${code}`);
        o.keys[code] = (o.keys[code] ?? 0) + 1;
        const re = o.reenter;
        // Escape has effects of its own whose order relative to the handler is not specified
        if (re && re.on === 'key' && code !== 'Escape' && mayReenter(o)) reenterAct(o, re);
    }
    function mayReenter(o) {
        if (sim.steps === 0 || burstStep === sim.steps) return false;
        o.reCount = (o.reCount ?? 0) + 1;
        return o.reCount <= 2;
    }
    function reenterAct(o, re) {
        sim.probe('reentrant-call');
        // what was asked for before this call takes effect before it
        flushDeferred();
        switch (re.act) {
            case 'clear': return exec({ k: 'clear', c: o.c ?? 'body' });
            case 'close': return exec({ k: 'close', c: o.c ?? 'body' });
            case 'closeOther': return exec({ k: 'closeId', m: re.other });
            case 'closeSelf': return exec({ k: 'closeId', m: o.name });
            case 'openNew': return exec({ k: 'open', m: `r${reSerial++}`, c: o.c ?? 'body', esc: true, dimmed: false, dimClose: true, keyX: true, guard: null, reenter: null });
            case 'drawerToggle': {
                const d = scenario.drawers[0];
                if (d) exec({ k: 'drawer', m: d.name, v: !S.drawers[d.name].value });
            }
        }
    }
    function flushDeferred() {
        const list = deferred;
        deferred = [];
        for (const f of list) f();
    }

    function makeGuard(o) {
        if (!o.guard) return undefined;
        return () => {
            o.guardCalls++;
            sim.log(`guard ${o.name} #${o.guardCalls}`);
            if (!o.waiting || o.waiting.length === 0) fail('guard-unasked', `${o.name}: close guard called without a close request`);
            const call = o.waiting.shift();
            const { ans, lat } = o.guard[(o.guardCalls - 1) % o.guard.length];
            const value = ans === 'yes' ? true : ans === 'no' ? false : undefined;
            if (ans === 'never') {
                sim.fault('guard-never');
                return new Promise(() => {});
            }
            if (lat < 0) {
                guardAnswered(o, call, ans);
                if (ans === 'throw' || ans === 'reject') throw new Error('guard-fail');
                return value;
            }
            sim.probe('guard-async');
            return new Promise((resolve, reject) => {
                sim.after(lat, `guard ${o.name}#${o.guardCalls}`, `guard-answer ${ans}`, () => {
                    guardAnswered(o, call, ans);
                    if (ans === 'reject' || ans === 'throw') reject(new Error('guard-fail'));
                    else resolve(value);
                });
            });
        };
    }

    function track(promise, call) {
        calls.push(call);
        promise.then(
            (v) => ((call.settled = (call.settled ?? 0) + 1), (call.result = v)),
            (e) => ((call.settled = (call.settled ?? 0) + 1), (call.result = 'fail'), (call.error = e)),
        );
    }

    function shown(name) {
        return contentOf(name).some((el) => {
            for (let e = el; e && e.nodeType === 1; e = e.parentNode) {
                if (/-leave-(from|active|to)\b/.test(e.className?.toString?.() ?? '')) return false;
                if (e.style?.display === 'none') return false;
                if (e === document.documentElement) return true;
            }
            return false;
        });
    }
    const nodeOf = (name) => contentOf(name).find((el) => shown(name))?.closest('.vs-modal-node, .vs-drawer');

    function exec(op) {
        switch (op.k) {
            case 'burst':
                sim.probe('burst');
                burstStep = sim.steps;
                for (const sub of op.ops) exec(sub);
                return;
            case 'stall':
                return sim.stall(op.ms);
            case 'hold':
                return sim.holdFrames(op.ms);
            case 'open': {
                if (all.has(op.m)) return;
                let id = `id-${op.m}`;
                if (op.reuse && all.get(op.reuse) && !all.get(op.reuse).open && (all.get(op.reuse).closedStep ?? 0) < sim.steps) {
                    id = all.get(op.reuse).id ?? id;
                    sim.probe('id-reused');
                    if ([...all.values()].some((x) => x.open && x.id === id)) id = `id-${op.m}`;
                }
                const o = mk(op.m, 'modal', { ...op, id });
                const options = {
                    id,
                    container: op.c === 'body' && op.m.length % 2 ? undefined : op.c,
                    escClose: op.esc,
                    dimmed: op.dimmed,
                    dimClose: op.dimClose,
                    focusLock: op.focusLock,
                    beforeClose: makeGuard(o),
                    callbacks: {
                        open: () => note(o, 'open'),
                        close: () => note(o, 'close'),
                        [V.OVERLAY_OPEN]: () => note(o, 'ovOpen'),
                        [V.OVERLAY_CLOSE]: () => note(o, 'ovClose'),
                        'key-Escape': () => key(o, 'Escape'),
                        ...(op.keyX ? { 'key-KeyX': () => key(o, 'KeyX') } : {}),
                        ...(op.keyEnter ? { 'key-Enter': () => key(o, 'Enter') } : {}),
                        ping: (x) => {
                            o.pings = (o.pings ?? 0) + 1;
                            return `pong-${o.name}-${x}`;
                        },
                    },
                };
                const got = $vs.modal.open({ render: () => h('div', { 'data-o': op.m, ref: reg(op.m) }, [h('button', op.m)]) }, options);
                expect(got === id, 'open-id', () => `open returned ${got} for ${id}`);
                modelOpen(o);
                return;
            }
            case 'dialog': {
                if (all.has(op.m)) return;
                const o = mk(op.m, 'dialog', { ...op, dkind: op.kind, kind: 'dialog', guard: null, text: op.init ?? '' });
                const options = {
                    container: op.c,
                    dimmed: op.dimmed,
                    okText: `ok-${op.m}`,
                    cancelText: `cancel-${op.m}`,
                    callbacks: op.keyX ? { 'key-KeyX': () => key(o, 'KeyX') } : {},
                };
                if (op.kind === 'prompt') {
                    options.input = { rules: op.rule ? [(v) => (v === 'bad' || !v ? 'bad value' : '')] : [], initialValue: op.init ?? null, placeholder: op.m };
                }
                const p = $vs[op.kind].open({ render: () => h('div', { 'data-o': op.m, ref: reg(op.m) }, op.m) }, options);
                o.promise = { settled: 0 };
                p.then(
                    (v) => (o.promise.settled++, (o.promise.value = v)),
                    (e) => (o.promise.settled++, (o.promise.error = e)),
                );
                modelOpen(o);
                return;
            }
            case 'close': {
                const target = newestIn(op.c);
                const call = { what: `close(${op.c})->${target?.name ?? '-'}` };
                if (!target) call.expected = false;
                track($vs.modal.close(op.c), call);
                if (target) requestCloseLate(target, call);
                return;
            }
            case 'closeId': {
                const o = all.get(op.m);
                if (!o || o.kind === 'drawer' || (o.kind === 'dialog')) {
                    return;
                }
                const call = { what: `closeWithId(${o.name})` };
                const live = o.open ? o : [...all.values()].find((x) => x.open && x.id === o.id && x.c === o.c);
                if (!live) call.expected = false;
                track($vs.modal.closeWithId(o.c, o.id), call);
                if (live) requestCloseLate(live, call);
                return;
            }
            case 'closeWrong': {
                const o = all.get(op.m);
                if (!o || o.kind !== 'modal' || !o.open) return;
                const other = CONTAINERS.find((c) => c !== o.c && ![...all.values()].some((x) => x.open && x.c === c && x.id === o.id));
                const call = { what: `closeWithId(${other}, ${o.name})`, expected: false };
                track($vs.modal.closeWithId(other, o.id), call);
                return;
            }
            case 'clear': {
                const gone = stack.filter((o) => (o.kind === 'modal' || o.kind === 'dialog') && o.c === op.c);
                sim.probe('clear', gone.length ? 1 : 0);
                for (const o of gone) modelClose(o);
                for (const o of gone) dialogGone(o);
                $vs.modal.clear(op.c);
                return;
            }
            case 'key': {
                if (stepOpened.size || topIsAmbiguous()) return;
                const top = stack[stack.length - 1];
                for (const o of all.values()) o.expectKeys[op.code] = o.keys[op.code] ?? 0;
                if (top) {
                    const has = op.code === 'Escape' ? top.kind !== 'dialog' : op.code === 'KeyX' ? top.keyX : op.code === 'Enter' ? top.keyEnter : false;
                    if (has) top.expectKeys[op.code] = (top.keys[op.code] ?? 0) + 1;
                    sim.probe(`key-on-${top.kind}`);
                    if (stack.length > 1) sim.probe('key-with-lower-overlays');
                    if (op.code === 'Escape') {
                        if (top.kind === 'dialog') {
                            deferred.push(() => {
                                dialogGone(top);
                                modelClose(top);
                            });
                        } else if (top.esc) {
                            if (top.kind === 'drawer') {
                                deferred.push(() => modelClose(top));
                            } else requestClose(top, { kind: 'ui' });
                        }
                    } else if (op.code === 'Enter' && top.kind === 'dialog') answerModel(top, 'ok');
                } else sim.probe('key-with-none');
                env.key(op.code, document.body);
                sim.keyJust = op.code;
                return;
            }
            case 'dim': {
                const o = all.get(op.m);
                if (!o || !o.open || !o.dimmed) return;
                const node = nodeOf(op.m);
                const dim = node && [...node.children].find((e) => e.classList.contains('vs-dimmed'));
                if (!dim) return;
                if (o.kind === 'dialog' || o.dimClose) {
                    sim.probe('dim-close');
                    if (o.kind === 'drawer') deferred.push(() => modelClose(o));
                    else requestClose(o, { kind: 'ui' });
                }
                env.click(dim);
                return;
            }
            case 'answer': {
                const o = all.get(op.m);
                if (!o || o.kind !== 'dialog' || !o.open) return;
                const button = [...(nodeOf(op.m)?.querySelectorAll('button') ?? [])].find((b) => b.textContent.includes(`${op.how}-${op.m}`));
                if (!button) return;
                if (stack[stack.length - 1] !== o) sim.probe('answer-non-top-dialog');
                answerModel(o, op.how);
                env.click(button);
                return;
            }
            case 'type': {
                const o = all.get(op.m);
                if (!o || o.kind !== 'dialog' || o.dkind !== 'prompt' || !o.open) return;
                const input = nodeOf(op.m)?.querySelector('input');
                if (!input) return;
                input.value = op.text;
                input.dispatchEvent(new env.window.Event('input', { bubbles: true }));
                o.text = op.text;
                sim.probe('prompt-typed');
                return;
            }
            case 'emit': {
                const o = all.get(op.m);
                if (!o || o.kind !== 'modal') return;
                const target = op.withId ? (o.open ? o : [...stack].find((x) => x.id === o.id)) : stack[stack.length - 1];
                if (stepOpened.size || (!op.withId && topIsAmbiguous())) return;
                const expected = target && target.kind === 'modal' ? `pong-${target.name}-7` : undefined;
                const p = op.withId ? $vs.modal.emitWithId(o.id, 'ping', 7) : $vs.modal.emit('ping', 7);
                const call = { what: `emit(${op.withId ? o.name : 'last'})`, expected };
                track(Promise.resolve(p), call);
                sim.probe('emit');
                return;
            }
            case 'drawer': {
                const o = all.get(op.m);
                if (!o || o.kind !== 'drawer' || !S.drawers[op.m].mounted) return;
                S.drawers[op.m].value = op.v;
                deferred.push(() => {
                    // the written value is what counts when the step ends (several writes in one step collapse)
                    const v = S.drawers[op.m].value;
                    if (v && !o.open && op.v === v) modelOpen(o);
                    else if (!v && o.open) modelClose(o);
                });
                return;
            }
            case 'drawerKill': {
                const o = all.get(op.m);
                if (!o || !S.drawers[op.m].mounted) return;
                if (o.open) {
                    sim.probe('owner-removed-while-open');
                    o.killed = (o.killed ?? 0) + 1;
                }
                S.drawers[op.m].mounted = false;
                deferred.push(() => modelClose(o));
                return;
            }
            case 'drawerMake': {
                const o = all.get(op.m);
                if (!o || S.drawers[op.m].mounted) return;
                S.drawers[op.m].mounted = true;
                S.drawers[op.m].value = op.v;
                if (op.v) deferred.push(() => modelOpen(o));
                return;
            }
        }
    }
    // API closes call the guard synchronously inside the call, before this line runs: hand the request over first
    function requestCloseLate(o, call) {
        if (!o.guard) return requestClose(o, call);
        // guard was already invoked synchronously with a placeholder request; see preRegister
    }
    const rawModal = $vs.modal;
    // requests to guarded modals must be registered before the API call: wrap exec's close ops
    const origExec = exec;
    exec = function (op) {
        if (op.k === 'close' || op.k === 'closeId') {
            const o = op.k === 'close' ? newestIn(op.c) : all.get(op.m);
            const live = o && (o.open ? o : op.k === 'closeId' && o.kind === 'modal' ? [...all.values()].find((x) => x.open && x.id === o.id && x.c === o.c) : null);
            if (live && live.guard && live.kind === 'modal') {
                const call = { what: op.k === 'close' ? `close(${op.c})->${live.name}` : `closeWithId(${live.name})` };
                requestClose(live, call);
                track(op.k === 'close' ? rawModal.close(op.c) : rawModal.closeWithId(live.c, live.id), call);
                return;
            }
        }
        return origExec(op);
    };
    function answerModel(o, how) {
        if (o.dkind === 'prompt' && how === 'ok') {
            const invalid = o.rule && (o.text === 'bad' || !o.text);
            if (invalid) {
                sim.probe('prompt-rejected-by-rule');
                return;
            }
        }
        if (o.answer) return;
        const value = o.dkind === 'alert' ? undefined : o.dkind === 'confirm' ? how === 'ok' : how === 'ok' ? (o.text === '' ? (o.touched ? '' : o.text || null) : o.text) : null;
        o.answer = { value, loose: o.dkind === 'prompt' && how === 'ok' && o.text === '' };
        deferred.push(() => modelClose(o));
    }

    // ---------------- invariants after every step
    sim.invariants.push(() => {
        flushDeferred();
        // 1. what is on screen
        const expectOpen = stack.map((o) => o.name).sort().join(',');
        // a drawer element stays in the page; while its animation timers run it may still be visible after closing
        const animating = sim.timers.size > 0 || sim.frameCallbacks.length > 0;
        const actual = [...all.values()].filter((o) => shown(o.name) && !(o.kind === 'drawer' && !o.open && (animating || o.quirk))).map((o) => o.name).sort().join(',');
        sim.state(`${stack.map((o) => o.name[0] + (o.c ?? '') + (o.guard ? 'g' : '')).join('|')}#${calls.filter((c) => !c.settled).length}`);
        expect(actual === expectOpen, 'screen', () => `on screen: [${actual}] but expected: [${expectOpen}]`);
        // 2. key callbacks
        if (sim.keyJust) {
            for (const o of all.values()) {
                const got = o.keys[sim.keyJust] ?? 0;
                const want = o.expectKeys[sim.keyJust] ?? 0;
                expect(got === want, 'key-routing', () => `key ${sim.keyJust}: handler of ${o.name} ran ${got} times in total, expected ${want} (stack before: top was the newest open overlay)`);
            }
            sim.keyJust = null;
        }
        // 3. close calls
        for (const call of calls) {
            if (call.done) continue;
            if ('expected' in call) {
                expect(call.settled === 1, 'close-call', () => `${call.what} should have settled by now (settled ${call.settled ?? 0} times)`);
                const ok = call.expected === 'fail' ? call.result === 'fail' || call.result === false : call.result === call.expected;
                expect(ok, 'close-result', () => `${call.what} reported ${String(call.result)}, expected ${String(call.expected)}`);
                call.done = true;
            } else {
                expect(!call.settled, 'close-call', () => `${call.what} settled with ${String(call.result)} before its guard answered`);
            }
        }
        // 4. guards asked as often as close requests were made
        for (const o of all.values()) {
            if (o.guard) {
                expect(o.guardCalls === o.expectGuardCalls, 'guard-calls', () => `${o.name}: guard asked ${o.guardCalls} times for ${o.expectGuardCalls} close requests`);
            }
            // 5. notifications
            const n = o.notes;
            const opens = o.everOpen ?? 0;
            const closes = opens - (o.open ? 1 : 0);
            if (o.kind === 'modal') {
                if (o.sameStep && !o.open) {
                    // opened and closed before it could appear: either no notification at all or both
                    expect(n.open === n.close && n.open <= 1, 'notify', () => `${o.name}: opened and closed at once but got open x${n.open}, close x${n.close}`);
                } else {
                    for (const [k, want] of [['open', opens], ['ovOpen', opens], ['close', closes], ['ovClose', closes]])
                        expect(n[k] === want, 'notify', () => `${o.name}: '${k}' notifications: ${n[k]}, expected ${want}`);
                }
                expect(o.seen.indexOf('close') === -1 || o.seen.indexOf('open') < o.seen.indexOf('close'), 'notify-order', () => `${o.name}: close notified before open`);
            } else if (o.kind === 'drawer') {
                const lost = o.killed ?? 0;
                const flicker = o.flicker ?? 0;
                expect(n.open === opens && n.emitOpen >= opens - 1 && n.emitOpen <= opens, 'notify', () => `${o.name}: open notified ${n.open}/${n.emitOpen} times for ${opens} openings`);
                expect(n.close <= closes && n.close >= closes - lost && n.emitClose <= closes && n.emitClose >= closes - lost, 'notify', () => `${o.name}: close notified ${n.close}/${n.emitClose} times for ${closes} closings (${lost} by removal)`);
                void flicker;
            }
            // 6. dialogs
            if (o.kind === 'dialog') {
                if (o.answer) {
                    expect(o.promise.settled === 1, 'dialog-settle', () => `${o.name} (${o.dkind}): promise settled ${o.promise.settled} times after it was answered`);
                    const ok = o.answer.loose ? !o.promise.value : o.promise.value === o.answer.value;
                    expect(ok, 'dialog-answer', () => `${o.name} (${o.dkind}): answered ${String(o.answer.value)} but promise yielded ${String(o.promise.value)}`);
                } else expect(o.promise.settled === 0, 'dialog-settle', () => `${o.name} (${o.dkind}): promise settled with ${String(o.promise.value)} although nobody answered it`);
            }
        }
        stepOpened = new Set();
        const bad = sim.errors.find((e) => !/guard-fail/.test(String(e.error?.message)));
        expect(!bad, 'error', () => `error raised: ${bad.where}: ${bad.error?.stack ?? bad.error}`);
        const rej = sim.rejections.find((e) => !/guard-fail/.test(String(e?.message)));
        expect(!rej, 'error', () => `unhandled rejection: ${rej?.stack ?? rej}`);
    });

    scenario.ops.forEach((op) => sim.task(op.t, 'user', `op ${op.k}`, () => exec(op)));
    const end = await sim.run();
    if (!sim.stopped) {
        expect(end === 'idle', 'liveness', () => `no quiescence: ${end}`);
        // closed overlays are really gone from the page
        for (const o of all.values()) {
            if (o.open) continue;
            if (o.kind === 'drawer') continue;
            expect(contentOf(o.name).length === 0, 'leftover', () => `${o.name} is closed but its content is still in the page`);
        }
    }
    app.unmount();
    env.dispose();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: {
            real: ['modal/alert/confirm/prompt plugins', 'VsModalView/VsModalNode/VsDrawer/VsDimmed/VsFocusTrap/VsRender/VsInput/VsButton', 'overlay stores', 'OverlayWrapper app', 'Vue runtime'],
            stub: ['clock, timers, animation frames', 'close guards (scripted)', 'randomness', 'DOM (jsdom)', 'user input'],
        },
        generate: (rng, size) => generateOverlay(property, rng, size),
        run: runOverlay,
        nontrivial: (r) => (r.probes['guard-async'] ?? 0) + (r.probes['key-with-lower-overlays'] ?? 0) + (r.probes.clear ?? 0) + (r.probes['answer-non-top-dialog'] ?? 0) + (r.probes['reentrant-call'] ?? 0) + (r.probes.burst ?? 0) > 0,
        rule: 'a run is non-trivial if an asynchronous guard was pending, a key was pressed with lower overlays open, a non-top dialog was answered, a container with open overlays was cleared, a callback re-entered the API, or several calls fell into one tick; distinct = distinct sequences of task labels',
    };
}
