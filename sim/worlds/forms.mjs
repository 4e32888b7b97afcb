// Form world: a form with fields of every kind, scripted synchronous and asynchronous rules and messages, edits by
// the user, writes by the program, validations, clears, fields coming and going. Serves F01 F02 F03 F05.
import { schedule, setup, same, show, timeline, typeInto } from '../lib/uiworld.mjs';
import { hashString } from '../lib/rng.mjs';

const TEXTS = ['', 'a', 'ab', 'B', 'Cd', 'hello', 'x y', '42'];
const NUMBERS = [null, 0, 1, 7, 42, 2.5];
const DATES = ['', '2024-01-05', '2024-02-29', '1999-12-31', '2030-07-01'];
const OPTIONS = ['a', 'b', 'c', 'd'];
const KINDS = {
    text: { comp: 'VsInput', empty: '', values: TEXTS },
    number: { comp: 'VsInput', empty: null, values: NUMBERS, props: { type: 'number' } },
    textarea: { comp: 'VsTextarea', empty: '', values: TEXTS },
    date: { comp: 'VsDatePicker', empty: '', values: DATES },
    switch: { comp: 'VsSwitch', empty: false, values: [false, true] },
    switchYN: { comp: 'VsSwitch', empty: 'N', values: ['N', 'Y'], props: { trueValue: 'Y', falseValue: 'N' } },
    checkbox: { comp: 'VsCheckbox', empty: false, values: [false, true] },
    checkboxMulti: { comp: 'VsCheckbox', empty: [], values: [[], ['k'], ['z'], ['z', 'k'], ['k', 'z']], props: { multiple: true, trueValue: 'k' } },
    checkboxSet: { comp: 'VsCheckboxSet', empty: [], values: [[], ['a'], ['b', 'a'], ['a', 'b'], ['c'], ['a', 'b', 'c', 'd']], props: { options: OPTIONS } },
    radioSet: { comp: 'VsRadioSet', empty: null, values: [null, 'a', 'b', 'c', 'd'], props: { options: OPTIONS } },
    select: { comp: 'VsSelect', empty: null, values: [null, 'a', 'b', 'd'], props: { options: OPTIONS } },
    selectMulti: { comp: 'VsSelect', empty: [], values: [[], ['a'], ['b', 'd'], ['d', 'b']], props: { options: OPTIONS, multiple: true } },
};
const WEIGHTS = {
    F01: { require: 0.8, limits: 0.8, edit: 6, write: 3, validate: 2, clear: 1.2, rules: 1.5, messages: 1, kill: 0.3, make: 0.4, formValidate: 0.6, formClear: 0.3, readonly: 0, disabled: 0, rename: 0.2, burst: 1, clearBtn: 0.7 },
    F02: { require: 0.5, limits: 0.3, edit: 5, write: 2, validate: 0.7, clear: 1, rules: 0.8, messages: 0.2, kill: 2, make: 2.5, formValidate: 5, formClear: 1, readonly: 0.3, disabled: 0.3, rename: 0.8, remount: 0.8, burst: 1.5, clearBtn: 0.3 },
    F03: { require: 0.2, limits: 0.2, edit: 5, write: 2, validate: 2, clear: 4, rules: 0.4, messages: 0.4, kill: 0.4, make: 0.6, formValidate: 1.5, formClear: 2.5, readonly: 0.2, disabled: 0.2, rename: 0.2, burst: 1, clearBtn: 0.3 },
    F05: { edit: 8, write: 5, validate: 0.3, clear: 1.2, rules: 0.2, messages: 0.2, kill: 0.4, make: 0.5, formValidate: 0.2, formClear: 0.4, readonly: 1.2, disabled: 1.2, rerender: 1, burst: 1.5, clearBtn: 1 },
};
// smallest and largest value, length or count a field accepts by itself
const LIMITS = { text: [[0, 1, 2, 3], [0, 1, 2, 4]], textarea: [[0, 1, 2, 3], [0, 1, 2, 4]], number: [[-1, 0, 1, 7], [0, 1, 7, 40]], date: [['2000-01-01', '2024-01-05', '2024-03-01'], ['2024-01-05', '2024-02-28', '2025-01-01']], checkboxSet: [[0, 1, 2], [0, 1, 2, 3]], selectMulti: [[0, 1, 2], [0, 1, 2]] };
const LAT = [0, 1, 5, 20, 60, 150, 320, 700];

function genRule(rng, id, faulty, asyncP) {
    const isAsync = rng.bool(asyncP);
    return { id, async: isAsync, rate: rng.pick([0.2, 0.5, 0.9, 1]), lat: isAsync ? [rng.pick(LAT), rng.pick(LAT), rng.pick(LAT)] : null, fail: faulty && rng.bool(0.3) ? rng.pick([0.2, 0.5, 1]) : 0 };
}
export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const weights = rng.swarm(WEIGHTS[property], 0.85);
    weights.edit = Math.max(weights.edit, 3);
    if (property === 'F02') weights.formValidate = Math.max(weights.formValidate, 3);
    if (property === 'F03') weights.clear = Math.max(weights.clear, 2);
    let ruleId = 0;
    const asyncP = rng.pick([0, 0.4, 0.7, 1]);
    const ruleP = property === 'F05' ? 0.3 : 0.85;
    const n = property === 'F02' ? rng.range(2, 5) : rng.range(1, 3);
    const kinds = rng.bool(0.5) ? Object.keys(KINDS) : [rng.pick(Object.keys(KINDS)), rng.pick(Object.keys(KINDS)), 'text'];
    const fields = [];
    const genRules = () => (rng.bool(ruleP) ? Array.from({ length: rng.range(1, 3) }, () => genRule(rng, ruleId++, faulty, asyncP)) : []);
    const genMessages = () => (rng.bool(0.4) ? Array.from({ length: rng.range(1, 2) }, () => ({ ...genRule(rng, ruleId++, faulty, asyncP), fixed: rng.bool(0.3) })) : []);
    const genLimits = (kind) => (LIMITS[kind] && property !== 'F05' ? { ...(rng.bool(0.5) ? { min: rng.pick(LIMITS[kind][0]) } : {}), ...(rng.bool(0.5) ? { max: rng.pick(LIMITS[kind][1]) } : {}) } : {});
    for (let i = 0; i < n; i++) {
        const kind = rng.pick(kinds);
        fields.push({
            name: `f${i}`, kind, init: rng.int(KINDS[kind].values.length), mounted: rng.bool(0.8), rules: genRules(), messages: genMessages(),
            required: rng.bool(0.3), limits: rng.bool(0.4) ? genLimits(kind) : {}, bare: rng.bool(0.25), modifier: (kind === 'text' || kind === 'textarea') && rng.bool(0.2) ? rng.pick(['upper', 'lower', 'capitalize']) : null,
        });
    }
    const tl = timeline(rng, { faulty });
    const pickField = () => rng.pick(fields);
    function op(inBurst) {
        const w = inBurst ? { write: weights.write + 0.1, validate: weights.validate, clear: weights.clear, rules: weights.rules, kill: weights.kill, make: weights.make, formValidate: weights.formValidate, formClear: weights.formClear, disabled: weights.disabled, readonly: weights.readonly, rerender: weights.rerender ?? 0 } : weights;
        const k = rng.weighted(w);
        const f = pickField();
        const base = { k, f: f.name };
        const nv = KINDS[f.kind].values.length;
        switch (k) {
            case 'edit': return { ...base, v: rng.int(nv) };
            case 'write': return { ...base, v: rng.int(nv) };
            case 'rules': return { ...base, rules: genRules() };
            case 'messages': return { ...base, messages: genMessages() };
            case 'make': return { ...base, v: rng.int(nv) };
            case 'readonly': case 'disabled': return { ...base, v: rng.bool(0.5), form: rng.bool(0.4) };
            case 'require': return { ...base, v: rng.bool(0.6) };
            case 'limits': return { ...base, v: genLimits(f.kind) };
            case 'burst': return null;
            default: return base;
        }
    }
    const nOps = rng.range(4, size ?? 22);
    for (let i = 0; i < nOps; i++) {
        const o = op(false);
        if (o) tl.add(o);
        else tl.add({ k: 'burst', ops: Array.from({ length: rng.range(2, 3) }, () => op(true)).filter(Boolean) });
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, fields, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, prop, expect, fail } = setup(sim, scenario, bundle);
    const { V, Vue } = env;
    const { h, reactive, markRaw, shallowReactive } = Vue;
    const state = reactive({ disabled: false, readonly: false, tick: 0 });
    let renames = 0;

    const modify = (f, v) => {
        if (!f.modifier || typeof v !== 'string') return v;
        return f.modifier === 'upper' ? v.toUpperCase() : f.modifier === 'lower' ? v.toLowerCase() : v.charAt(0).toUpperCase() + v.slice(1);
    };
    const valueOf = (f, i) => modify(f, JSON.parse(JSON.stringify(KINDS[f.kind].values[i])));
    const plain = (v) => (v === undefined ? null : JSON.parse(JSON.stringify(v)));

    const fields = scenario.fields.map((def) => {
        const f = markRaw({
            def, name: def.name, kind: def.kind, modifier: def.modifier, mounted: false, id: def.name, key: 0,
            live: shallowReactive({ model: null, mounted: false, rules: [], messages: [], disabled: false, readonly: false, id: def.name, key: 0, required: !!def.required, limits: def.limits ?? {} }),
            value: null, show: false, changed: false, validSeen: true, changedSeen: false, updates: [], changes: [], vm: null,
            ruleObjs: [], messageObjs: [], soft: false, userStep: null, pending: 0,
        });
        return f;
    });
    const byName = new Map(fields.map((f) => [f.name, f]));

    // ---- scripted rules and messages: the text they produce names the value they were asked about
    let callNo = 0;
    function makeChecker(f, spec, kind) {
        const c = { spec, last: null, calls: 0 };
        c.fn = (raw) => {
            const v = plain(raw);
            const n = ++c.calls;
            const label = `${kind}${spec.id}`;
            callNo++;
            const failing = spec.fail > 0 && sim.roll(`${label}|fail|${n}`) < spec.fail;
            const hit = kind === 'msg' || hashString(`${spec.id}|${show(v)}`) / 4294967296 < spec.rate;
            const text = hit ? `${label}:${show(v)}` : '';
            const call = { v, failed: failing, text: failing ? null : text, done: !spec.async };
            c.last = call;
            const result = kind === 'msg' ? { state: 'info', text } : text;
            if (!spec.async) {
                if (failing) {
                    sim.fault('rule-throws');
                    throw new Error('rule failed (injected)');
                }
                return result;
            }
            f.pending++;
            sim.probe('async-rule');
            const lat = spec.lat[n % spec.lat.length];
            const p = sim.promise(`${label}#${n}`, lat, failing ? { ok: false, error: new Error('rule rejected (injected)') } : { ok: true, value: result });
            if (failing) sim.fault('rule-rejects');
            const done = () => {
                f.pending--;
                call.done = true;
                if (!same(f.value, v)) sim.probe('stale-result');
            };
            p.then(done, done);
            return p;
        };
        return c;
    }
    function setRules(f, specs) {
        f.ruleObjs = specs.map((s) => makeChecker(f, s, 'rule'));
        f.live.rules = f.ruleObjs.map((c) => c.fn);
    }
    function setMessages(f, specs) {
        f.messageObjs = specs.map((s) => (s.fixed ? { spec: s, fixed: `fixed${s.id}` } : makeChecker(f, s, 'msg')));
        f.live.messages = f.messageObjs.map((c) => (c.fixed ? { state: 'info', text: c.fixed } : c.fn));
    }

    function lacking(f) {
        switch (f.kind) {
            case 'number': return false; // an empty number field is not held to "required"
            case 'checkboxMulti': return !f.value.includes('k');
            case 'checkboxSet': case 'selectMulti': return f.value.length === 0;
            case 'switch': case 'checkbox': return f.value !== true;
            case 'switchYN': return f.value !== 'Y';
            default: return f.value === null || f.value === '';
        }
    }
    /** what the field objects to by itself */
    function builtIn(f) {
        if (f.def.bare) return []; // default rules switched off
        const { min, max } = f.live.limits;
        const v = f.value;
        const measure = f.kind === 'number' ? v : f.kind === 'date' ? v || null : typeof v === 'string' || Array.isArray(v) ? v.length : null;
        const out = f.live.required && lacking(f) ? ['required'] : [];
        if (measure !== null && min !== undefined && measure < min) out.push(`least ${min}`);
        if (measure !== null && max !== undefined && measure > max) out.push(`most ${max}`);
        return out;
    }
    function modelSet(f, v) {
        if (same(f.value, v)) return false;
        f.value = v;
        f.moved = true;
        f.changed = true;
        f.show = true;
        f.hidden = false;
        return true;
    }

    function mountField(f, v) {
        f.mounted = true;
        f.vm = null;
        f.value = v;
        f.show = false;
        f.changed = false;
        f.validSeen = true;
        f.changedSeen = false;
        f.updates = [];
        f.changes = [];
        f.soft = true;
        f.pendingShow = false;
        setRules(f, f.def.rules);
        setMessages(f, f.def.messages);
        f.live.required = !!f.def.required;
        f.live.limits = f.def.limits ?? {};
        f.live.model = v;
        f.live.key++;
        f.live.mounted = true;
    }
    function unmountField(f) {
        f.mounted = false;
        f.live.mounted = false;
    }

    const formEvents = { error: [] };
    let formVm = null;
    const Root = {
        render() {
            void state.tick;
            return h(V.VsForm, { ref: (x) => (formVm = x), disabled: state.disabled, readonly: state.readonly, onError: (ids) => formEvents.error.push(ids.slice()) }, () =>
                fields.filter((f) => f.live.mounted).map((f) => {
                    const K = KINDS[f.kind];
                    const key = f.live.key;
                    const mine = () => f.mounted && f.live.key === key;
                    return h(V[K.comp], {
                        key: `${f.name}-${key}`,
                        ref: (x) => {
                            if (x) f.vm = x;
                            else if (f.live.key === key) f.vm = null;
                        },
                        id: f.live.id,
                        modelValue: f.live.model,
                        'onUpdate:modelValue': (v) => {
                            if (!mine()) return fail('dead-field', `field ${f.name} emitted an update after it was removed`);
                            f.updates.push(plain(v));
                            f.live.model = v;
                        },
                        onChange: (v) => mine() && f.changes.push(plain(v)),
                        'onUpdate:valid': (v) => mine() && (f.validSeen = v),
                        'onUpdate:changed': (v) => mine() && (f.changedSeen = v),
                        rules: f.live.rules,
                        messages: f.live.messages,
                        required: f.live.required,
                        ...f.live.limits,
                        noDefaultRules: !!f.def.bare,
                        disabled: f.live.disabled,
                        readonly: f.live.readonly,
                        ...(f.modifier ? { modelModifiers: { [f.modifier]: true } } : {}),
                        ...(K.props ?? {}),
                    });
                }));
        },
    };
    for (const f of fields) if (f.def.mounted) mountField(f, valueOf(f, f.def.init));

    // ---- observation
    const root = (f) => f.vm?.$el;
    // messages of the default rules are recognised by the limit they name, not by their wording
    const own = (f, text) => {
        if (/^(rule|msg|fixed)\d+/.test(text)) return text;
        if (/required/i.test(text)) return 'required';
        const limit = /(\d{4}-\d\d-\d\d|-?\d+)\D*$/.exec(text)?.[1];
        return /min|least|after/i.test(text) ? `least ${limit}` : /max|most|up to|before/i.test(text) ? `most ${limit}` : text;
    };
    const texts = (f) => {
        const el = root(f);
        if (!el || el.nodeType !== 1) return [];
        return [...el.querySelectorAll('.vs-message-text')].map((e) => own(f, e.textContent));
    };
    function shownValue(f) {
        const el = root(f);
        if (!el || el.nodeType !== 1) return undefined;
        const inputs = [...el.querySelectorAll('input,textarea')];
        switch (f.kind) {
            case 'text': case 'textarea': case 'date': return inputs[0].value;
            case 'number': return inputs[0].value === '' ? null : Number(inputs[0].value);
            case 'switch': case 'checkbox': return inputs[0].checked;
            case 'switchYN': return inputs[0].checked ? 'Y' : 'N';
            case 'checkboxMulti': return inputs[0].checked;
            case 'checkboxSet': return OPTIONS.filter((_, i) => inputs[i]?.checked);
            case 'radioSet': return OPTIONS.find((_, i) => inputs[i]?.checked) ?? null;
            default: return undefined;
        }
    }
    function shownModel(f) {
        if (f.kind === 'checkboxMulti') return f.value.includes('k');
        if (f.kind === 'checkboxSet') return OPTIONS.filter((o) => f.value.includes(o));
        return f.value;
    }
    const blocked = (f) => f.live.disabled || f.live.readonly || state.disabled || state.readonly;

    /** what the rules of the latest check say; null when some result is still to come */
    function ruleTexts(f) {
        const out = builtIn(f);
        // results of asynchronous rules count once all of them are in
        const complete = f.ruleObjs.every((c) => c.last && c.last.done);
        for (const c of f.ruleObjs) {
            if (c.last?.text && (complete || !c.spec.async)) out.push(c.last.text);
        }
        return { out, complete };
    }

    // ---- operations
    const touched = new Map(); // field -> list of kinds of op in this task
    const awaiting = [];
    function note(f, k) {
        if (!touched.has(f)) {
            touched.set(f, []);
            f.snap = { value: f.value, changed: f.changed, show: f.show, hidden: f.hidden };
        }
        touched.get(f).push(k);
    }
    function perform(op, { burst }) {
        const f = byName.get(op.f);
        switch (op.k) {
            case 'edit': return userEdit(f, op);
            case 'clearBtn': {
                if (!f.mounted || f.kind !== 'text') return;
                const b = root(f)?.querySelector('.vs-clear-button');
                if (!b || b.disabled) return;
                f.userStep = { from: plain(f.value), to: '', updates: f.updates.length, changes: f.changes.length };
                note(f, 'edit');
                modelSet(f, '');
                b.click();
                return;
            }
            case 'write': {
                if (!f.mounted) return;
                const v = valueOf(f, op.v);
                note(f, 'write');
                f.live.model = v;
                if (f.vm) modelSet(f, v);
                else f.value = v;
                f.writeStep = v;
                return;
            }
            case 'validate': {
                if (!f.mounted || !f.vm) return;
                const before = touched.has(f);
                note(f, 'validate');
                const { out, complete } = ruleTexts(f);
                const got = f.vm.validate();
                f.show = true;
                f.hidden = false;
                if (!before && (out.length || complete)) expect(got === (out.length === 0), 'validate-answer', () => `validate() of ${f.name} answered ${got} although its rules say ${show(out)}`);
                if (!complete) sim.probe('validate-while-pending');
                return;
            }
            case 'clear': {
                if (!f.mounted || !f.vm) return;
                note(f, 'clear');
                if (f.pending) sim.probe('clear-while-pending');
                f.vm.clear();
                modelClear(f);
                return;
            }
            case 'formValidate': {
                if (!formVm) return;
                sim.probe('form-validate');
                const rec = { got: null, errors: formEvents.error.length, step: sim.steps };
                awaiting.push(rec);
                formVm.validate().then((v) => (rec.got = v));
                for (const x of fields) if (x.mounted && x.vm) {
                    note(x, 'validate');
                    x.show = true;
                    x.hidden = false;
                }
                return;
            }
            case 'formClear': {
                if (!formVm) return;
                formVm.clear();
                for (const x of fields) if (x.mounted && x.vm) {
                    note(x, 'clear');
                    if (x.pending) sim.probe('clear-while-pending');
                    modelClear(x);
                }
                return;
            }
            case 'rules': if (f.mounted) { note(f, 'rules'); setRules(f, op.rules); } return;
            case 'require': if (f.mounted && f.live.required !== op.v) { note(f, 'rules'); f.live.required = op.v; sim.probe('demands-changed'); } return;
            case 'limits': if (f.mounted) { note(f, 'rules'); f.live.limits = op.v ?? {}; sim.probe('demands-changed'); } return;
            case 'messages': if (f.mounted) { note(f, 'messages'); setMessages(f, op.messages); } return;
            case 'kill': if (f.mounted) { note(f, 'kill'); if (f.pending) sim.probe('removed-while-pending'); unmountField(f); } return;
            case 'make': if (!f.mounted) { note(f, 'make'); mountField(f, valueOf(f, op.v)); } return;
            case 'remount': if (f.mounted) { note(f, 'make'); mountField(f, f.value); } return;
            case 'rename': if (f.mounted) { note(f, 'rename'); f.live.id = `${f.name}-${++renames}`; } return;
            case 'rerender': state.tick++; return;
            case 'readonly': case 'disabled':
                if (op.form) state[op.k] = op.v;
                else f.live[op.k] = op.v;
                return;
        }
    }
    function modelClear(f) {
        f.value = plain(KINDS[f.kind].empty);
        f.changed = false;
        f.show = false;
        f.hidden = true;
    }
    function userEdit(f, op) {
        if (!f.mounted || !root(f)) return;
        const inputs = [...root(f).querySelectorAll('input,textarea')];
        let to;
        const before = { updates: f.updates.length, changes: f.changes.length };
        let act = null;
        const stopped = blocked(f);
        switch (f.kind) {
            case 'text': case 'textarea': case 'number': case 'date': {
                const raw = KINDS[f.kind].values[op.v];
                to = valueOf(f, op.v);
                act = () => {
                    if (inputs[0].disabled || inputs[0].readOnly) return;
                    typeInto(env, inputs[0], raw === null ? '' : String(raw));
                };
                break;
            }
            case 'switch': case 'checkbox': to = !f.value; act = () => inputs[0].click(); break;
            case 'switchYN': to = f.value === 'Y' ? 'N' : 'Y'; act = () => inputs[0].click(); break;
            case 'checkboxMulti': to = f.value.includes('k') ? f.value.filter((x) => x !== 'k') : [...f.value, 'k']; act = () => inputs[0].click(); break;
            case 'checkboxSet': {
                const o = OPTIONS[op.v % OPTIONS.length];
                to = f.value.includes(o) ? f.value.filter((x) => x !== o) : [...f.value, o];
                act = () => inputs[OPTIONS.indexOf(o)].click();
                break;
            }
            case 'radioSet': {
                to = OPTIONS[op.v % OPTIONS.length];
                act = () => inputs[OPTIONS.indexOf(to)].click();
                break;
            }
            default: return;
        }
        if (stopped) {
            sim.probe('edit-while-blocked');
            f.userStep = { from: plain(f.value), to: plain(f.value), ...before };
            act();
            return;
        }
        note(f, 'edit');
        f.userStep = { from: plain(f.value), to: plain(to), ...before };
        modelSet(f, plain(to));
        act();
    }

    const { app } = env.mountApp(Root);

    // ---- after every step
    sim.invariants.push(() => {
        for (const [f, kinds] of touched) {
            // a clear in the same tick as other requests for the field: only the value is predicted
            const clears = kinds.filter((k) => k === 'clear').length;
            if (clears && kinds.some((k) => k === 'write' || k === 'validate' || k === 'rules')) f.soft = true;
            else if (clears || f.moved) f.soft = false;
            // written and written back within one tick is no change
            if (f.moved && same(f.value, f.snap.value) && !clears) {
                f.changed = f.snap.changed;
                if (!kinds.includes('validate')) Object.assign(f, f.snap);
            }
            f.moved = false;
            if (clears && kinds.some((k) => k === 'write')) f.value = plain(f.live.model);
            if (kinds.includes('make')) f.soft = false;
        }
        for (const f of fields) {
            if (f.userStep) {
                const u = f.userStep;
                f.userStep = null;
                const ups = f.updates.slice(u.updates);
                const chs = f.changes.slice(u.changes);
                if (prop === 'F05') {
                    if (same(u.from, u.to)) {
                        expect(ups.length === 0 && chs.length === 0, 'spurious-update', () => `${f.kind} ${f.name} reported ${show(ups)} / change ${show(chs)} although the user changed nothing`);
                    } else {
                        sim.probe('user-edit');
                        expect(ups.length === 1 && same(ups[0], u.to), 'one-update', () => `${f.kind} ${f.name}: user edit to ${show(u.to)} produced updates ${show(ups)}`);
                        expect(chs.length === 1 && same(chs[0], u.to), 'one-change', () => `${f.kind} ${f.name}: user edit to ${show(u.to)} produced change notifications ${show(chs)}`);
                    }
                }
            }
            if (!f.mounted || !f.vm) continue;
            if (prop === 'F05' && f.writeStep !== undefined && touched.get(f)?.every((k) => k === 'write')) {
                const bad = f.updates.slice(f.updatesSeen ?? 0).find((v) => !same(v, f.value));
                expect(bad === undefined, 'echo', () => `${f.kind} ${f.name}: program wrote ${show(f.value)} and the field reported ${show(bad)}`);
            }
            f.writeStep = undefined;
            f.updatesSeen = f.updates.length;
            // values agree at every settled moment
            expect(same(plain(f.live.model), f.value), 'model', () => `${f.kind} ${f.name}: bound model ${show(plain(f.live.model))}, expected ${show(f.value)}`);
            const sv = shownValue(f);
            if (sv !== undefined) expect(same(sv, shownModel(f)), 'shown', () => `${f.kind} ${f.name}: shows ${show(sv)}, holds ${show(f.value)}`);
            if (prop === 'F05') continue;
            // messages never speak about another value
            const seen = texts(f);
            const about = `:${show(f.value)}`;
            const stale = seen.find((s) => /^(rule|msg)\d+:/.test(s) && !s.endsWith(about));
            expect(!stale, 'stale-message', () => `${f.kind} ${f.name}: shows "${stale}" while its value is ${show(f.value)}`);
            if (f.hidden && !f.soft) {
                const left = seen.find((s) => /^rule\d+:/.test(s) || /^(required$|least |most )/.test(s));
                expect(!left, 'message-after-clear', () => `${f.kind} ${f.name}: shows "${left}" after it was cleared`);
            }
            if (!f.soft) expect(!!f.changedSeen === f.changed, 'changed-flag', () => `${f.kind} ${f.name}: reports changed=${f.changedSeen}, expected ${f.changed}`);
        }
        for (const rec of awaiting.splice(0)) {
            const invalid = [];
            let unsure = false;
            let skip = false;
            for (const f of fields) {
                if (!f.mounted) continue;
                const { out, complete } = ruleTexts(f);
                if (out.length) invalid.push(f);
                else if (!complete) unsure = true;
                // cleared in the same tick: checked once before and once after the clear
                if (touched.get(f)?.includes('make')) skip = true;
                if (touched.get(f)?.includes('clear') && f.ruleObjs.some((c) => c.spec.fail)) skip = true;
            }
            if (skip) continue;
            expect(rec.got !== null, 'form-answer-missing', 'form validation gave no answer');
            if (invalid.length) expect(rec.got === false, 'form-answer', () => `form validation answered ${rec.got} although ${invalid.map((f) => f.name)} are invalid`);
            else if (!unsure) expect(rec.got === true, 'form-answer', () => `form validation answered ${rec.got} although every field is valid`);
            if (!unsure) {
                const reports = formEvents.error.slice(rec.errors);
                if (invalid.length) {
                    sim.probe('form-invalid');
                    const ids = invalid.map((f) => f.live.id).sort();
                    expect(reports.length >= 1 && same(reports[reports.length - 1].slice().sort(), ids), 'form-report', () => `form reported invalid fields ${show(reports)}, expected ${show(ids)}`);
                } else expect(reports.length === 0, 'form-report', () => `form reported ${show(reports)} although every field is valid`);
            }
        }
        touched.clear();
        if (formVm && (prop === 'F02' || prop === 'F03')) {
            const soft = fields.some((f) => f.mounted && f.soft);
            const anyChanged = fields.some((f) => f.mounted && f.changed);
            if (!soft) expect(!!formVm.changed === anyChanged, 'form-changed', () => `form says changed=${formVm.changed}, but changed fields are [${fields.filter((f) => f.mounted && f.changed).map((f) => f.name)}]`);
        }
        sim.state(fields.map((f) => (f.mounted ? `${f.kind}${show(f.value)}${f.show}${f.changed}${f.pending}` : '-')).join('|'));
    });

    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);

    // ---- once activity stops
    for (const f of fields) {
        if (!f.mounted || prop === 'F05') continue;
        expect(!!f.vm, 'lost-field', `field ${f.name} is not on the page`);
        for (const c of [...f.ruleObjs, ...f.messageObjs]) {
            if (c.fixed) continue;
            expect(c.last && same(c.last.v, f.value), 'not-rechecked', () => `${f.kind} ${f.name}: last check was made for ${show(c.last?.v)}, the value is ${show(f.value)}`);
        }
        const { out } = ruleTexts(f);
        const messages = f.messageObjs.map((c) => c.fixed ?? c.last.text).filter((x) => x !== null);
        expect(f.validSeen === (out.length === 0), 'validity', () => `${f.kind} ${f.name}: reports valid=${f.validSeen}, its rules say ${show(out)}`);
        if (f.soft) continue;
        const want = [...messages, ...(f.show ? out : [])].sort();
        const got = texts(f).sort();
        const flagged = !!root(f).querySelector('.vs-state-box.vs-state-error');
        expect(flagged === (f.show && out.length > 0), 'flagged', () => `${f.kind} ${f.name}: is ${flagged ? '' : 'not '}marked as in error while it shows ${show(got)}`);
        expect(same(got, want), 'messages', () => `${f.kind} ${f.name}: shows ${show(got)}, expected ${show(want)} (value ${show(f.value)})`);
    }
    if (formVm && prop === 'F02') {
        const bad = fields.filter((f) => f.mounted && ruleTexts(f).out.length);
        expect(!!formVm.valid === (bad.length === 0), 'form-valid', () => `form says valid=${formVm.valid}, invalid fields are [${bad.map((f) => f.name)}]`);
    }
    app.unmount();
}

export function world(property) {
    const marks = { F01: ['stale-result', 'async-rule'], F02: ['form-invalid', 'removed-while-pending', 'burst'], F03: ['clear-while-pending', 'burst', 'stale-result'], F05: ['user-edit', 'burst'] }[property];
    return {
        property,
        needs: 'ui',
        components: {
            real: ['VsForm, VsInput, VsTextarea, VsDatePicker, VsSwitch, VsCheckbox, VsCheckboxSet, VsRadioSet, VsSelect, VsInputWrapper, VsMessage', 'input, rules, messages, form composables and form store', 'Vue runtime'],
            stub: ['clock, timers, frames', 'rules and messages (scripted)', 'DOM (jsdom)', 'user input'],
        },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: ['fields'],
        nontrivial: (r) => marks.some((m) => r.probes[m]),
        rule: `a run is non-trivial if it reached one of: ${marks.join(', ')}; distinct = distinct sequences of task labels`,
    };
}
