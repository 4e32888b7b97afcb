// File field world (F10): drags, drops, dialog selections, removals and model writes on file fields whose limits change.
import { schedule, setup, show, timeline } from '../lib/uiworld.mjs';

const NAMES = ['a.txt', 'b.txt', 'c.png', 'd.png', 'a.txt', 'e.PDF'];
const TYPES = { txt: 'text/plain', png: 'image/png', PDF: 'application/pdf' };
const ACCEPTS = ['', '', '', 'image/*', '.txt', '.pdf, image/png', 'text/plain,.png'];
const LIMITS = [[0, 99], [0, 99], [0, 1], [1, 2], [2, 3], [0, 2], [0, 0], ['1', '2']];

export function generate(property, rng, size) {
    const faulty = rng.bool(0.5);
    const inForm = rng.bool(0.3);
    const limit = () => rng.pick(LIMITS);
    const fields = Array.from({ length: rng.range(1, 2) }, (_, i) => {
        const [min, max] = limit();
        return { name: `f${i}`, multiple: rng.bool(0.7), min, max, accept: rng.pick(ACCEPTS), initial: rng.bool(0.3) ? pickFiles(rng) : [], required: rng.bool(0.25), slot: rng.bool(0.2), noClear: rng.bool(0.15) };
    });
    const tl = timeline(rng, { paces: [2, 20, 100], faulty });
    const user = (inBurst) => {
        const i = rng.int(fields.length);
        const k = rng.weighted({ enter: 2, over: 2, leave: 2, drop: 4, dialog: 3, take: inBurst ? 0 : 3, clear: inBurst ? 0 : 1, open: 0.7 });
        if (k === 'drop' || k === 'dialog') return { k, i, files: pickFiles(rng) };
        if (k === 'take') return { k, i, n: rng.int(4) };
        if (k === 'clear') return { k, i, button: rng.bool(0.5) };
        return { k, i };
    };
    const n = rng.range(3, size ?? 28);
    for (let j = 0; j < n; j++) {
        const i = rng.int(fields.length);
        const r = rng.float();
        if (r < 0.1) tl.add({ k: 'burst', ops: Array.from({ length: rng.range(2, 3) }, () => user(true)) });
        else if (r < 0.18) tl.add({ k: 'write', i, files: rng.bool(0.3) ? [] : pickFiles(rng) });
        else if (r < 0.26) tl.add({ k: rng.pick(['disabled', 'readonly']), i, v: rng.bool(0.5) });
        else if (r < 0.29 && inForm) tl.add({ k: rng.pick(['formDisabled', 'formReadonly']), v: rng.bool(0.5) });
        else if (r < 0.35) tl.add({ k: 'limits', i, l: limit(), multiple: rng.bool(0.6) });
        else if (r < 0.4) tl.add({ k: 'validate', i });
        else tl.add(user(false));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, inForm, fields, ops: tl.ops };
}
const pickFiles = (rng) => rng.sample([0, 1, 2, 3, 4, 5], rng.weighted({ 1: 4, 2: 3, 3: 2, 4: 1 }) | 0);

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, window } = env;
    const { h, shallowReactive, markRaw } = Vue;
    const POOL = NAMES.map((name, i) => markRaw(new window.File(['x'.repeat(i + 1)], name, { type: TYPES[name.split('.')[1]] })));
    const id = (f) => POOL.indexOf(Vue.toRaw(f));
    const form = shallowReactive({ disabled: false, readonly: false });
    const fields = scenario.fields.map((d) => {
        const { multiple = false, min = 0, max = 99, initial = [] } = d;
        return markRaw({ ...d, vm: null, root: null, held: [...initial], why: false, over: false, drops: [], expectDrops: [], reports: [],
            st: shallowReactive({ v: initial.map((i) => POOL[i]), multiple, min, max, disabled: false, readonly: false }) });
    });
    const field = (f) => h('section', { key: f.name, ref: (el) => (f.root = el ?? f.root) }, [
        h(V.VsFileDrop, {
            ref: (vm) => (f.vm = vm ?? f.vm), modelValue: f.st.v, multiple: f.st.multiple, min: f.st.min, max: f.st.max, accept: f.accept || undefined, disabled: f.st.disabled, readonly: f.st.readonly, noClear: !!f.noClear, required: !!f.required,
            'onUpdate:modelValue': (v) => {
                f.reports.push(v.map(id));
                f.st.v = v;
            },
            onDrop: (files) => f.drops.push(files.map(id)),
        }, f.slot ? { default: (p) => h('em', { class: 'own' }, String(p.dragging)) } : {}),
    ]);
    const { app } = env.mountApp({ render: () => (scenario.inForm ? h(V.VsForm, { disabled: form.disabled, readonly: form.readonly }, { default: () => fields.map(field) }) : h('main', fields.map(field))) });
    const box = (f) => f.root.querySelector('.vs-file-drop');
    const input = (f) => f.root.querySelector('input[type=file]');
    const locked = (f) => f.st.disabled || f.st.readonly || (scenario.inForm && (form.disabled || form.readonly));
    const drag = (f, type, files) => {
        const e = new window.Event(type, { bubbles: true, cancelable: true });
        Object.defineProperty(e, 'dataTransfer', { value: { files: files ?? [], items: [], types: ['Files'] } });
        // what is dragged is over the innermost element
        (box(f).querySelector('.vs-file-drop-content') ?? box(f)).dispatchEvent(e);
        return e;
    };
    /** a selection offered to the field: taken as a whole or refused as a whole */
    const offer = (f, files) => {
        if (locked(f)) return sim.probe('offered-while-locked');
        if (!files.length) return;
        const n = files.length;
        if ((!f.st.multiple && n > 1) || n < Number(f.st.min) || n > Number(f.st.max)) {
            f.why = true;
            sim.probe('refused');
            return;
        }
        sim.probe('accepted');
        f.why = false;
        f.held = [...files];
    };
    function perform(op) {
        const f = fields[op.i];
        switch (op.k) {
            case 'enter': case 'over': {
                drag(f, `drag${op.k}`);
                f.over = locked(f) ? null : true;
                return;
            }
            case 'leave': drag(f, 'dragleave'); f.over = false; return;
            case 'drop': {
                drag(f, 'drop', op.files.map((i) => POOL[i]));
                f.over = false;
                if (!locked(f)) f.expectDrops.push(op.files);
                return offer(f, op.files);
            }
            case 'dialog': {
                const el = input(f);
                // the browser's picker may have been opened earlier; a disabled input gets no selection
                Object.defineProperty(el, 'files', { configurable: true, value: op.files.map((i) => POOL[i]) });
                el.dispatchEvent(new window.Event('input', { bubbles: true }));
                el.dispatchEvent(new window.Event('change', { bubbles: true }));
                Object.defineProperty(el, 'files', { configurable: true, value: [] });
                return offer(f, op.files);
            }
            case 'take': {
                if (f.slot || !f.held.length) return;
                const at = op.n % f.held.length;
                const chips = [...f.root.querySelectorAll('.vs-chip')];
                expect(chips.length === f.held.length, 'file-list', () => `${chips.length} files are listed, ${f.held.length} are held`);
                const b = chips[at].querySelector('button');
                expect(!b === locked(f), 'removable', () => `a ${locked(f) ? 'locked' : 'free'} field ${b ? 'offers' : 'does not offer'} to remove a file`);
                if (!b) return;
                sim.probe('taken-out');
                env.click(b);
                f.held.splice(at, 1);
                if (f.held.length < Number(f.st.min)) f.why = true;
                else if (f.why) f.why = null;
                return;
            }
            case 'clear': {
                if (op.button && !f.slot) {
                    const b = f.root.querySelector('.vs-file-drop-close-button');
                    expect(!!b === (!locked(f) && !f.noClear && f.held.length > 0), 'clearable', () => `the field ${b ? 'offers' : 'does not offer'} to clear ${f.held.length} files while ${locked(f) ? 'locked' : 'free'}`);
                    if (!b) return;
                    env.click(b);
                } else f.vm.clear();
                f.held = [];
                f.why = false;
                return;
            }
            case 'open': {
                const e = new window.KeyboardEvent('keydown', { key: 'Enter', code: 'Enter', bubbles: true, cancelable: true });
                input(f).dispatchEvent(e);
                return;
            }
            case 'write': {
                f.st.v = op.files.map((i) => POOL[i]);
                f.held = [...op.files];
                sim.probe('written');
                return;
            }
            case 'disabled': case 'readonly': {
                f.st[op.k] = op.v;
                if (f.over) f.over = null;
                return;
            }
            case 'formDisabled': case 'formReadonly':
                form[op.k === 'formDisabled' ? 'disabled' : 'readonly'] = op.v;
                for (const x of fields) if (x.over) x.over = null;
                return;
            case 'limits': [f.st.min, f.st.max] = op.l; f.st.multiple = op.multiple; return;
            case 'validate': {
                const bad = (f.required && !f.held.length) || (f.accept && f.held.some((i) => !accepts(f.accept, POOL[i])));
                const ok = f.vm.validate();
                expect(ok === !bad, 'validity', () => `validating ${show(f.held.map((i) => NAMES[i]))} against ${show(f.accept)}${f.required ? ', required,' : ''} answered ${ok}`);
                sim.probe(bad ? 'not-acceptable' : 'acceptable');
                return;
            }
        }
    }
    sim.invariants.push(() => {
        for (const f of fields) {
            const model = f.st.v.map(id);
            expect(show(model) === show(f.held), 'held', () => `${f.name} holds ${show(model)} instead of ${show(f.held)}`);
            expect(show(f.drops) === show(f.expectDrops), 'drop-event', () => `${f.name} announced the drops ${show(f.drops)} instead of ${show(f.expectDrops)}`);
            f.drops = [];
            f.expectDrops = [];
            if (!f.slot) {
                const listed = [...f.root.querySelectorAll('.vs-chip')].map((c) => c.textContent.split('(')[0].trim());
                const names = f.held.map((i) => NAMES[i]);
                expect(show(listed) === show(names), 'file-list', () => `${f.name} lists ${show(listed)} while it holds ${show(names)}`);
            }
            if (!f.accept && !f.required && f.why !== null) {
                const said = f.root.querySelectorAll('.vs-message-text').length;
                expect(f.why ? said === 1 : said === 0, 'says-why', () => `${f.name} shows ${said} message(s) after ${f.why ? 'a refusal' : 'an accepted selection or none'}`);
            }
            const dragging = f.slot ? f.root.querySelector('.own').textContent === 'true' : box(f).classList.contains('vs-dragging');
            if (f.over !== null) expect(dragging === f.over, 'dragging', () => `${f.name} ${dragging ? 'shows' : 'does not show'} that something is dragged over it`);
            if (dragging) sim.probe('dragging');
        }
        sim.state(fields.map((f) => `${f.held}${f.why}${f.over}${locked(f)}`).join('|'));
    });
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    app.unmount();
}

const accepts = (accept, file) =>
    accept.split(',').map((a) => a.trim()).some((a) => {
        if (a.startsWith('.')) return file.name.toLowerCase().endsWith(a.toLowerCase());
        if (a.endsWith('/*')) return file.type.startsWith(a.slice(0, -1));
        return a === file.type;
    });

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['VsFileDrop and its rules, VsChip, VsInputWrapper, VsForm, input composables', 'Vue runtime'], stub: ['clock, timers', 'drag and drop, file picker', 'DOM (jsdom)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: [],
        nontrivial: (r) => (r.probes.accepted ?? 0) > 0 && ((r.probes.refused ?? 0) > 0 || (r.probes['taken-out'] ?? 0) > 0),
        rule: 'a run is non-trivial if a selection was accepted and another was refused or a file was removed; distinct = distinct sequences of task labels',
    };
}
