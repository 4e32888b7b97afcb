// Theme world (S01): starts, toggles, assignments and page reloads over a storage that fails at chosen operations.
import { schedule, setup, timeline } from '../lib/uiworld.mjs';

const KINDS = { toggle: 5, button: 3, assign: 2.5, reload: 4, crash: 1, breakRead: 1.2, breakWrite: 1.2, heal: 1.5, prefer: 1, garbage: 0.6, forget: 0.5, configure: 0.8 };

export function generate(property, rng, size) {
    const faulty = rng.bool(0.6);
    const weights = rng.swarm(KINDS, 0.9);
    weights.toggle = Math.max(weights.toggle, 2);
    weights.reload = Math.max(weights.reload, 2);
    if (!faulty) for (const k of ['breakRead', 'breakWrite', 'garbage']) weights[k] = 0;
    const tl = timeline(rng, { paces: [1, 20, 200], faulty: false });
    const nOps = rng.range(3, size ?? 24);
    for (let i = 0; i < nOps; i++) {
        const k = rng.weighted(weights);
        switch (k) {
            case 'assign': case 'configure': tl.add({ k, v: rng.pick(['light', 'dark']) }); break;
            case 'prefer': tl.add({ k, v: rng.bool(0.5) }); break;
            case 'garbage': tl.add({ k, v: rng.pick(['', 'DARK', 'null', '{"theme":"dark"}', 'undefined', '\u0000']) }); break;
            default: tl.add({ k });
        }
    }
    return { property, tie: rng.u32(), policy: 'time', faulty, option: rng.pick(['light', 'dark', null]), dark: rng.bool(0.4), saved: rng.pick([null, null, 'dark', 'light']), ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { document, window, storage } = env;
    const root = document.documentElement;
    let option = scenario.option;
    env.prefersDark = !!scenario.dark;
    let broken = { read: false, write: false };
    storage.failRead = () => broken.read;
    storage.failWrite = () => broken.write;
    let theme = 'light'; // current theme; null: either is acceptable
    let vs, app, button, changes;
    let dark;
    // where the theme is remembered is the library's business: find the entry it writes
    let entry = null;
    const remembered = () => (entry === null ? null : storage.data.get(entry) ?? null);
    const valid = (v) => v === 'dark' || v === 'light';

    function start() {
        const { V, Vue } = env.load();
        const host = document.createElement('div');
        document.body.appendChild(host);
        const saved = remembered();
        const fallback = env.prefersDark || option === 'dark' ? 'dark' : 'light';
        if (broken.read) theme = fallback;
        else if (valid(saved)) {
            theme = saved;
            sim.probe('restored');
        } else theme = saved === null ? fallback : null;
        changes = [];
        let plugin;
        try {
            plugin = V.createVlossom({ components: V.VlossomComponents, ...(option ? { theme: option } : {}) });
        } catch (e) {
            expect(false, 'start-failed', `starting up failed: ${e.message}`);
        }
        app = Vue.createApp({ render: () => Vue.h(V.VsThemeButton, { onChange: (v) => changes.push(v) }) });
        app.config.errorHandler = (error, _i, info) => sim.reportError(`vue ${info}`, error);
        app.use(plugin);
        app.mount(host);
        vs = app.config.globalProperties.$vs;
        button = host.querySelector('button');
        if (theme === null) theme = vs.theme;
        dark = null;
    }
    function stop(clean) {
        if (clean) app.unmount();
        document.body.innerHTML = '';
        root.removeAttribute('class');
    }
    function flip(by) {
        const to = theme === 'dark' ? 'light' : 'dark';
        const before = remembered();
        changes.length = 0;
        if (by === 'button') env.click(button);
        else {
            try {
                vs.toggleTheme();
            } catch (e) {
                expect(false, 'toggle-failed', `toggling failed: ${e.message}`);
            }
        }
        theme = to;
        sim.probe(broken.write ? 'toggled-without-storage' : 'toggled');
        dark = { to, before, by, writable: !broken.write };
    }
    // find out where the theme is kept, with a throwaway start on a working storage
    {
        const { V, Vue } = env.load();
        const a = Vue.createApp({ render: () => null });
        a.use(V.createVlossom({ components: {} }));
        a.config.globalProperties.$vs.toggleTheme();
        entry = [...storage.data].find(([, v]) => valid(v))?.[0] ?? null;
        expect(entry !== null, 'not-remembered', 'toggling the theme stored nothing');
        storage.clear();
        document.body.innerHTML = '';
        root.removeAttribute('class');
        if (scenario.saved) storage.data.set(entry, scenario.saved);
    }
    start();
    function perform(op) {
        dark = null;
        switch (op.k) {
            case 'toggle': case 'button': flip(op.k); break;
            case 'assign': vs.theme = theme = op.v; break;
            case 'reload': case 'crash': stop(op.k === 'reload'); start(); sim.probe('started'); break;
            case 'breakRead': broken = { ...broken, read: true }; break;
            case 'breakWrite': broken = { ...broken, write: true }; break;
            case 'heal': broken = { read: false, write: false }; break;
            case 'prefer': env.prefersDark = op.v; break;
            case 'configure': option = op.v; break;
            case 'garbage': storage.data.set(entry, op.v); sim.fault('storage-garbage'); break;
            case 'forget': storage.data.delete(entry); break;
        }
    }
    sim.invariants.push(() => {
        expect(vs.theme === theme, 'theme', () => `the theme is ${vs.theme}, expected ${theme}`);
        expect(root.classList.contains('vs-dark') === (theme === 'dark'), 'marker', () => `the dark marker is ${root.classList.contains('vs-dark')} although the theme is ${theme}`);
        expect(/dark/.test(button.getAttribute('aria-label')) === (theme === 'light'), 'button', () => `the theme button says "${button.getAttribute('aria-label')}" although the theme is ${theme}`);
        if (dark) {
            const want = dark.writable ? dark.to : dark.before;
            expect(remembered() === want, 'remembered', () => `after toggling to ${dark.to} the remembered theme is ${remembered()}, expected ${want}`);
            if (dark.by === 'button') expect(changes.length === 1 && changes[0] === (dark.to === 'dark'), 'announced', () => `the button announced ${JSON.stringify(changes)} for a change to ${dark.to}`);
            dark = null;
        }
        sim.state(`${theme}|${remembered()}|${broken.read}${broken.write}${env.prefersDark}${option}`);
    });
    void window;
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        components: { real: ['Vlossom class and plugin', 'options store', 'VsThemeButton, VsToggle', 'Vue runtime'], stub: ['local storage (with injected failures)', 'media query', 'page reload (fresh evaluation of the library on an emptied page)', 'clock', 'DOM (jsdom)'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        nontrivial: (r) => (r.probes.started ?? 0) > 0 && ((r.probes.toggled ?? 0) > 0 || (r.probes['toggled-without-storage'] ?? 0) > 0),
        rule: 'a run is non-trivial if the theme was toggled and the page restarted; distinct = distinct sequences of operations',
    };
}
