// A browser-like environment whose every nondeterministic source belongs to the simulator.
// Real code: the UI library bundle and Vue. Simulated: clock, timers, frames, observers, storage, media query,
// clipboard, layout geometry, randomness. The DOM itself is jsdom (synchronous and deterministic).
import { createRequire } from 'node:module';
import { readFileSync } from 'node:fs';
import path from 'node:path';
import vm from 'node:vm';
import { UI } from './build.mjs';
import { Rng } from './rng.mjs';

const req = createRequire(path.join(UI, 'package.json'));
const { JSDOM, VirtualConsole } = req('jsdom');

let compiled = null;
function compile(file, names) {
    const key = file + '|' + names.length;
    if (compiled?.key === key) return compiled.script;
    const code = readFileSync(file, 'utf8');
    const script = new vm.Script(`(function(exports,require,module,${names.join(',')}){(function(){${code}\n})();})`, { filename: file });
    compiled = { key, script };
    return script;
}

const RESERVED = new Set([
    'undefined', 'NaN', 'Infinity', 'eval', 'globalThis', 'Object', 'Function', 'Array', 'Number', 'Boolean', 'String',
    'Symbol', 'Promise', 'RegExp', 'Error', 'JSON', 'Map', 'Set', 'WeakMap', 'WeakSet', 'WeakRef', 'Proxy', 'Reflect',
    'BigInt', 'Intl', 'ArrayBuffer', 'DataView', 'console', 'Math', 'Date', 'parseInt', 'parseFloat', 'isNaN', 'isFinite',
    'TypeError', 'RangeError', 'SyntaxError', 'EvalError', 'ReferenceError', 'URIError', 'AggregateError', 'Atomics',
    'SharedArrayBuffer', 'FinalizationRegistry', 'WebAssembly', 'Iterator', 'Uint8Array', 'Int8Array', 'Uint16Array',
    'Int16Array', 'Uint32Array', 'Int32Array', 'Float32Array', 'Float64Array', 'Uint8ClampedArray', 'BigInt64Array',
    'BigUint64Array', 'escape', 'unescape', 'encodeURI', 'decodeURI', 'encodeURIComponent', 'decodeURIComponent',
    'arguments', 'queueMicrotask', 'structuredClone', 'AsyncDisposableStack', 'DisposableStack', 'SuppressedError', 'Float16Array',
]);

class SimStorage {
    constructor(sim, initial = {}) {
        this.sim = sim;
        this.data = new Map(Object.entries(initial));
        this.failRead = () => false;
        this.failWrite = () => false;
    }
    get length() {
        return this.data.size;
    }
    key(i) {
        return [...this.data.keys()][i] ?? null;
    }
    getItem(k) {
        if (this.failRead(k)) {
            this.sim.fault('storage-read');
            throw new Error('SecurityError: storage is not available (injected)');
        }
        return this.data.has(String(k)) ? this.data.get(String(k)) : null;
    }
    setItem(k, v) {
        if (this.failWrite(k)) {
            this.sim.fault('storage-write');
            throw new Error('QuotaExceededError (injected)');
        }
        this.data.set(String(k), String(v));
    }
    removeItem(k) {
        if (this.failWrite(k)) {
            this.sim.fault('storage-write');
            throw new Error('SecurityError (injected)');
        }
        this.data.delete(String(k));
    }
    clear() {
        this.data.clear();
    }
}

export function createUiEnv(sim, bundleFile, options = {}) {
    const virtualConsole = new VirtualConsole();
    virtualConsole.on('jsdomError', (error) => {
        const inner = error?.cause ?? error?.detail ?? error;
        if (/Not implemented/.test(String(error?.message))) return;
        sim.reportError('uncaught in event listener', inner);
    });
    const dom = new JSDOM('<!doctype html><html><head></head><body></body></html>', {
        url: 'http://localhost/',
        virtualConsole,
        pretendToBeVisual: false,
    });
    const { window } = dom;
    const { document } = window;
    const env = { sim, dom, window, document, consoleLines: [], copied: [] };

    // clock, timers, frames
    const api = sim.api();
    for (const k in api) window[k] = api[k];
    const SimDate = sim.makeDate();
    const performance = { now: () => sim.now, mark() {}, measure() {}, timeOrigin: sim.epoch };

    // randomness
    const random = new Rng(`env|${sim.tie}`);
    const SimMath = Object.create(Math, { random: { value: () => random.float() } });
    const crypto = {
        getRandomValues(array) {
            for (let i = 0; i < array.length; i++) array[i] = random.u32();
            return array;
        },
        randomUUID: () => `00000000-0000-4000-8000-${random.u32().toString(16).padStart(12, '0')}`,
    };

    // listeners on window and document
    env.listeners = [];
    for (const [name, target] of [['window', window], ['document', document]]) {
        const add = target.addEventListener;
        const remove = target.removeEventListener;
        const capture = (o) => (typeof o === 'boolean' ? o : !!o?.capture);
        target.addEventListener = function (type, fn, opts) {
            if (fn) {
                const entry = { target: name, type, fn, capture: capture(opts) };
                if (!env.listeners.some((l) => l.target === name && l.type === type && l.fn === fn && l.capture === entry.capture)) {
                    env.listeners.push(entry);
                }
            }
            return add.call(this ?? target, type, fn, opts);
        };
        target.removeEventListener = function (type, fn, opts) {
            env.listeners = env.listeners.filter(
                (l) => !(l.target === name && l.type === type && l.fn === fn && l.capture === capture(opts)),
            );
            return remove.call(this ?? target, type, fn, opts);
        };
    }

    // geometry
    env.rects = new WeakMap();
    env.rectOf = (el) => {
        const r = env.rects.get(el);
        const v = typeof r === 'function' ? r() : r;
        const { x = 0, y = 0, w = 0, h = 0 } = v ?? env.defaultRect?.(el) ?? {};
        return { x, y, width: w, height: h, top: y, left: x, right: x + w, bottom: y + h, toJSON() {} };
    };
    window.Element.prototype.getBoundingClientRect = function () {
        return env.rectOf(this);
    };
    // a browser does not focus what is not rendered
    const nativeFocus = window.HTMLElement.prototype.focus;
    window.HTMLElement.prototype.focus = function (...args) {
        for (let e = this; e && e.nodeType === 1; e = e.parentElement) if (e.style?.display === 'none') return;
        nativeFocus.apply(this, args);
    };
    Object.defineProperty(window.HTMLElement.prototype, 'innerText', { configurable: true, get() { return this.textContent; }, set(v) { this.textContent = v; } });
    window.Element.prototype.scrollIntoView = function () {};
    window.Element.prototype.scrollTo = function () {};
    window.scrollTo = () => {};

    // observers: delivery is a task of its own stream, so it races with everything else
    env.observers = new Set();
    let observerCount = 0;
    class SimObserverBase {
        constructor(callback, kind, opts) {
            this.callback = callback;
            this.kind = kind;
            this.opts = opts;
            this.targets = new Set();
            this.queue = [];
            this.n = ++observerCount;
            this.scheduled = false;
        }
        observe(el) {
            if (!el) throw new TypeError('observe: not an element');
            if (this.targets.has(el)) return;
            this.targets.add(el);
            env.observers.add(this);
            this.enqueue(el);
        }
        unobserve(el) {
            this.targets.delete(el);
            this.queue = this.queue.filter((q) => q.target !== el);
            if (this.targets.size === 0) env.observers.delete(this);
        }
        disconnect() {
            this.targets.clear();
            this.queue = [];
            env.observers.delete(this);
        }
        takeRecords() {
            const out = this.queue;
            this.queue = [];
            return out;
        }
        enqueue(el) {
            if (this.kind !== 'intersect') this.queue = this.queue.filter((q) => q.target !== el);
            this.queue.push(this.entry(el));
            if (this.scheduled) return;
            this.scheduled = true;
            const lat = env.observerLatency?.(this) ?? 1 + sim.rollInt(`${this.kind}${this.n}@${sim.steps}`, 24);
            sim.after(lat, `${this.kind}${this.n}`, `deliver ${this.kind}`, () => {
                this.scheduled = false;
                const entries = this.queue.filter((q) => this.targets.has(q.target));
                this.queue = [];
                if (entries.length) this.callback(entries, this);
            });
        }
    }
    class ResizeObserver extends SimObserverBase {
        constructor(cb) {
            super(cb, 'resize');
        }
        entry(el) {
            const r = env.rectOf(el);
            return { target: el, contentRect: r, borderBoxSize: [{ inlineSize: r.width, blockSize: r.height }] };
        }
    }
    env.inView = new WeakMap();
    class IntersectionObserver extends SimObserverBase {
        constructor(cb, opts = {}) {
            super(cb, 'intersect', opts);
            this.root = opts.root ?? null;
            this.rootMargin = opts.rootMargin ?? '0px';
            this.thresholds = [].concat(opts.threshold ?? 0);
            this.seen = new WeakMap();
        }
        // as in browsers: one entry when observation starts and one per change, kept apart until delivered
        observe(el) {
            if (el && !this.targets.has(el)) this.seen.delete(el);
            super.observe(el);
        }
        enqueue(el) {
            const now = this.entry(el).isIntersecting;
            if (this.seen.get(el) === now) return;
            this.seen.set(el, now);
            super.enqueue(el);
        }
        entry(el) {
            const isIntersecting = !!(env.inView.get(el) ?? env.defaultInView?.(el) ?? false);
            return {
                target: el,
                isIntersecting,
                intersectionRatio: isIntersecting ? 1 : 0,
                boundingClientRect: env.rectOf(el),
                time: sim.now,
            };
        }
    }
    window.ResizeObserver = ResizeObserver;
    window.IntersectionObserver = IntersectionObserver;
    env.notifyResize = (el) => {
        for (const o of env.observers) if (o.kind === 'resize' && o.targets.has(el)) o.enqueue(el);
    };
    env.setInView = (el, v) => {
        env.inView.set(el, v);
        for (const o of env.observers) if (o.kind === 'intersect' && o.targets.has(el)) o.enqueue(el);
    };

    // storage, media, clipboard
    env.storage = options.storage ?? new SimStorage(sim, options.storageData);
    Object.defineProperty(window, 'localStorage', { configurable: true, get: () => env.storage });
    env.prefersDark = !!options.prefersDark;
    window.matchMedia = (query) => ({
        matches: /dark/.test(query) ? env.prefersDark : false,
        media: query,
        addEventListener() {},
        removeEventListener() {},
        addListener() {},
        removeListener() {},
    });
    env.clipboardWrite = () => Promise.resolve();
    Object.defineProperty(window.navigator, 'clipboard', {
        configurable: true,
        value: { writeText: (text) => env.clipboardWrite(text) },
    });
    if (!window.PointerEvent) window.PointerEvent = window.MouseEvent;

    const simConsole = {};
    for (const k of ['log', 'info', 'debug', 'warn', 'error', 'trace', 'group', 'groupEnd']) {
        simConsole[k] = (...args) => {
            env.consoleLines.push(`${k}: ${args.map((a) => (a instanceof Error ? a.message : String(a))).join(' ')}`);
        };
    }
    window.console = simConsole;

    const own = {
        window, self: window, globalThis: window, document, navigator: window.navigator, localStorage: env.storage,
        ...api, Date: SimDate, Math: SimMath, performance, crypto, console: simConsole,
        ResizeObserver, IntersectionObserver, process: { env: { NODE_ENV: 'production' } },
        matchMedia: window.matchMedia, setImmediate: (fn, ...a) => api.setTimeout(fn, 0, ...a),
        MessageChannel: undefined,
    };
    for (const [name, value] of Object.entries({ Date: SimDate, Math: SimMath, performance, crypto })) {
        Object.defineProperty(window, name, { configurable: true, writable: true, value });
    }
    const names = Object.keys(own);
    const values = names.map((n) => own[n]);
    const extra = Object.getOwnPropertyNames(window).filter(
        (n) => /^[A-Za-z_$][\w$]*$/.test(n) && !RESERVED.has(n) && !(n in own) && n !== 'top' && n !== 'parent' && n !== 'name' && n !== 'status' && n !== 'length' && n !== 'event' && n !== 'open' && n !== 'close' && n !== 'stop' && n !== 'find' && n !== 'print' && n !== 'focus' && n !== 'blur' && n !== 'alert' && n !== 'confirm' && n !== 'prompt' && n !== 'external' && n !== 'origin',
    );
    for (const n of extra) {
        names.push(n);
        let v;
        try {
            v = window[n];
            if (typeof v === 'function' && /^[a-z]/.test(n)) v = v.bind(window);
        } catch {
            v = undefined;
        }
        values.push(v);
    }
    env.load = () => {
        const script = compile(bundleFile, names);
        const module = { exports: {} };
        script.runInThisContext()(module.exports, req, module, ...values);
        return module.exports;
    };
    const { V, Vue } = env.load();
    env.V = V;
    env.Vue = Vue;

    env.apps = [];
    /** mounts a root component the way an application does: createApp, app.use(createVlossom), mount */
    env.mountApp = (root, vlossomOptions = {}) => {
        const host = document.createElement('div');
        host.id = `app${env.apps.length}`;
        document.body.appendChild(host);
        const app = Vue.createApp(root);
        app.config.errorHandler = (error, _instance, info) => sim.reportError(`vue ${info}`, error);
        app.use(V.createVlossom({ components: V.VlossomComponents, ...vlossomOptions }));
        const vm = app.mount(host);
        env.apps.push(app);
        return { app, vm, host };
    };
    env.key = (code, target = null, init = {}) => {
        const el = target ?? document.activeElement ?? document.body;
        const event = new window.KeyboardEvent('keydown', { key: init.key ?? code, code, bubbles: true, cancelable: true, ...init });
        el.dispatchEvent(event);
        return event;
    };
    env.mouse = (el, type, init = {}) => {
        const bubbles = !/^(mouseenter|mouseleave)$/.test(type);
        const event = new window.MouseEvent(type, { bubbles, cancelable: true, ...init });
        el.dispatchEvent(event);
        return event;
    };
    env.click = (el) => {
        env.mouse(el, 'mousedown');
        env.mouse(el, 'mouseup');
        return env.mouse(el, 'click');
    };
    env.dispose = () => {
        try {
            window.close();
        } catch {
            /* ignore */
        }
    };
    return env;
}
export { SimStorage };
