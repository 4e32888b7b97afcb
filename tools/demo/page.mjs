// A page with the built library on it (real timers), for the demonstrations.
import { createRequire } from 'node:module';
import { readFileSync } from 'node:fs';
import path from 'node:path';

const UI = path.join(process.cwd(), 'packages/vlossom');
const require = createRequire(path.join(UI, 'package.json'));

export const sleep = (ms) => new Promise((r) => setTimeout(r, ms));

export function openPage({ storage } = {}) {
    const { JSDOM, VirtualConsole } = require('jsdom');
    const dom = new JSDOM('<!doctype html><html><body></body></html>', { runScripts: 'outside-only', pretendToBeVisual: true, url: 'http://localhost/', virtualConsole: new VirtualConsole() });
    const { window } = dom;
    const observers = [];
    class Observer {
        constructor(cb) {
            this.cb = cb;
            this.els = new Set();
            observers.push(this);
        }
        observe(el) { this.els.add(el); }
        unobserve(el) { this.els.delete(el); }
        disconnect() { this.els.clear(); }
        takeRecords() { return []; }
    }
    window.ResizeObserver = class extends Observer {};
    window.IntersectionObserver = class extends Observer {};
    window.matchMedia = () => ({ matches: false, addEventListener() {}, removeEventListener() {}, addListener() {}, removeListener() {} });
    window.Element.prototype.scrollIntoView = () => {};
    window.Element.prototype.scrollTo = () => {};
    if (storage) Object.defineProperty(window, 'localStorage', { configurable: true, value: storage });
    window.eval(readFileSync(path.join(path.dirname(require.resolve('vue/package.json')), 'dist/vue.runtime.global.js'), 'utf8'));
    window.eval(readFileSync(path.join(UI, 'dist/vlossom.umd.js'), 'utf8'));
    const { Vue, Vlossom: V, document } = window;
    const page = {
        window, document, Vue, V, observers, h: Vue.h,
        mount(render, options = {}) {
            const host = document.createElement('div');
            document.body.appendChild(host);
            const app = Vue.createApp({ render });
            app.use(V.createVlossom({ components: V.VlossomComponents, ...options }));
            app.config.errorHandler = () => {};
            app.config.warnHandler = () => {};
            app.mount(host);
            return { app, host, vs: app.config.globalProperties.$vs ?? V.useVlossom?.() };
        },
        key(code, target = document.body) {
            const e = new window.KeyboardEvent('keydown', { code, key: code, bubbles: true, cancelable: true });
            target.dispatchEvent(e);
            return e;
        },
        type(el, text) {
            el.value = text;
            el.dispatchEvent(new window.Event('input', { bubbles: true }));
        },
        mouse(el, type) {
            el.dispatchEvent(new window.MouseEvent(type, { bubbles: !/enter|leave/.test(type), cancelable: true }));
        },
    };
    return page;
}

let failed = 0;
export function must(ok, what) {
    if (ok) return;
    failed++;
    console.log(`FAILED: ${what}`);
}
export function done() {
    console.log(failed ? `${failed} expectations failed` : 'ok');
    process.exit(failed ? 1 : 0);
}
