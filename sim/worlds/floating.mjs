// Floating content world (P02 position, P03 tooltip visibility).
import { schedule, setup, timeline } from '../lib/uiworld.mjs';

const VIEW = { w: 1000, h: 800 };
const RECT = { x: 0, y: 0, w: 10, h: 10 };

// ------------------------------------------------------------------ P03
const W3 = { enter: 6, leave: 6, content: 3, click: 3, escape: 1.2, disable: 0.8, pass: 1.5 };
const FADE = 250;
const GRACE = 100;

function generate3(property, rng, size) {
    const faulty = rng.bool(0.4);
    const weights = rng.swarm(W3, 0.9);
    weights.enter = Math.max(weights.enter, 4);
    weights.leave = Math.max(weights.leave, 3);
    const n = rng.range(1, 2);
    const tips = Array.from({ length: n }, (_, i) => ({
        name: `t${i}`, clickable: rng.bool(0.35), hoverable: rng.bool(0.5), esc: rng.bool(0.8), still: rng.bool(0.3), disabled: rng.bool(0.1), external: rng.bool(0.4),
        enterDelay: rng.pick([0, 0, 50, 200, 500]), leaveDelay: rng.pick([0, 0, 60, 300]),
    }));
    const tl = timeline(rng, { paces: [15, 60, 150, 400], faulty });
    const nOps = rng.range(4, size ?? 26);
    for (let j = 0; j < nOps; j++) {
        const k = rng.weighted(weights);
        const i = rng.int(n);
        if (k === 'disable') tl.add({ k, i, v: rng.bool(0.5) });
        else tl.add({ k, i });
        if (k === 'pass') {
            tl.gap(rng.pick([1, 20, 49, 60, 190, 210]));
            tl.add({ k: 'leave', i });
        }
        if (k === 'leave' && rng.bool(0.4)) {
            tl.gap(rng.pick([5, 50, 95]));
            tl.add({ k: rng.bool(0.6) ? 'content' : 'enter', i });
        }
        if (rng.bool(0.15)) tl.gap(rng.pick([99, 101, 251, 400, 900]));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, tips, ops: tl.ops };
}

async function run3(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, document } = env;
    const { h, shallowReactive, markRaw } = Vue;
    const tips = scenario.tips.map((d) => markRaw({ ...d, st: shallowReactive({ disabled: d.disabled }), el: null, at: 'away', opened: false, dismissed: false, leftAt: -1e9, isTrue: null, isFalse: { at: -1e9, on: false }, notTrue: { at: -1e9, on: false }, notFalse: null, want: false, on: false }));
    env.mountApp({
        render: () => h('main', [
            h('p', { class: 'away' }),
            tips.map((t) => [
                t.external ? h('button', { key: `b${t.name}`, id: `ext-${t.name}` }, t.name) : null,
                h(V.VsTooltip, {
                    key: t.name, ...(t.external ? { target: `#ext-${t.name}` } : {}), clickable: t.clickable, contentsHover: t.hoverable, escClose: t.esc, noAnimation: t.still,
                    disabled: t.st.disabled, enterDelay: t.enterDelay, leaveDelay: t.leaveDelay,
                }, { ...(t.external ? {} : { default: () => h('button', { id: `in-${t.name}` }, t.name) }), tooltip: () => h('i', { ref: (el) => (t.el = el ?? t.el) }) }),
            ]),
        ]),
    });
    const trigger = (t) => (t.external ? document.getElementById(`ext-${t.name}`) : document.getElementById(`in-${t.name}`).closest('.vs-tooltip-trigger'));
    const onScreen = (t) => !!t.el?.isConnected;
    const body = (t) => t.el.closest('.vs-tooltip');
    // does the trigger ask for the tooltip? true, false, or null when either answer is acceptable
    const asks = (t) => {
        if (t.st.disabled) return false;
        if (t.clickable && !t.opened) return false;
        if (t.dismissed) return false;
        if (t.at === 'trigger') return true;
        if (!t.hoverable) return false;
        if (t.at === 'content') return true;
        return t.travels && sim.now <= t.leftAt + GRACE ? null : false;
    };
    const forget = (t) => {
        // away for longer than the grace time: a click no longer counts
        if (t.at === 'away' && (!t.hoverable || !t.travels || sim.now > t.leftAt + GRACE)) t.opened = false;
    };
    // runs of asked / not asked, and whether the tooltip was on screen when each began
    const settle = (t) => {
        const a = asks(t);
        if (t.want === a) return;
        const mark = () => ({ at: sim.now, on: onScreen(t) });
        if (a === true) t.isTrue = mark();
        if (a === false) t.isFalse = mark();
        if (t.want === true) t.notTrue = mark();
        if (t.want === false) t.notFalse = mark();
        t.want = a;
    };
    function perform(op) {
        tips.forEach((t) => {
            forget(t);
            settle(t);
        });
        const t = tips[op.i ?? 0];
        // one pointer: it leaves whatever it was on
        const goAway = (x) => {
            if (x.at === 'away') return;
            const el = x.at === 'trigger' ? trigger(x) : body(x);
            const gone = x.at === 'content' && !x.el.isConnected;
            x.travels = x.hoverable && onScreen(x) && asks(x) === true;
            x.at = 'away';
            x.dismissed = false;
            x.leftAt = sim.now;
            if (!gone) env.mouse(el, 'mouseleave');
        };
        switch (op.k) {
            case 'enter': case 'pass':
                if (t.at === 'trigger') break;
                tips.forEach(goAway);
                forget(t);
                t.at = 'trigger';
                env.mouse(trigger(t), 'mouseenter');
                break;
            case 'leave': tips.forEach(goAway); break;
            case 'content':
                if (!onScreen(t) || t.at === 'content') break;
                tips.forEach(goAway);
                forget(t);
                if (!onScreen(t)) break;
                t.at = 'content';
                sim.probe('content-entered');
                env.mouse(body(t), 'mouseenter');
                break;
            case 'click':
                if (t.at !== 'trigger') break;
                if (t.clickable) t.opened = !t.opened;
                env.mouse(trigger(t), 'click');
                break;
            case 'disable': t.st.disabled = op.v; break;
            case 'escape': {
                const asking = tips.filter((x) => asks(x) !== false || onScreen(x));
                const top = tips.filter((x) => asks(x) === true && x.esc);
                const ev = env.key('Escape');
                if (!asking.length) expect(!ev.defaultPrevented, 'swallowed', 'Escape was swallowed with no tooltip on screen or about to appear');
                if (top.length === 1 && asking.length === 1) {
                    const x = top[0];
                    sim.probe('dismissed');
                    if (x.clickable) x.opened = false;
                    else x.dismissed = true;
                } else if (ev.defaultPrevented) {
                    // with several candidates the newest one is dismissed; which one that is is another property's business
                    for (const x of asking) {
                        if (asking.length === 1 && asks(x) === null) x.opened = x.travels = false;
                        else x.loose = true;
                    }
                }
            }
        }
        tips.forEach(settle);
    }
    const stalled = scenario.ops.some((o) => o.k === 'stall' || o.k === 'hold');
    const known = (t) => !t.loose;
    sim.invariants.push(() => {
        for (const t of tips) {
            forget(t);
            settle(t);
            const on = onScreen(t);
            if (on !== t.on) {
                t.on = on;
                if (on) sim.probe('appeared');
                else sim.probe('disappeared');
            }
            if (t.loose) {
                // known again once it has been left alone for long enough
                if (t.at !== 'away' || sim.now <= t.leftAt + GRACE + t.leaveDelay + FADE + 50) continue;
                t.loose = t.dismissed = false;
                t.isFalse = { at: sim.now, on };
            }
            if (stalled || !known(t)) continue;
            const since = (m) => sim.now - m.at;
            if (t.want === true) {
                if (since(t.isTrue) > t.enterDelay + 30) expect(on, 'not-shown', () => `${t.name} is not shown ${since(t.isTrue)} ms after it was asked for (delay ${t.enterDelay})`);
                if (t.isTrue.on) expect(on, 'dropped', () => `${t.name} went away although it is asked for`);
            }
            if (t.want !== false && since(t.notFalse) < t.enterDelay && !t.notFalse.on) expect(!on, 'too-early', () => `${t.name} is shown ${since(t.notFalse)} ms after it was asked for (delay ${t.enterDelay})`);
            if (t.want !== true && since(t.notTrue) < t.leaveDelay && t.notTrue.on) expect(on, 'gone-early', () => `${t.name} went ${since(t.notTrue)} ms after it was last asked for (delay ${t.leaveDelay})`);
            if (t.want === null && sim.now < t.leftAt + GRACE) expect(on, 'dropped', () => `${t.name} went away while the pointer was on its way to the content`);
            if (t.want === false) {
                if (since(t.isFalse) > t.leaveDelay + FADE + 30) expect(!on, 'not-hidden', () => `${t.name} is still shown ${since(t.isFalse)} ms after it was last asked for (delay ${t.leaveDelay})`);
                if (!t.isFalse.on) expect(!on, 'uncalled', () => `${t.name} appeared although it is not asked for`);
            }
        }
        sim.state(tips.map((t) => `${t.at}${t.want}${t.on}`).join('|'));
    });
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    sim.now += 1000;
    for (const t of tips) {
        forget(t);
        if (t.loose) continue;
        const want = asks(t) === true;
        expect(onScreen(t) === want, 'at-rest', () => `${t.name} is ${onScreen(t) ? 'shown' : 'not shown'} at rest with the pointer at ${t.at}`);
    }
}

// ------------------------------------------------------------------ P02
const W2 = { show: 4, hide: 2.5, scroll: 8, resize: 2, size: 2, content: 2 };

function generate2(property, rng, size) {
    const faulty = rng.bool(0.4);
    const weights = rng.swarm(W2, 0.9);
    weights.show = Math.max(weights.show, 3);
    weights.scroll = Math.max(weights.scroll, 3);
    const n = rng.range(1, 2);
    const rect = () => ({ x: rng.range(-100, 950), y: rng.range(-100, 780), w: rng.range(10, 300), h: rng.range(5, 120) });
    const floats = Array.from({ length: n }, (_, i) => ({
        name: `f${i}`, placement: rng.pick(['top', 'bottom', 'left', 'right', 'middle']), align: rng.pick(['start', 'center', 'end']), margin: rng.pick([0, 5, 12, '8']), follow: rng.bool(0.3), still: rng.bool(0.3),
        rect: rect(), size: { w: rng.range(20, 300), h: rng.range(10, 400) }, init: rng.bool(0.3),
    }));
    const tl = timeline(rng, { paces: [4, 15, 40, 150], faulty });
    const nOps = rng.range(4, size ?? 26);
    for (let j = 0; j < nOps; j++) {
        const k = rng.weighted(weights);
        const i = rng.int(n);
        switch (k) {
            case 'scroll': {
                const m = rng.weighted({ 1: 3, 2: 2, 4: 2, 8: 1 }) | 0;
                const inner = rng.bool(0.3);
                for (let s = 0; s < m; s++) tl.add({ k, i, inner, dx: rng.range(-20, 20), dy: rng.range(-150, 150) });
                break;
            }
            case 'resize': tl.add({ k, w: rng.range(300, 1400), h: rng.range(200, 1000) }); break;
            case 'size': tl.add({ k, i, rect: rect() }); break;
            case 'content': tl.add({ k, i, w: rng.range(20, 300), h: rng.range(10, 400) }); break;
            default: tl.add({ k, i });
        }
        if (rng.bool(0.12)) tl.gap(rng.pick([29, 31, 110, 260, 500]));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, floats, ops: tl.ops };
}

async function run2(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, document, window } = env;
    const { h, shallowReactive, markRaw } = Vue;
    let scroll = { x: 0, y: 0 };
    let view = { ...VIEW };
    Object.defineProperty(window, 'scrollX', { configurable: true, get: () => scroll.x });
    Object.defineProperty(window, 'scrollY', { configurable: true, get: () => scroll.y });
    Object.defineProperty(window, 'innerWidth', { configurable: true, get: () => view.w });
    Object.defineProperty(window, 'innerHeight', { configurable: true, get: () => view.h });
    const floats = scenario.floats.map((d) => markRaw({ ...d, rect: { ...RECT, ...d.rect }, size: { w: 20, h: 10, ...d.size }, st: shallowReactive({ show: false }), target: null, el: null, movedAt: -1e9, shownAt: -1e9 }));
    const R = (x, y, w, h) => ({ x, y, w, h });
    const box = (f) => {
        // the element that carries the position
        for (let e = f.el; e && e !== document.body; e = e.parentElement) if (e.style.left) return e;
        return null;
    };
    env.defaultRect = (el) => {
        for (const f of floats) {
            if (el === f.target) return R(f.rect.x, f.rect.y, f.rect.w, f.rect.h);
            if (f.el && el.contains(f.el) && el.closest('.vs-floating') === el) return R(0, 0, f.size.w, f.size.h);
        }
        return R(0, 0, 0, 0);
    };
    const { app } = env.mountApp({
        render: () => h('main', [
            h('div', { class: 'scroller' }),
            floats.map((f) => [
                h('button', { key: `b${f.name}`, id: `target-${f.name}`, ref: (el) => (f.target = el ?? f.target) }, f.name),
                h(V.VsFloating, {
                    key: f.name, target: `#target-${f.name}`, placement: f.placement, align: f.align, margin: f.margin, followWidth: f.follow, noAnimation: f.still,
                    modelValue: f.st.show, 'onUpdate:modelValue': (v) => (f.st.show = v),
                }, { default: () => h('i', { ref: (el) => (f.el = el ?? f.el) }) }),
            ]),
        ]),
    });
    const onScreen = (f) => !!f.el?.isConnected;
    const wanted = (f) => {
        const { x, y, w, h: hh } = f.rect;
        const { w: aw, h: ah } = f.size;
        const m = Number(f.margin);
        const room = { top: y, bottom: view.h - (y + hh), left: x, right: view.w - (x + w) };
        const need = { top: ah, bottom: ah, left: aw, right: aw };
        const other = { top: 'bottom', bottom: 'top', left: 'right', right: 'left' };
        let side = f.placement;
        let either = null;
        if (side !== 'middle') {
            const o = other[side];
            // whether the margin counts as needed room, and which side wins a tie, is left open
            if (room[side] < need[side] && room[o] > room[side]) side = o;
            else if (room[side] < need[side] + m && room[o] > room[side]) either = o;
        }
        const along = (a, start, len, alen) => (a === 'start' ? start : a === 'end' ? start + len - alen : start + len / 2 - alen / 2);
        const at = (s) => {
            switch (s) {
                case 'top': return [along(f.align, x, w, aw), y - ah - m];
                case 'bottom': return [along(f.align, x, w, aw), y + hh + m];
                case 'left': return [x - aw - m, along(f.align, y, hh, ah)];
                case 'right': return [x + w + m, along(f.align, y, hh, ah)];
                default: return [along(f.align, x, w, aw), y + hh / 2 - ah / 2];
            }
        };
        return [side, either].filter(Boolean).map((s) => ({ side: s, at: at(s).map((v, i) => v + (i ? scroll.y : scroll.x)) }));
    };
    const judge = (f, when) => {
        const b = box(f);
        const got = b ? [parseFloat(b.style.left), parseFloat(b.style.top)] : null;
        const options = wanted(f);
        const ok = got && options.some((o) => Math.abs(o.at[0] - got[0]) < 0.01 && Math.abs(o.at[1] - got[1]) < 0.01);
        expect(ok, 'misplaced', () => `${f.name} (${f.placement} ${f.align}) is at ${got}, expected ${options.map((o) => `${o.side} ${o.at}`).join(' or ')} (${when})`);
        if (options[0].side !== f.placement) sim.probe('switched-side');
        if (f.follow && b) expect(Math.abs(parseFloat(b.style.width) - f.rect.w) < 0.01, 'width', () => `${f.name} is ${b.style.width} wide, its target ${f.rect.w}px`);
    };
    const moved = (f) => {
        f.movedAt = sim.now;
        if (onScreen(f)) sim.probe('moved-while-open');
    };
    function perform(op) {
        const f = floats[op.i ?? 0];
        switch (op.k) {
            case 'show': f.st.show = true; return;
            case 'hide': f.st.show = false; return;
            case 'scroll':
                if (op.inner) {
                    f.rect.x += op.dx;
                    f.rect.y += op.dy;
                    moved(f);
                    document.querySelector('.scroller').dispatchEvent(new window.Event('scroll'));
                } else {
                    scroll = { x: scroll.x + op.dx, y: scroll.y + op.dy };
                    for (const g of floats) {
                        g.rect.x -= op.dx;
                        g.rect.y -= op.dy;
                        moved(g);
                    }
                    document.dispatchEvent(new window.Event('scroll', { bubbles: true }));
                }
                return;
            case 'resize':
                view = { w: op.w, h: op.h };
                floats.forEach(moved);
                window.dispatchEvent(new window.Event('resize'));
                return;
            case 'size':
                f.rect = { ...RECT, ...op.rect };
                moved(f);
                env.notifyResize(f.target);
                return;
            case 'content': {
                f.size = { w: op.w, h: op.h };
                moved(f);
                const b = onScreen(f) && f.el.closest('.vs-floating');
                if (b) env.notifyResize(b);
            }
        }
    }
    const stalled = scenario.ops.some((o) => o.k === 'stall' || o.k === 'hold');
    sim.invariants.push(() => {
        for (const f of floats) {
            const on = onScreen(f);
            if (on && !f.was) f.shownAt = sim.now;
            f.was = on;
            if (!on || !f.st.show || stalled) continue;
            if (sim.now > Math.max(f.movedAt, f.shownAt) + 100) judge(f, `${sim.now - f.movedAt} ms after the last move`);
        }
        sim.state(floats.map((f) => `${f.was}${box(f)?.style.left}`).join('|'));
    });
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    for (const f of floats) if (onScreen(f) && f.st.show) judge(f, 'at rest');
    app.unmount();
}

export function world(property) {
    const P2 = property === 'P02';
    return {
        property,
        needs: 'ui',
        components: { real: [P2 ? 'VsFloating' : 'VsTooltip, VsFloating, overlay callback store', 'positioning composable', 'Vue runtime'], stub: ['clock, timers', 'layout geometry (simulated rectangles)', 'resize observers', 'scroll, resize and pointer events', 'DOM (jsdom)'] },
        generate: (rng, size) => (P2 ? generate2 : generate3)(property, rng, size),
        run: P2 ? run2 : run3,
        shrinkLists: [],
        nontrivial: P2 ? (r) => (r.probes['moved-while-open'] ?? 0) > 0 : (r) => (r.probes.appeared ?? 0) > 0 && (r.probes.disappeared ?? 0) > 0,
        rule: P2 ? 'a run is non-trivial if something moved while floating content was on screen; distinct = distinct sequences of task labels' : 'a run is non-trivial if a tooltip appeared and disappeared; distinct = distinct sequences of task labels',
    };
}
