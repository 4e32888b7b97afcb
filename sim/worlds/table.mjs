// Table world (D01 rows, D02 selection and expansion): one table whose items, columns, page, page size, selection and
// loading state change from outside while a user searches, sorts, pages, selects and expands; in server mode the
// owner answers page changes after a delay.
import { quiet, schedule, setup, show, timeline, typeInto } from '../lib/uiworld.mjs';

const SIZES = [2, 3, 5, 50, 'All'];
const count = (v) => (v === 'All' ? Infinity : v);
const NAMES = ['ann', 'Bob', 'cy', 'dan', 'ann', 'eve'];
const TEXTS = ['', 'a', 'B', 'x', 'zz', 'r1', 'N'];
const D01 = { sort: 6, search: 4, page: 5, step: 3, size: 2, wsize: 1, wpage: 1.5, items: 4, columns: 0.7, loading: 0.7, select: 0.5, expand: 0.3 };
const D02 = { sort: 2.5, search: 2, page: 2, step: 1, size: 0.7, wsize: 0.4, wpage: 0.4, items: 4, columns: 0.5, loading: 0.6, select: 8, all: 3, wsel: 2, expand: 6 };

const newItem = (rng, n) => ({
    id: `r${n}`, name: rng.pick(NAMES), n: rng.bool(0.15) ? null : rng.int(4), rank: rng.pick(['low', 'mid', 'high']), meta: { tag: rng.pick(['x', 'y', 'Z']) }, ok: rng.bool(0.8), day: rng.int(5),
});

export function generate(property, rng, size) {
    const weights = rng.swarm(property === 'D01' ? D01 : D02, 0.9);
    const faulty = rng.bool(0.4);
    let n = 0;
    const many = rng.pick([0, 1, 3, 6, 9, 14]);
    const items = Array.from({ length: many }, () => newItem(rng, ++n));
    const paged = rng.bool(property === 'D01' ? 0.75 : 0.5);
    const config = {
        paged, ownSizes: rng.bool(0.75), server: paged && rng.bool(0.2), bindPage: rng.bool(0.6), bindSize: rng.bool(0.6), size: rng.pick(SIZES.slice(0, 3)), search: rng.bool(0.7), skip: rng.bool(0.3),
        selectable: property === 'D02' ? rng.pick(['all', 'some', 'all']) : rng.pick(['none', 'all', 'some']), expand: property === 'D02' || rng.bool(0.2),
    };
    const tl = timeline(rng, { paces: [15, 60, 250, 600], faulty });
    const nOps = rng.range(3, size ?? 26);
    for (let j = 0; j < nOps; j++) {
        const k = rng.weighted(weights);
        switch (k) {
            case 'sort': tl.add({ k, c: rng.pick(['name', 'n', 'meta.tag', 'rank', 'ok', 'at']) }); break;
            case 'search': tl.add({ k, v: rng.pick(TEXTS) }); break;
            case 'page': case 'select': case 'expand': tl.add({ k, o: rng.int(12) }); break;
            case 'step': tl.add({ k, d: rng.pick([-1, 1]) }); break;
            case 'size': case 'wsize': tl.add({ k, v: rng.pick(SIZES) }); break;
            case 'wpage': tl.add({ k, v: rng.int(5) }); break;
            case 'loading': tl.add({ k, v: rng.bool(0.4) }); break;
            case 'wsel': tl.add({ k, bits: rng.int(256) }); break;
            case 'items': tl.add({ k, how: rng.pick(['append', 'prepend', 'drop', 'edit', 'copy', 'copy', 'reverse', 'few', 'fresh']), o: rng.int(12), add: Array.from({ length: rng.range(1, 4) }, () => newItem(rng, ++n)) }); break;
            default: tl.add({ k });
        }
        if (rng.bool(0.25)) tl.gap(rng.pick([30, 450, 1200]));
    }
    return { property, tie: rng.u32(), policy: rng.bool(0.6) ? 'random' : 'time', faulty, config, items, ops: tl.ops };
}

export async function run(sim, scenario, bundle) {
    const { env, expect } = setup(sim, scenario, bundle);
    const { V, Vue, document } = env;
    const { h, shallowReactive, toRaw } = Vue;
    const cfg = { paged: false, server: false, size: 3, selectable: 'none', ...scenario.config };
    const rowsOn = scenario.property === 'D01';
    env.defaultInView = () => true;
    const plain = (x) => x.map((it) => ({ ...JSON.parse(JSON.stringify(it)), at: new Date(Date.UTC(2024, 0, 1 + (it.day ?? 0))) }));
    const key = (x) => JSON.stringify(toRaw(x));

    // --- the owner's side
    const columns = (() => {
        const a = [
            { key: 'id', label: 'Id' }, { key: 'name', label: 'Name', sortable: true }, { key: 'n', label: 'N', sortable: true, skipSearch: cfg.skip },
            { key: 'meta.tag', label: 'Tag', sortable: true, transform: (v) => `<${v}>` }, { key: 'rank', label: 'Rank', sortable: true, sortBy: 'n' },
            { key: 'ok', label: 'Ok', sortable: true }, { key: 'at', label: 'At', sortable: true, skipSearch: true, transform: (v) => v.toISOString().slice(0, 10) },
        ];
        return [a, [...a].reverse()];
    })();
    let all = plain(scenario.items); // in server mode, what the server holds
    const cut = (list) => (m.size === Infinity ? list : list.slice(m.page * m.size, m.page * m.size + m.size));
    const chunk = () => cut(all);
    const m = { page: 0, loose: false, size: cfg.paged ? cfg.size : Infinity, text: '', sortBy: null, dir: 0, sel: new Set(), exp: new Set(), expLoose: false };
    const st = shallowReactive({ items: cfg.server ? chunk() : all, cols: 0, page: 0, size: cfg.size, loading: false, sel: [], total: all.length });
    let paged = null;
    let total = null;
    let request = 0;
    const ask = () => {
        if (!cfg.server) return;
        const mine = ++request;
        sim.after(1 + sim.rollInt(`server${mine}`, 300), 'server', 'server answers', () => {
            if (mine !== request) return sim.probe('answer-dropped');
            st.items = chunk();
            sim.probe('answered');
        });
    };
    const selectable = cfg.selectable === 'none' ? false : cfg.selectable === 'all' ? true : (it) => it.ok;
    const canSelect = (it) => (cfg.selectable === 'all' ? true : cfg.selectable === 'some' && it.ok);
    const sizeLabel = (v) => (v === 'All' ? v : `${v} items`);
    const opts = SIZES.map((v) => ({ label: sizeLabel(v), value: count(v) }));
    const bind = () => ({
        ...(cfg.paged ? { pagination: { ...(cfg.ownSizes === false ? {} : { pageSizeOptions: opts }), showPageSizeSelect: true, showingLength: 40, ...(cfg.server ? { totalItemCount: st.total } : {}) }, serverMode: cfg.server } : {}),
        ...(cfg.bindPage || cfg.server ? { page: st.page } : {}),
        'onUpdate:page': (v) => {
            st.page = v;
            if (m.page !== v && cfg.server) {
                m.page = v;
                ask();
            }
        },
        pageSize: st.size,
        ...(cfg.bindSize || cfg.server ? { 'onUpdate:pageSize': (v) => (st.size = v) } : {}),
        selectedItems: st.sel, 'onUpdate:selectedItems': (v) => (st.sel = v),
        'onUpdate:pagedItems': (v) => (paged = v), 'onUpdate:totalItems': (v) => (total = v),
    });
    const { host } = env.mountApp({
        render: () => h('main', [h(V.VsTable, { columns: columns[st.cols], items: st.items, loading: st.loading, search: cfg.search, selectable, ...bind() },
            cfg.expand ? { expand: ({ item }) => h('em', { class: 'more', 'data-id': item.id }, `more ${item.id}`) } : {})]),
    });

    // --- what is on screen
    const $ = (sel, root = host) => root.querySelector(sel);
    const $$ = (sel, root = host) => [...root.querySelectorAll(sel)];
    const rowEls = () => $$('.vs-table-draggable-wrapper > tr');
    const header = () => $('thead.vs-table-original-header') ?? $('thead');
    const pager = () => $('.vs-pagination');
    const current = () => {
        const on = $$('.vs-page-button', pager()).filter((b) => b.classList.contains('vs-primary'));
        return on.length === 1 ? Number(on[0].textContent.trim()) - 1 : on.length ? NaN : -1;
    };
    const screen = () => rowEls().map((tr) => Object.fromEntries($$('td[data-label]', tr).map((td) => [td.getAttribute('data-label'), td.textContent.trim()])));

    // --- the model
    const fields = (it) => [it.id, it.name, cfg.skip ? null : it.n, it.rank, it.meta.tag, it.ok, it.day];
    const match = (it) => !m.text || fields(it).some((v) => v !== null && String(v).toLowerCase().includes(m.text.toLowerCase()));
    const sortValue = (it) => (m.sortBy === 'meta.tag' ? it.meta.tag : m.sortBy === 'rank' ? it.n : it[m.sortBy]);
    const cmp = (a, b) => (a === null || b === null ? (a === null) - (b === null) : typeof a === 'string' ? a.localeCompare(b) : a - b);
    const matching = () => {
        const list = st.items.filter(match);
        return m.dir ? list.map((it, i) => [it, i]).sort((x, y) => m.dir * cmp(sortValue(x[0]), sortValue(y[0])) || x[1] - y[1]).map(([it]) => it) : list;
    };
    const pages = () => (m.size === Infinity ? 1 : cfg.server ? Math.ceil(st.total / m.size) : Math.ceil(st.items.filter(match).length / m.size));
    const rows = () => (cfg.paged && !cfg.server ? cut(matching()) : matching());
    const view = (it) => ({ Id: it.id, Name: it.name, N: it.n === null ? '' : String(it.n), Tag: `<${it.meta.tag}>`, Rank: it.rank, Ok: String(it.ok), At: it.at.toISOString().slice(0, 10) });
    const canAll = () => st.items.filter(canSelect);
    const refit = () => {
        if (cfg.paged && m.page >= pages()) m.loose = true;
    };
    const goTo = (p) => {
        if (m.page === p) return;
        m.page = p;
        m.loose = false;
        sim.probe('paged');
        ask();
    };

    function perform(op) {
        switch (op.k) {
            case 'sort': {
                const th = $$('th', header()).find((x) => x.textContent.trim() === columns[0].find((c) => c.key === op.c)?.label);
                const icon = th && $('.vs-table-sort-icon', th);
                if (!icon) break;
                if (m.sortBy !== op.c) m.dir = 0;
                m.sortBy = op.c;
                m.dir = m.dir === 0 ? 1 : m.dir === 1 ? -1 : 0;
                sim.probe('sorted');
                icon.dispatchEvent(new env.window.MouseEvent('click', { bubbles: true, cancelable: true }));
                break;
            }
            case 'search': {
                const el = $('.vs-table-search-input input');
                if (!el || st.loading) break;
                m.text = op.v ?? '';
                refit();
                sim.probe('searched');
                typeInto(env, el, m.text);
                break;
            }
            case 'page': {
                const list = pager() ? $$('.vs-page-button', pager()) : [];
                if (!list.length) break;
                const b = list[op.o % list.length];
                if (!st.loading) goTo(Number(b.textContent.trim()) - 1);
                env.click(b);
                break;
            }
            case 'step': {
                const b = pager() && $(op.d > 0 ? '[aria-label="go to next page"]' : '[aria-label="go to previous page"]', pager());
                if (!b || m.loose || b.disabled) break;
                const to = m.page + op.d;
                if (!st.loading && to >= 0 && to < pages()) goTo(to);
                env.click(b);
                break;
            }
            case 'size': {
                // first press opens the list, a later one picks from it
                const list = [...document.querySelectorAll('.vs-select-option')];
                const el = list.find((x) => x.textContent.trim() === sizeLabel(op.v));
                if (el && !st.loading) {
                    if (m.size !== count(op.v)) {
                        m.size = count(op.v);
                        m.page = 0;
                        m.loose = false;
                        if (!cfg.bindSize && !cfg.server) m.own = true;
                        sim.probe('resized');
                        ask();
                    }
                    env.click(el);
                } else if (!list.length && pager()) {
                    const t = $('.vs-table-pagination .vs-select-trigger');
                    if (t) env.click(t);
                }
                break;
            }
            case 'wsize':
                if (!cfg.paged || !cfg.bindSize || count(op.v) === st.size) break;
                st.size = count(op.v);
                m.size = count(op.v);
                m.loose = true;
                ask();
                break;
            case 'wpage':
                if (!cfg.paged || !cfg.bindPage || op.v === st.page) break;
                st.page = op.v;
                if (cfg.server && op.v >= pages()) {
                    st.page = m.page;
                    break;
                }
                goTo(op.v);
                refit();
                break;
            case 'items': {
                const list = cfg.server ? all : st.items;
                const at = list.length ? (op.o ?? 0) % list.length : 0;
                const add = plain(op.add ?? []);
                const next = {
                    append: () => [...list, ...add], prepend: () => [...add, ...list], drop: () => list.toSpliced(at, 2), reverse: () => [...list].reverse(),
                    edit: () => list.map((it, i) => (i === at && add[0] ? { ...add[0], id: it.id } : it)), copy: () => plain(list), few: () => list.slice(0, 1), fresh: () => add,
                }[op.how]?.() ?? list;
                if (op.how === 'copy') m.expLoose = true;
                all = next;
                if (cfg.server) {
                    st.total = all.length || 1;
                    if (m.page >= pages()) m.loose = true;
                    ask();
                } else st.items = next;
                refit();
                sim.probe(`items-${op.how}`);
                break;
            }
            case 'columns': st.cols = 1 - st.cols; break;
            case 'loading': st.loading = !!op.v; break;
            case 'select': {
                const list = rowEls().filter((tr) => $('.vs-checkbox-input', tr));
                if (!list.length) break;
                const tr = list[op.o % list.length];
                const it = itemOf(tr);
                if (!it) break;
                if (!st.loading) {
                    if (!m.sel.delete(key(it))) m.sel.add(key(it));
                    sim.probe('selected');
                }
                env.click($('.vs-checkbox-input', tr));
                break;
            }
            case 'all': {
                const box = $('.vs-checkbox-input', header());
                if (!box) break;
                if (!st.loading) {
                    const can = canAll().map(key);
                    const full = can.every((x) => m.sel.has(x));
                    m.sel = new Set(full ? [] : can);
                    sim.probe('select-all');
                }
                env.click(box);
                break;
            }
            case 'wsel':
                if (cfg.selectable === 'none') break;
                st.sel = canAll().filter((_, i) => (op.bits >> i % 8) & 1);
                m.sel = new Set(st.sel.map(key));
                break;
            case 'expand': {
                const list = rowEls().filter((tr) => $('.vs-table-expand-handle button', tr));
                if (!list.length) break;
                const tr = list[op.o % list.length];
                const it = itemOf(tr);
                if (!it || m.expLoose) break;
                if (!st.loading) {
                    if (!m.exp.delete(it)) m.exp.add(it);
                    sim.probe('expanded');
                }
                env.click($('.vs-table-expand-handle button', tr));
            }
        }
    }
    const itemOf = (tr) => {
        const cell = $('td[data-label="Id"]', tr);
        const id = cell?.textContent.trim();
        return id ? st.items.find((it) => it.id === id) ?? null : null;
    };
    const open = (tr) => {
        const el = $('.more', tr);
        return !!el && !el.closest('[class*="-leave-"]');
    };
    function judge() {
        if (st.loading) return;
        if (cfg.paged && pager() && pages() > 0) {
            const p = current();
            expect(p >= 0 && p < pages(), 'page-exists', () => `page ${p + 1} of ${pages()} is current`);
            if (m.loose) {
                m.page = p;
                m.loose = false;
            }
            if (rowsOn) {
                expect(p === m.page, 'page', () => `page ${p + 1} is current, expected ${m.page + 1}`);
                if (cfg.bindPage || cfg.server) expect(st.page === p, 'page-bound', () => `page ${p + 1} is current but bound is ${st.page + 1}`);
            }
        } else if (cfg.paged) {
            m.loose = true;
            expect(rowsOn ? pages() <= 0 : true, 'no-pager', () => `${pages()} pages but no pager`);
        }
        if (rowsOn) {
            if (m.loose) m.page = 0;
            const want = rows();
            const got = screen();
            expect(show(got.map((r) => r.Id)) === show(want.map((it) => it.id)), 'rows', () => `shows ${show(got.map((r) => r.Id))}, expected ${show(want.map((it) => it.id))}`);
            for (const [i, it] of want.entries()) {
                const v = view(it);
                for (const c of Object.keys(v)) expect(got[i][c] === v[c], 'cells', () => `row ${it.id} shows ${show(got[i][c])} as ${c}, expected ${show(v[c])}`);
            }
            const ids = (list) => show((list ?? []).map((x) => x.id));
            expect(ids(paged) === ids(want), 'reported-page', () => `reported page rows ${ids(paged)}, shows ${ids(want)}`);
            expect(ids(total) === ids(matching()), 'reported-total', () => `reported matching rows ${ids(total)}, expected ${ids(matching())}`);
            sim.probe('judged');
            return;
        }
        const bound = st.sel.map(key);
        expect(new Set(bound).size === bound.length, 'twice', () => `the bound selection holds an item twice: ${bound.map((x) => JSON.parse(x).id)}`);
        const ids = (list) => show([...list].map((x) => JSON.parse(x).id).sort());
        expect(bound.length === m.sel.size && bound.every((x) => m.sel.has(x)), 'bound', () => `the bound selection is ${ids(bound)}, expected ${ids(m.sel)}`);
        for (const tr of rowEls()) {
            const it = itemOf(tr);
            if (!it) continue;
            const box = $('.vs-checkbox-input', tr);
            if (cfg.selectable !== 'none') {
                expect(!!box === !!canSelect(it), 'selectable', () => `${it.id} ${box ? 'has' : 'lacks'} a box`);
                const on = m.sel.has(key(it));
                if (box) expect(box.checked === on, 'row-box', () => `the box of ${it.id} is ${box.checked ? 'checked' : 'clear'} but the item is ${on ? '' : 'not '}selected`);
                expect(tr.classList.contains('vs-selected') === on, 'row-mark', () => `the row of ${it.id} is ${on ? 'not ' : ''}marked selected but the item is ${on ? '' : 'not '}selected`);
            }
            if (!cfg.expand) continue;
            if (m.expLoose) {
                if (open(tr)) m.exp.add(it);
                else m.exp.delete(it);
            }
            expect(open(tr) === m.exp.has(it), 'expanded', () => `the row of ${it.id} is ${open(tr) ? 'expanded' : 'collapsed'} but the item is ${m.exp.has(it) ? 'expanded' : 'collapsed'}`);
            if (open(tr)) expect($('.more', tr).getAttribute('data-id') === it.id, 'panel', () => `the panel of ${it.id} shows ${$('.more', tr).getAttribute('data-id')}`);
        }
        // rows off screen at that moment are no longer known after a reload with equal items
        if (m.expLoose) m.expLoose = rowEls().length < all.length;
        const can = canAll().map(key);
        const head = $('.vs-checkbox', header());
        if (head && can.length) {
            const n = can.filter((x) => m.sel.has(x)).length;
            const box = $('.vs-checkbox-input', header());
            expect(box.checked === (n === can.length), 'all-box', () => `the select-all box is ${box.checked ? 'checked' : 'clear'} with ${n} of ${can.length} selected`);
            const some = !!header().querySelector('.vs-indeterminate');
            expect(some === (n > 0 && n < can.length), 'some-box', () => `the select-all box is ${some ? '' : 'not '}indeterminate with ${n} of ${can.length} selected`);
        }
        sim.probe('judged');
    }
    sim.invariants.push(() => {
        sim.state(`${st.items.length}|${m.page}|${m.size}|${m.text}|${m.sortBy}${m.dir}|${m.sel.size}|${m.exp.size}`);
        if (quiet(sim)) judge();
    });
    schedule(sim, scenario, perform);
    const end = await sim.run();
    expect(end === 'idle', 'not-idle', `the page never came to rest (${end})`);
    judge();
}

export function world(property) {
    return {
        property,
        needs: 'ui',
        budget: { quick: { runs: 1600, capMs: 150_000 } },
        components: { real: ['VsTable with its parts and composables', 'VsPagination, VsSelect, VsSearchInput, VsCheckbox, VsExpandable', 'Vue runtime'], stub: ['the owner and, in server mode, its data source', 'clock, timers, frames, observers', 'DOM (jsdom)', 'user input'] },
        generate: (rng, size) => generate(property, rng, size),
        run,
        shrinkLists: ['items'],
        nontrivial: (r) => (r.probes.judged ?? 0) > 1,
        rule: 'a run is non-trivial if the table was judged at least twice; distinct = distinct sequences of task labels',
    };
}
