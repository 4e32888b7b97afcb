// The documentation server: M01 - M06.
// Real: the server program, protocol library, all tools, resources, parsers and caches. Simulated: the network with a
// synthetic repository of several revisions, the clock, the process environment and standard streams.
import { isDeepStrictEqual } from 'node:util';
import { drainMicrotasks } from '../lib/kernel.mjs';
import { startServer } from '../lib/mcpenv.mjs';
import { Rng } from '../lib/rng.mjs';

// ---------------------------------------------------------------- the synthetic repository
const COMPONENTS = 'VsButton VsInput VsSearchInput VsTextarea VsSelect VsCheckbox VsRadio VsSwitch VsToggle VsForm VsTable VsPagination VsModal VsDrawer VsTabs VsAccordion VsExpandable VsProgress VsLoading VsSkeleton VsFileDrop VsPage VsLayout VsHeader VsFooter VsGrid VsResponsive VsChip'.split(' ');
const DIRECTIVES = 'tooltip focus ripple scroll copy mask drag resize hover intersect lock press swipe theme trap zoom pin fade glow'.split(' ');
const COMPOSABLES = 'color-scheme style-set overlay focus form-child input-rules state search index-selector string-modifier option-label value-matcher position tooltip media clipboard storage toggle timer'.split(' ');
const PLUGINS = 'modal toast alert confirm prompt drawer'.split(' ');
const PROPS = ['modelValue', 'label', 'size', 'primary', 'disabled', 'color', 'width', 'options'];
const EVENTS = ['update:modelValue', 'change', 'rowClick', 'itemSelect', 'beforeClose'];
const SLOTS = ['default', 'header', 'footer', 'prepend'];
const STYLE_FILES = ['variables.css', 'palette.css', 'color-scheme-variables.css'];
export const VERSIONS = ['2.0.0', '2.1.0', '2.1.3', '2.2.0-beta.1', '2.2.0', '2.10.0', '3.0.0'];
const SPELL = [(v) => `vlossom-v${v}`, (v) => `v${v}`, (v) => v];
const ROOT = 'packages/vlossom';
const kebab = (name) => name.replace(/([a-z0-9])([A-Z])/g, '$1-$2').toLowerCase();

/** every text carries marks «revision|thing» so that an answer shows where it came from */
const mark = (ref, thing) => `«${ref}|${thing}»`;
const table = (head, rows) => [`| ${head.join(' | ')} |`, `| ${head.map(() => '---').join(' | ')} |`, ...rows.map((r) => `| ${r.join(' | ')} |`)].join('\n');

function revision(rng, ref, big) {
    const files = new Map();
    const take = (list, least) => {
        const kept = list.filter(() => rng.bool(big ? 0.93 : 0.45));
        while (kept.length < least) {
            const more = rng.pick(list);
            if (!kept.includes(more)) kept.push(more);
        }
        return kept;
    };
    files.set(`${ROOT}/package.json`, JSON.stringify({ name: 'vlossom', version: ref }));
    if (!rng.bool(0.15)) {
        files.set(
            `${ROOT}/README.md`,
            rng.bool(0.2) ? `# Vlossom\n\nNo setup here ${mark(ref, 'readme')}\n` : `# Vlossom\n\n## Setup\n\n\`\`\`ts\n// ${mark(ref, 'setup')}\ncreateApp(App).use(createVlossom({}))\n\`\`\`\n`,
        );
    }
    const components = take(COMPONENTS, 3);
    for (const name of components) {
        const dir = `${ROOT}/src/components/${kebab(name)}`;
        const props = PROPS.filter(() => rng.bool(0.45));
        const events = EVENTS.filter(() => rng.bool(0.4));
        const slots = SLOTS.filter(() => rng.bool(0.5));
        const since = rng.bool(0.7) ? rng.pick(['2.0.0+', '2.1.0+', '2.1.3+', '3.0.0+', '2.0.0-beta.3+']) : null;
        const readme = [
            `# ${name}`,
            '',
            `About ${name} ${mark(ref, name)}`,
            '',
            ...(since ? [`**Available Version**: ${since}`, ''] : []),
            '## Props',
            table(['Prop', 'Type', 'Default', 'Required', 'Description'], props.map((p) => [`\`${p}\``, '`string`', '-', rng.bool(0.15) ? 'Yes' : '-', mark(ref, `${name}.${p}`)])),
            '',
            '## Events',
            table(['Event', 'Payload', 'Description'], events.map((e) => [`\`${e}\``, '`string`', mark(ref, `${name}@${e}`)])),
            '',
            '## Slots',
            table(['Slot', 'Description'], slots.map((s) => [`\`${s}\``, mark(ref, `${name}#${s}`)])),
            '',
            '## Methods',
            table(['Method', 'Parameters', 'Description'], rng.bool(0.5) ? [['`focus`', '-', mark(ref, `${name}.focus`)]] : []),
            '',
        ].join('\n');
        if (!rng.bool(0.08)) files.set(`${dir}/README.md`, readme);
        if (!rng.bool(0.2)) {
            files.set(`${dir}/types.ts`, `export interface ${name}StyleSet {\n    variables?: {\n        width?: string; // ${mark(ref, `${name}.types`)}\n${rng.bool() ? '        height?: string;\n' : ''}    };\n    component?: CSSProperties;\n${rng.bool(0.3) ? '    inner?: VsChipStyleSet;\n' : ''}}\n`);
        }
        if (!rng.bool(0.15)) files.set(`${dir}/${name}.vue`, `<template><div>${mark(ref, `${name}.vue`)}</div></template>\n`);
    }
    files.set(`${ROOT}/src/components/index.ts`, 'export {};\n');
    if (!rng.bool(0.12)) {
        for (const name of take(DIRECTIVES, 1)) {
            const dir = `${ROOT}/src/directives/vs-${name}`;
            files.set(`${dir}/index.ts`, 'export {};\n');
            if (!rng.bool(0.1)) files.set(`${dir}/README.md`, `# v-${name}\n\nDoes ${name} ${mark(ref, `v-${name}`)}\n\n**Available Version**: ${rng.pick(['2.0.0+', '2.1.0+', '3.0.0+'])}\n\n## Basic Usage\n\n\`\`\`vue\n<div v-${name} />\n\`\`\`\n\n## Options\n${table(['Binding', 'Type', 'Default', 'Description'], [['`value`', '`string`', '-', mark(ref, `v-${name}.value`)]])}\n`);
        }
    }
    if (!rng.bool(0.12)) {
        const list = take(COMPOSABLES, 1);
        for (const name of list) {
            const dir = `${ROOT}/src/composables/${name}`;
            const title = `use${name.split('-').map((p) => p[0].toUpperCase() + p.slice(1)).join('')}`;
            files.set(`${dir}/${name}.ts`, 'export {};\n');
            if (!rng.bool(0.1)) files.set(`${dir}/README.md`, `# ${title}\n\nGives ${name} ${mark(ref, title)}\n\n## Args\n${table(['Arg', 'Type', 'Default', 'Required', 'Description'], [['`initial`', '`string`', '-', 'Yes', mark(ref, `${title}.initial`)]])}\n\n## Returns\n\nRef<string>\n`);
        }
        if (!rng.bool(0.15)) files.set(`${ROOT}/src/composables/index.ts`, list.filter(() => rng.bool(0.6)).map((n) => `export * from './${n}/${n}';\n`).join(''));
    }
    if (!rng.bool(0.15)) {
        for (const name of take(PLUGINS, 1)) {
            const dir = `${ROOT}/src/plugins/${name}-plugin`;
            files.set(`${dir}/index.ts`, 'export {};\n');
            if (!rng.bool(0.1)) files.set(`${dir}/README.md`, `# ${name} Plugin\n\nOpens ${name} ${mark(ref, `$vs.${name}`)}\n\n## Methods\n${table(['Method', 'Parameters', 'Description'], [['`open`', '`content: string, options?: Options`', mark(ref, `$vs.${name}.open`)]])}\n`);
        }
    }
    STYLE_FILES.forEach((file, i) => {
        if (rng.bool(0.12)) return;
        files.set(`${ROOT}/src/styles/${file}`, `:root {\n    --vs-${['radius', 'blue', 'comp'][i]}-a: "${mark(ref, file)}";\n    --vs-shared: "${mark(ref, `${file}:shared`)}";\n    @variant dark {\n        --vs-shared: "${mark(ref, `${file}:dark`)}";\n    }\n}\n`);
    });
    return files;
}

const repos = new Map();
export function repository(seed) {
    if (repos.has(seed)) return repos.get(seed);
    const rng = new Rng(`repository|${seed}`);
    const big = seed % 3 === 0;
    const refs = new Map();
    refs.set('main', revision(rng, 'main', big));
    for (const version of VERSIONS) {
        const how = rng.int(6);
        const spellings = how === 0 ? [] : how === 1 ? SPELL.filter(() => rng.bool()) : [SPELL[how % 3]];
        for (const spell of spellings) refs.set(spell(version), revision(rng, spell(version), big && rng.bool()));
    }
    const releases = VERSIONS.filter(() => rng.bool(0.8)).map((version) => ({
        tag_name: rng.pick(SPELL.slice(0, 2))(version),
        name: version,
        draft: rng.bool(0.1),
        prerelease: version.includes('-'),
        published_at: `2026-01-0${1 + VERSIONS.indexOf(version)}T00:00:00Z`,
        body: rng.bool(0.15) ? null : `## Features\n- feature of ${version}\n## Bug Fixes\n- fix in ${version}\n`,
    }));
    const repo = { seed, refs, releases };
    repos.set(seed, repo);
    return repo;
}

/** what the real service would answer for an address: { key, status, body, json } */
export function resource(repo, href) {
    const url = new URL(href);
    if (url.hostname === 'raw.githubusercontent.com') {
        const parts = url.pathname.split('/').slice(3);
        const ref = decodeURIComponent(parts[0] ?? '');
        const file = parts.slice(1).map(decodeURIComponent).join('/');
        const text = repo.refs.get(ref)?.get(file);
        return { key: `${ref} ${file}`, ref, file, status: text === undefined ? 404 : 200, body: text ?? '404: Not Found', json: false };
    }
    const rest = url.pathname.replace(/^\/repos\/[^/]+\/[^/]+/, '');
    if (rest === '/releases') return { key: 'releases', status: 200, body: JSON.stringify(repo.releases), json: true };
    if (rest.startsWith('/contents/')) {
        const dir = rest.slice('/contents/'.length).split('/').map(decodeURIComponent).join('/').replace(/\/+$/, '');
        const ref = url.searchParams.get('ref') ?? 'main';
        const seen = new Map();
        for (const file of repo.refs.get(ref)?.keys() ?? []) {
            if (!file.startsWith(`${dir}/`)) continue;
            const [name, ...deeper] = file.slice(dir.length + 1).split('/');
            if (!seen.has(name)) seen.set(name, { name, path: `${dir}/${name}`, type: deeper.length ? 'dir' : 'file' });
        }
        const listing = [...seen.values()].sort((a, b) => (a.name < b.name ? -1 : 1));
        return { key: `${ref} ${dir}/`, ref, file: `${dir}/`, status: listing.length ? 200 : 404, body: JSON.stringify(listing.length ? listing : { message: 'Not Found' }), json: true };
    }
    return { key: href, status: 404, body: '{"message":"Not Found"}', json: true };
}

const response = (status, read) => ({
    ok: status >= 200 && status < 300,
    status,
    statusText: '',
    headers: new Headers(),
    text: read,
    json: async () => JSON.parse(await read()),
});

// ---------------------------------------------------------------- talking to a server
const INIT = { protocolVersion: '2025-06-18', capabilities: {}, clientInfo: { name: 'sim', version: '1' } };

function rpc(op) {
    if (op.uri !== undefined) return { method: 'resources/read', params: { uri: op.uri } };
    if (op.list) return { method: 'resources/list', params: {} };
    return { method: 'tools/call', params: { name: op.tool, arguments: op.args } };
}

/** the answer without the session trace */
function bare(message) {
    if (message.error) return { error: message.error };
    const { _meta: _, ...result } = message.result;
    if (!Array.isArray(result.content)) return { result };
    const content = result.content.map((part) => {
        if (part.type !== 'text') return part;
        try {
            const value = JSON.parse(part.text);
            if (value && typeof value === 'object') delete value._meta;
            return { ...part, text: value };
        } catch {
            return part;
        }
    });
    return { result: { ...result, content } };
}

const alone = new Map();
const noTimers = () => {
    throw new Error('a timer in the reference server');
};
/** the answer a freshly started server gives to this request alone over a perfect network */
async function reference(bundle, repo, op) {
    const request = rpc(op);
    const key = `${bundle}|${repo.seed}|${JSON.stringify(request)}`;
    if (alone.has(key)) return alone.get(key);
    let reply = null;
    const timers = [];
    const server = startServer(bundle, {
        fetch: async (href) => {
            const found = resource(repo, String(href?.url ?? href));
            return response(found.status, async () => found.body);
        },
        api: { setTimeout: (fn, ms) => timers.push({ fn, ms }), clearTimeout: (id) => (timers[id - 1] = null), setInterval: noTimers, clearInterval: noTimers },
        env: {},
        onMessage: (m) => {
            if (m.id === 2) reply = m;
        },
    });
    await drainMicrotasks();
    server.send({ jsonrpc: '2.0', id: 1, method: 'initialize', params: INIT });
    await drainMicrotasks();
    server.send({ jsonrpc: '2.0', method: 'notifications/initialized' });
    server.send({ jsonrpc: '2.0', id: 2, ...request });
    for (let i = 0; i < 50 && !reply; i++) {
        await drainMicrotasks();
        if (!reply && i > 5) for (const t of timers.splice(0)) t?.fn();
    }
    const answer = reply ? bare(reply) : { none: true };
    if (alone.size > 4000) alone.clear();
    alone.set(key, answer);
    return answer;
}

// ---------------------------------------------------------------- version model
function versionModel(repo, op) {
    const args = op.args ?? {};
    const context = args.context ?? {};
    const given = (op.tool === 'validate_vlossom_usage' || op.tool === 'scaffold_vlossom_code' ? context.version : args.version)?.trim() || undefined;
    const manifest = op.tool === 'scaffold_vlossom_code' ? context.packageJson : args.packageJson;
    let range;
    try {
        const pkg = JSON.parse(manifest ?? '{}');
        range = { ...pkg.dependencies, ...pkg.devDependencies, ...pkg.peerDependencies }.vlossom;
    } catch {
        range = undefined;
    }
    const raw = given ?? range;
    const detected = /^(?:[\^~=v]|>=)?(\d+\.\d+\.\d+(?:-[0-9A-Za-z.-]+)?)$/.exec(raw ?? '')?.[1];
    const tags = detected ? SPELL.map((s) => s(detected)).filter((ref) => repo.refs.has(ref)) : [];
    return { given, range, detected, source: given ? 'input' : range ? 'packageJson' : 'unknown', tags, refs: tags.length ? tags : ['main'] };
}

/** ranges whose concrete version is a matter of taste */
const oddVersion = (op) => /">=[^"]*<|workspace:|"latest"|\{broken/.test(JSON.stringify(op.args ?? {}).replace(/\\"/g, '"'));

const marks = (value) => [...JSON.stringify(value).matchAll(/«([^«»|]+)\|([^«»]+)»/g)].map((m) => m[1]);

// ---------------------------------------------------------------- declared output
function conforms(value, schema, at = '') {
    if (!schema || typeof schema !== 'object') return null;
    if (schema.anyOf) return schema.anyOf.some((s) => !conforms(value, s, at)) ? null : `${at} matches nothing`;
    if (schema.enum && !schema.enum.includes(value)) return `${at} is ${JSON.stringify(value)}`;
    const kind = Array.isArray(value) ? 'array' : value === null ? 'null' : typeof value;
    if (schema.type && schema.type !== kind && !(schema.type === 'integer' && Number.isInteger(value))) return `${at} is ${kind}, not ${schema.type}`;
    if (kind === 'object') {
        for (const name of schema.required ?? []) if (!(name in value)) return `${at}.${name} is missing`;
        for (const name of Object.keys(value)) {
            if (schema.properties && name in schema.properties) {
                const bad = conforms(value[name], schema.properties[name], `${at}.${name}`);
                if (bad) return bad;
            } else if (schema.additionalProperties === false) return `${at}.${name} is not declared`;
        }
    }
    if (kind === 'array' && schema.items) {
        for (let i = 0; i < value.length; i++) {
            const bad = conforms(value[i], schema.items, `${at}[${i}]`);
            if (bad) return bad;
        }
    }
    return null;
}

/** parts that may fail on their own without failing the answer: the source text and the setup example */
function degradable(value) {
    return JSON.parse(
        JSON.stringify(value, (key, v) => {
            if (key === 'fullExample') return 'example';
            if (key === 'source' && v && typeof v === 'object') return 'source';
            if (key === 'text' && typeof v === 'string' && v.startsWith('{')) {
                try {
                    return JSON.parse(v);
                } catch {
                    return v;
                }
            }
            return v;
        }),
    );
}

const show = (value, n = 260) => {
    const text = JSON.stringify(value) ?? 'undefined';
    return text.length > n ? `${text.slice(0, n)}…` : text;
};
/** where two answers first differ */
function differ(a, b, at = '') {
    if (isDeepStrictEqual(a, b)) return null;
    if (a && b && typeof a === 'object' && typeof b === 'object') {
        for (const key of new Set([...Object.keys(a), ...Object.keys(b)])) {
            const found = differ(a[key], b[key], `${at}.${key}`);
            if (found) return found;
        }
    }
    return `${at}: ${show(a, 140)} instead of ${show(b, 140)}`;
}

/** calls that start a piece of work; those after them belong to it */
const STARTS = new Set(['search_vlossom', 'scaffold_vlossom_code']);

const FAULTS = ['status-500', 'status-503', 'status-429', 'status-403', 'connection', 'body-broken', 'body-garbled', 'wrong-shape'];

// ---------------------------------------------------------------- one run
async function runServer(sim, scenario, bundle, property) {
    const repo = repository(scenario.repo ?? 0);
    const klass = (clause) => `${property}:${clause}`;
    const windows = scenario.windows ?? [];
    const [lo, hi] = scenario.latency ?? [5, 80];
    const limit = scenario.limit === undefined ? 30 : scenario.limit;
    const limitMs = limit === 0 ? Infinity : limit * 60_000;

    // the network
    const flights = new Map(); // key -> in flight now
    const done = new Set(); // keys downloaded successfully
    const counts = new Map();
    const startedAt = new Map();
    let otherEnded = -1; // when the last request that is no listing ended
    const faultTimes = [];
    const refsAsked = new Set();
    let fetches = 0;
    let faultsSeen = 0;
    const pending = new Map(); // id -> { op, start, startStep }
    const cancelled = new Set(); // given up by the client; an answer that was on its way is ignored

    const inFlight = (test) => {
        let n = 0;
        for (const [key, c] of flights) if (test(key)) n += c;
        return n;
    };
    function download(href) {
        const found = resource(repo, href);
        const n = (counts.get(found.key) ?? 0) + 1;
        counts.set(found.key, n);
        fetches++;
        if (found.ref) refsAsked.add(found.ref);
        const label = `${found.key}#${n}`;
        sim.log(`download ${label}`);
        if (property === 'M04') {
            sim.check(!done.has(found.key), klass('repeated'), () => `${found.key} is downloaded again although it was downloaded before`);
            sim.check(!flights.get(found.key), klass('shared'), () => `${found.key} is downloaded twice at the same time`);
        }
        flights.set(found.key, (flights.get(found.key) ?? 0) + 1);
        startedAt.set(found.key, sim.now);
        const area = /^(\S+ \S*\/src\/[a-z]+)\//.exec(found.key)?.[1];
        if (property === 'M04' && area && faultsSeen === 0) {
            const listing = [...pending.values()].filter((p) => p.op.listing);
            // downloads left over from requests that ended early belong to nobody who is waiting
            const since = Math.min(...listing.map((p) => p.start));
            if (listing.length === pending.size && pending.size > 0 && since > otherEnded) {
                const busy = inFlight((key) => key.startsWith(`${area}/`) && (startedAt.get(key) ?? 0) >= since);
                sim.check(busy <= 16 * pending.size, klass('bounded'), () => `${busy} downloads in flight below ${area} for ${pending.size} listing request(s)`);
                sim.probe('most-in-flight-seen', busy > (sim.mostInFlight ?? 0) ? busy - (sim.mostInFlight ?? 0) : 0);
                sim.mostInFlight = Math.max(sim.mostInFlight ?? 0, busy);
            }
        }
        // the fault, decided when the download starts
        let fault = null;
        const window = windows.find((w) => sim.now >= w.from && sim.now < w.to);
        if (window && sim.roll(`fault ${label}`) < window.p) {
            const kinds = (window.kinds ?? FAULTS).filter((k) => found.json || !['body-garbled', 'wrong-shape'].includes(k));
            if (kinds.length) fault = kinds[sim.rollInt(`kind ${label}`, kinds.length)];
        }
        const slow = sim.roll(`slow ${label}`) < (scenario.slow ?? 0);
        const latency = slow ? hi * 10 : lo + sim.roll(`latency ${label}`) * (hi - lo);
        const land = (outcome) => {
            flights.set(found.key, flights.get(found.key) - 1);
            if (!flights.get(found.key)) flights.delete(found.key);
            if (outcome === 'ok') done.add(found.key);
            if (outcome === 'fault') {
                faultTimes.push(sim.now);
                faultsSeen++;
                sim.fault(`network:${fault}`);
                sim.probe('failed downloads');
            }
        };
        return new Promise((resolve, reject) => {
            sim.after(latency, `net${fetches}`, `arrives ${label}${fault ? ` (${fault})` : ''}`, () => {
                if (fault === 'connection') {
                    land('fault');
                    reject(new TypeError('fetch failed'));
                } else if (fault?.startsWith('status-')) {
                    land('fault');
                    resolve(response(Number(fault.slice(7)), async () => '{"message":"injected"}'));
                } else if (found.status !== 200) {
                    land('absent');
                    resolve(response(found.status, async () => found.body));
                } else {
                    let read = null;
                    const body = () =>
                        (read ??= new Promise((yes, no) => {
                            sim.after(sim.roll(`body ${label}`) * hi * 0.3, `net${label}b`, `body ${label}`, () => {
                                if (fault === 'body-broken') {
                                    land('fault');
                                    no(new TypeError('terminated'));
                                } else if (fault === 'body-garbled') {
                                    land('fault');
                                    yes(found.body.slice(0, Math.floor(found.body.length / 2)) || '<html>');
                                } else if (fault === 'wrong-shape') {
                                    land('fault');
                                    yes(['{"message":"Server Error","documentation_url":"x"}', 'null', '"unavailable"'][sim.rollInt(`shape ${label}`, 3)]);
                                } else {
                                    land('ok');
                                    yes(found.body);
                                }
                            });
                        }));
                    resolve(response(200, body));
                }
            });
        });
    }

    // the server
    const replies = new Map();
    let declared = null;
    let ready = false;
    const broken = [];
    const judged = [];
    const finished = []; // tool calls answered in this step; their answers leave in any order
    const server = startServer(bundle, {
        fetch: (href) => download(String(href?.url ?? href)),
        api: sim.api(),
        Date: sim.makeDate(),
        env: scenario.limit === undefined ? {} : { VLOSSOM_MCP_SESSION_TIMEOUT: String(scenario.limit) },
        onMessage: (m) => {
            if (m.id === undefined) return;
            if (m.id === 'init') ready = true;
            else if (m.id === 'tools') declared = new Map((m.result?.tools ?? []).map((t) => [t.name, t.outputSchema]));
            else onReply(m);
        },
        onError: (text) => broken.push(text),
        onExit: (code) => broken.push(`exit ${code}`),
    });

    // trace model (M06)
    let session = [];
    let lastActivity = 0;
    let unsure = false; // the idle limit passed while a call was running: either reading of "idle" is accepted
    const began = (op) => {
        if (op.tool === 'search_vlossom' && !op.invalid) {
            session = [];
            lastActivity = sim.now;
            unsure = false;
        }
    };

    function onReply(m) {
        sim.log(`reply ${m.id}`);
        const p = pending.get(m.id);
        if (cancelled.delete(m.id)) return;
        if (property === 'M05') sim.check(!replies.has(m.id) && p, klass('one-reply'), () => `request ${m.id} was answered more than once`);
        if (!p) return;
        pending.delete(m.id);
        if (!p.op.listing) otherEnded = sim.now;
        replies.set(m.id, m);
        const faulted = faultTimes.some((t) => t >= p.start && t <= sim.now);
        sim.probe('replies');
        if (faulted) sim.probe('replies during faults');
        const entry = { id: m.id, op: p.op, m, start: p.start, end: sim.now, faulted };
        judged.push(entry);
        if (p.op.tool && !p.op.invalid) finished.push(entry);
    }

    function traceModel(entry) {
        const gap = sim.now - lastActivity;
        const running = entry.start <= lastActivity + limitMs;
        if (Math.abs(gap - limitMs) < 2) unsure = true;
        else if (gap > limitMs) {
            if (running) unsure = true;
            else {
                session = [];
                unsure = false;
            }
        }
        lastActivity = sim.now;
        const step = { tool: entry.op.tool, ms: Math.floor(sim.epoch + sim.now) - Math.floor(sim.epoch + entry.start) };
        session.push(step);
        if (property !== 'M06') return;
        const meta = entry.m.result?._meta;
        sim.check(meta && Array.isArray(meta.steps), klass('trace'), () => `the answer to ${entry.op.tool} carries no trace`);
        const got = meta.steps.map((s) => ({ tool: s.tool, ms: s.durationMs }));
        const match = (model) => got.length === model.length && got.every((s, i) => s.tool === model[i].tool && Math.abs(s.ms - model[i].ms) <= 1);
        let ok = match(session);
        if (unsure && !ok) {
            // either the whole list so far or a list starting at any call of it
            for (let i = 1; i < session.length && !ok; i++) ok = match(session.slice(i));
            if (ok) session = session.slice(session.length - got.length);
        }
        sim.check(ok, klass('steps'), () => `the trace of ${entry.op.tool} lists ${show(got)} but the calls of the session are ${show(session)}`);
        unsure = false;
        sim.check(meta.steps.every((s, i) => s.step === i + 1), klass('numbers'), () => `steps are numbered ${show(meta.steps.map((s) => s.step))}`);
        let root; // the latest call so far that starts a piece of work
        const lost = meta.steps.find((s) => {
            const wanted = STARTS.has(s.tool) ? undefined : root;
            if (STARTS.has(s.tool)) root = s.step;
            return s.parentStep !== wanted;
        });
        sim.check(!lost, klass('parents'), () => `step ${lost.step} (${lost.tool}) of ${show(got)} hangs below ${lost.parentStep ?? 'nothing'}`);
        session.at(-1).label = meta.steps.at(-1).label;
        const renamed = meta.steps.findIndex((s, i) => session[i].label !== undefined && s.label !== session[i].label);
        sim.check(renamed < 0, klass('labels'), () => `step ${renamed + 1} is called "${meta.steps[renamed].label}" and was called "${session[renamed].label}" before`);
        sim.check(meta.totalDurationMs === meta.steps.reduce((n, s) => n + s.durationMs, 0), klass('total'), () => `total ${meta.totalDurationMs} for ${show(got)}`);
        const used = new Map();
        for (const s of got) used.set(s.tool, (used.get(s.tool) ?? 0) + 1);
        const wanted = [...used].map(([tool, n]) => (n > 1 ? `${tool} ×${n}` : tool)).sort();
        sim.check(isDeepStrictEqual([...(meta.toolsUsed ?? [])].sort(), wanted), klass('tools'), () => `tools used ${show(meta.toolsUsed)} instead of ${show(wanted)}`);
        let inText = null;
        try {
            inText = JSON.parse(entry.m.result.content[0].text)._meta;
        } catch {
            inText = null;
        }
        sim.check(isDeepStrictEqual(inText, meta), klass('text'), () => `the trace in the text differs from the trace of the answer`);
        if (session.length > 1) sim.probe('traces of several calls');
        sim.state(`trace|${got.map((s) => s.tool[0]).join('')}`);
    }

    await drainMicrotasks();
    server.send({ jsonrpc: '2.0', id: 'init', method: 'initialize', params: INIT });
    await drainMicrotasks();
    server.send({ jsonrpc: '2.0', method: 'notifications/initialized' });
    server.send({ jsonrpc: '2.0', id: 'tools', method: 'tools/list', params: {} });
    await drainMicrotasks();
    if (!ready || !declared) sim.violate(klass('start'), `the server did not start: ${broken.join('; ')}`);

    const ops = scenario.ops ?? [];
    ops.forEach((op, i) => {
        sim.task(op.t, 'client', `request ${i} ${op.tool ?? op.uri ?? 'list'}`, () => {
            pending.set(i, { op, start: sim.now });
            began(op);
            server.send({ jsonrpc: '2.0', id: i, ...rpc(op) });
            sim.probe('requests');
            if (pending.size > 1) sim.probe('requests while others run');
        });
        if (op.cancel === undefined) return;
        sim.task(op.t + op.cancel, 'client', `cancel ${i}`, () => {
            if (!pending.delete(i)) return;
            cancelled.add(i);
            otherEnded = sim.now;
            sim.fault('client:cancel');
            server.send({ jsonrpc: '2.0', method: 'notifications/cancelled', params: { requestId: i, reason: 'no longer needed' } });
        });
    });

    // answers are judged as they come in
    let next = 0;
    const judge = async () => {
        while (next < judged.length && !sim.stopped) {
            const e = judged[next++];
            await judgeReply(e);
        }
    };
    async function judgeReply(e) {
        const { op, m } = e;
        const answer = bare(m);
        if (property === 'M05' && op.tool && !op.invalid) {
            const result = m.result;
            sim.check(result && result.structuredContent && !result.isError, klass('reply'), () => `${op.tool} ${show(op.args)} was answered by ${show(m.error ?? result)}`);
            const bad = conforms(result.structuredContent, declared.get(op.tool), 'answer');
            sim.check(!bad, klass('declared'), () => `the answer of ${op.tool} does not conform: ${bad}`);
            sim.check(isDeepStrictEqual(answer.result.content[0]?.text, JSON.parse(JSON.stringify(result.structuredContent))), klass('text'), () => `the text of the answer differs from its structured form`);
        }
        if (property === 'M05' && !op.tool) sim.check(m.error || Array.isArray(m.result?.contents) || Array.isArray(m.result?.resources), klass('reply'), () => `${op.uri} was answered by ${show(m)}`);
        if (property === 'M05' && op.invalid) sim.check(m.error || m.result?.isError, klass('invalid'), () => `invalid request ${show(op.args)} was answered by ${show(m.result)}`);
        if (property === 'M01' || property === 'M03' || property === 'M05') {
            const fresh = await reference(bundle, repo, op);
            if (fresh.none) sim.violate(klass('fresh'), `a fresh server never answers ${show(rpc(op))}`);
            if (!e.faulted) {
                const where = differ(answer, fresh);
                sim.check(!where, klass('answer'), () => `request ${e.id} ${show(rpc(op).params, 160)} started at ${Math.round(e.start)} without any failed download since is answered differently from a fresh server: ${where}`);
                sim.probe('answers compared with a fresh server');
            } else if (property === 'M05' && !op.invalid) judgeFaulted(op, m, answer, fresh);
        }
        if (property === 'M02') judgeVersion(op, m, e);
        sim.state(`${op.tool ?? op.uri}|${e.faulted}|${m.result?.structuredContent?.status ?? (m.error ? 'error' : 'ok')}`);
    }

    function judgeFaulted(op, m, answer, fresh) {
        if (isDeepStrictEqual(answer, fresh) || isDeepStrictEqual(degradable(answer), degradable(fresh))) {
            sim.probe('complete answers despite faults');
            return;
        }
        let s = m.result?.structuredContent;
        if (!op.tool) {
            if (m.error) return;
            try {
                s = JSON.parse(m.result.contents[0].text);
            } catch {
                s = {};
            }
            sim.check(s.status === 'error', klass('honest'), () => `${op.uri ?? 'the list'} could not be fetched, but is answered ${differ(answer, fresh)}`);
        }
        sim.check(s.status === 'error', klass('honest'), () => `${op.tool} ${show(op.args, 140)} could not fetch what it needed, but answers with status ${s.status} and ${differ(answer, fresh)}`);
        sim.check(s.valid !== true, klass('honest'), () => `code is called valid although its components could not be fetched`);
        const claims = [s.message, s.error, ...(s.issues ?? []).map((i) => i.message)].filter(Boolean).join(' | ');
        sim.check(!/not found|not present|unknown|not exist|not supported|not available/i.test(claims) && !s.unknownComponents?.length && !s.unsupportedComponents?.length, klass('honest'), () => `${op.tool ?? op.uri} ${show(op.args, 140)} could not fetch what it needed, but claims: ${claims} ${show(s.unknownComponents)}`);
        const said = [s.message, s.error, s.summary, ...(s.recommendations ?? []), ...(s.versionContext?.warnings ?? [])].filter((t) => typeof t === 'string').join(' ');
        sim.check(said.length > 0, klass('honest'), () => `${op.tool} fails without saying why`);
        sim.probe('honest errors');
    }

    function judgeVersion(op, m, e) {
        const failed = m.error || m.result?.isError;
        const model = versionModel(repo, op);
        const s = m.result?.structuredContent;
        const refs = op.tool ? model.refs : ['main'];
        if (!failed && !oddVersion(op)) {
            const from = marks(bare(m));
            const wrong = from.find((ref) => !refs.includes(ref));
            sim.check(!wrong, klass('content'), () => `${op.tool ?? op.uri} ${show(op.args, 140)} contains text of revision ${wrong}; the matching revision is ${refs.join(' or ')}`);
            if (from.length) sim.probe('answers with revision marks');
        }
        if (!op.tool || failed || !s?.versionContext) return;
        const c = s.versionContext;
        if (oddVersion(op)) return;
        const details = { requestedVersion: c.requestedVersion, packageVersionRange: c.packageVersionRange, detectedVersion: c.detectedVersion, source: c.source };
        const wanted = { requestedVersion: model.given, packageVersionRange: model.range, detectedVersion: model.detected, source: model.source };
        sim.check(isDeepStrictEqual(details, wanted), klass('details'), () => `${op.tool} ${show(op.args, 140)} reports ${show(details)} instead of ${show(wanted)}`);
        if (c.resolvedRef === undefined) {
            // an answer that needed no revision, or an error
            sim.probe('answers without a revision');
            return;
        }
        sim.check(refs.includes(c.resolvedRef), klass('revision'), () => `${op.tool} ${show(op.args, 140)} is answered from ${c.resolvedRef}; the matching revision is ${refs.join(' or ')}${e.faulted ? ' (a download failed meanwhile)' : ''}`);
        const fell = !!model.detected && model.tags.length === 0;
        const warned = (c.warnings ?? []).some((w) => /main/.test(w) && w.includes(model.detected ?? ' '));
        sim.check(warned === fell, klass('warning'), () => `version ${model.detected ?? 'none'} resolves to ${c.resolvedRef} with warnings ${show(c.warnings)}`);
        const twice = (c.warnings ?? []).find((w, i, all) => all.indexOf(w) !== i);
        sim.check(!twice, klass('warning'), () => `the warning is repeated: ${twice}`);
        sim.probe(fell ? 'fell back to main' : model.detected ? 'tag revisions' : 'main revisions');
    }

    const originalStep = sim.settle.bind(sim);
    sim.settle = async () => {
        await originalStep();
        finished.sort((a, b) => (a.m.result?._meta?.steps?.length ?? 0) - (b.m.result?._meta?.steps?.length ?? 0));
        for (const entry of finished.splice(0)) traceModel(entry);
        await judge();
    };
    const outcome = await sim.run();
    if (sim.stopped) return;

    if (property === 'M04') {
        const total = [...repo.refs.values()].reduce((n, files) => n + files.size, 0);
        sim.check(outcome === 'idle', klass('endless'), () => `still busy after ${sim.steps} steps with ${fetches} downloads`);
        sim.check(fetches <= (total + 40) * ((scenario.ops ?? []).length + 1), klass('endless'), () => `${fetches} downloads`);
    }
    if (property === 'M05') {
        sim.check(outcome === 'idle' && pending.size === 0, klass('answered'), () => `requests ${[...pending.keys()].join(', ')} never got a reply although all downloads have ended`);
        sim.check(broken.length === 0, klass('process'), () => `the server process complained: ${broken.join('; ')}`);
        sim.check(sim.rejections.length === 0, klass('rejections'), () => `unhandled rejection in the server: ${sim.rejections.map((r) => r?.message ?? r).join('; ')}`);
    }
    if (property === 'M02') {
        const allowed = new Set(['main']);
        for (const op of ops) for (const s of SPELL) for (const v of [versionModel(repo, op).detected, ...(oddVersion(op) ? VERSIONS : [])]) if (v) allowed.add(s(v));
        const odd = [...refsAsked].find((ref) => !allowed.has(ref));
        sim.check(!odd, klass('asked'), () => `revision ${odd} is read although no request is for it`);
    }
    sim.probe('downloads', fetches);
}

// ---------------------------------------------------------------- generation
const weigh = (rng, pairs) => {
    let x = rng.float() * pairs.reduce((n, [w]) => n + w, 0);
    for (const [w, value] of pairs) if ((x -= w) < 0) return value;
    return pairs[0][1];
};
const QUERIES = ['button', 'form table', 'select dropdown', 'modal dialog', 'layout page', 'tooltip', 'color', 'save', 'zzz', 'input'];

function snippet(rng) {
    const names = Array.from({ length: 1 + rng.int(3) }, () => rng.pick(rng.bool(0.9) ? COMPONENTS : ['VsNothing', 'VsGone']));
    const tag = (name) => {
        const t = rng.bool() ? kebab(name) : name;
        const attrs = [...PROPS.filter(() => rng.bool(0.2)).map((p) => `:${kebab(p)}="x"`), ...(rng.bool(0.2) ? ['@row-click="f"'] : []), ...(rng.bool(0.2) ? ['v-model="m"'] : []), ...(rng.bool(0.1) ? ['bogus="1"'] : [])].join(' ');
        const slot = rng.bool(0.3) ? `<template #${rng.pick(SLOTS)}>x</template>` : 'x';
        return `<${t}${attrs ? ` ${attrs}` : ''}>${slot}</${t}>`;
    };
    const extra = rng.bool(0.2) ? `\n    <${rng.pick(['button', 'select', 'el-input', 'dialog'])}></${rng.pick(['button', 'select'])}>` : '';
    return `<template>\n    ${names.map(tag).join('\n    ')}${extra}\n</template>\n\n<script setup lang="ts">\nimport { ${[...new Set(names)].join(', ')} } from 'vlossom';\n</script>\n`;
}

const componentId = (rng, pool) => {
    const name = rng.pick(pool);
    return weigh(rng, [
        [6, name],
        [2, kebab(name)],
        [1, name.replace('Vs', 'VS')],
        [1, ` ${name} `],
        [1, kebab(name).replace('vs-', 'Vs-')],
        [1, rng.pick(['VsNothing', 'vs-none', name.toLowerCase()])],
    ]);
};

function versionArgs(rng, versions, odd) {
    const v = rng.pick(versions);
    const how = weigh(rng, [
        [3, 'none'],
        [4, 'version'],
        [3, 'manifest'],
        [1, 'both'],
        [odd ? 1 : 0, 'odd'],
    ]);
    const range = (x) => rng.pick(['', '^', '~']) + x;
    const manifest = (text) => JSON.stringify({ [rng.pick(['dependencies', 'devDependencies', 'peerDependencies'])]: { vue: '^3.4.0', vlossom: text } });
    if (how === 'version') return { version: rng.pick(['', 'v', '^']) + v };
    if (how === 'manifest') return { packageJson: manifest(range(v)) };
    if (how === 'both') return { version: v, packageJson: manifest(range(rng.pick(versions))) };
    if (how === 'odd') return rng.pick([{ version: 'latest' }, { packageJson: manifest('workspace:*') }, { packageJson: '{broken' }, { version: `>=${v} <9.0.0` }, { packageJson: '{}' }, { version: '9.9.9' }]);
    return {};
}

function request(rng, shape) {
    const { versions, pool, kinds } = shape;
    const v = versionArgs(rng, versions, true);
    const kind = weigh(rng, kinds);
    if (kind === 'search') {
        const target = weigh(rng, [[4, 'component'], [3, 'directive'], [3, 'composable'], [3, 'token'], [1, 'option'], [2, 'changelog'], [1, 'rule'], [3, 'all']]);
        const intent = rng.bool(0.3) ? 'build-ui' : 'lookup';
        const query = rng.bool(0.75) ? rng.pick(QUERIES) : undefined;
        return { tool: 'search_vlossom', listing: !(intent === 'build-ui' && query), args: { ...(query ? { query } : {}), target, intent, ...(rng.bool(0.3) ? { limit: 1 + rng.int(30) } : {}), ...v } };
    }
    if (kind === 'reference') {
        const type = weigh(rng, [[8, 'component'], [3, 'directive'], [3, 'composable'], [3, 'token'], [3, 'option'], [2, 'changelog'], [1, 'rule']]);
        const args = { type, ...v };
        if (type === 'component') {
            args.id = componentId(rng, pool);
            if (rng.bool(0.5)) args.include = ['summary', 'api', 'props', 'source', 'examples', 'relationships', 'styleSet'].filter((x) => rng.bool(x === 'source' ? 0.7 : 0.4));
            if (args.include?.length === 0) delete args.include;
        } else if (rng.bool(0.5)) {
            args.id = { directive: () => rng.pick([`v-${rng.pick(DIRECTIVES)}`, `vs-${rng.pick(DIRECTIVES)}`]), composable: () => rng.pick(['useColorScheme', 'overlay', 'useSearch', 'useNothing']), token: () => rng.pick(['--vs-radius-a', '--vs-shared', 'blue', '--vs-none']), option: () => rng.pick(['components', 'nothing']), changelog: () => rng.pick(VERSIONS), rule: () => 'PREFER_VLOSSOM_COMPONENT' }[type]();
        }
        return { tool: 'get_vlossom_reference', listing: type !== 'component', args };
    }
    if (kind === 'scaffold') {
        const how = weigh(rng, [[4, 'component-usage'], [3, 'style-set'], [1, 'project-setup']]);
        const args = { kind: how, description: rng.pick(QUERIES), context: { ...v } };
        if (how === 'component-usage' && rng.bool(0.9)) args.components = Array.from({ length: 1 + rng.int(3) }, () => componentId(rng, pool));
        if (how === 'style-set') args.component = componentId(rng, pool);
        return { tool: 'scaffold_vlossom_code', args };
    }
    if (kind === 'validate') {
        const how = weigh(rng, [[5, 'sfc'], [2, 'snippet'], [2, 'style-set'], [2, 'project-setup']]);
        const args = { kind: how, ...(v.packageJson ? { packageJson: v.packageJson } : {}), context: { ...(v.version ? { version: v.version } : {}) } };
        if (how === 'style-set') {
            args.code = `const s = { variables: { width: '1px'${rng.bool(0.3) ? ", bogus: '2px'" : ''} }, component: {} };`;
            args.context.components = [componentId(rng, pool)];
        } else if (how === 'project-setup') {
            if (rng.bool(0.7)) args.files = [{ path: 'src/main.ts', content: "import { createVlossom } from 'vlossom'\napp.use(createVlossom({}))" }];
        } else if (rng.bool(0.95)) args.code = snippet(rng);
        return { tool: 'validate_vlossom_usage', args };
    }
    if (kind === 'invalid') return { tool: rng.pick(['search_vlossom', 'get_vlossom_reference']), invalid: true, args: { type: 'nonsense', target: 7, limit: 'many' } };
    if (kind === 'list') return { list: true, listing: true };
    const uri = weigh(rng, [[4, 'vlossom://components'], [4, `vlossom://components/${rng.pick(pool)}`], [2, 'vlossom://tokens/css'], [2, 'vlossom://options/create-vlossom'], [1, 'vlossom://changelog'], [1, 'vlossom://rules/coding'], [1, 'vlossom://components/VsNothing']]);
    return { uri, listing: !/components\//.test(uri) };
}

/** the same request for another version */
function otherVersion(rng, op, versions) {
    if (!op.args || op.invalid) return op;
    const v = versionArgs(rng, versions, false);
    const { version: _a, packageJson: _b, ...args } = op.args;
    const { version: _c, packageJson: _d, ...context } = args.context ?? {};
    if (op.tool === 'scaffold_vlossom_code') return { ...op, args: { ...args, context: { ...context, ...v } } };
    if (op.tool === 'validate_vlossom_usage') return { ...op, args: { ...args, ...(v.packageJson ? { packageJson: v.packageJson } : {}), context: { ...context, ...(v.version ? { version: v.version } : {}) } } };
    return { ...op, args: { ...args, ...v } };
}

const SHAPES = {
    M01: { kinds: [[4, 'search'], [6, 'reference'], [2, 'scaffold'], [3, 'validate'], [3, 'resource']], faults: 1 },
    M02: { kinds: [[4, 'search'], [6, 'reference'], [3, 'scaffold'], [4, 'validate'], [1, 'resource']], faults: 0.5 },
    M03: { kinds: [[4, 'search'], [6, 'reference'], [2, 'scaffold'], [3, 'validate'], [3, 'resource'], [1, 'list']], faults: 0 },
    M04: { kinds: [[5, 'search'], [6, 'reference'], [1, 'scaffold'], [2, 'validate'], [4, 'resource']], faults: 0.5 },
    M05: { kinds: [[4, 'search'], [6, 'reference'], [3, 'scaffold'], [4, 'validate'], [3, 'resource'], [1, 'list'], [1, 'invalid']], faults: 0.9 },
    M06: { kinds: [[3, 'search'], [6, 'reference'], [4, 'scaffold'], [4, 'validate'], [1, 'resource'], [1, 'invalid']], faults: 0.4 },
};

function generate(property, rng, size) {
    const base = SHAPES[property];
    const repo = rng.int(36);
    const usual = COMPONENTS.filter((name) => {
        const has = [...repository(repo).refs.values()].filter((files) => files.has(`${ROOT}/src/components/${kebab(name)}/README.md`)).length;
        return has >= Math.min(3, repository(repo).refs.size);
    });
    const pool = usual.length && rng.bool(0.5) ? rng.shuffle([...usual]).slice(0, 3) : rng.bool(0.5) ? Array.from({ length: 2 + rng.int(3) }, () => rng.pick(COMPONENTS)) : COMPONENTS;
    const close = rng.pick([['2.2.0-beta.1', '2.2.0'], ['2.1.0', '2.10.0'], ['2.1.0', '2.1.3'], ['2.0.0', '3.0.0']]);
    const versions = rng.bool(0.3) ? close : Array.from({ length: 1 + rng.int(3) }, () => rng.pick(VERSIONS));
    const kinds = base.kinds.map(([w, k]) => [rng.bool(0.75) ? w : w * 0.15, k]);
    const shape = { kinds, pool, versions };
    const latency = rng.pick([[1, 10], [5, 80], [20, 400], [0, 0]]);
    const ops = [];
    let t = 1;
    const count = 2 + rng.int(Math.max(3, size ?? 8));
    const pace = rng.pick(['burst', 'overlap', 'overlap', 'mixed', 'mixed', 'serial']);
    const limit = property === 'M06' ? rng.pick([undefined, 0, 1, 5, 60, 0.5]) : undefined;
    const limitMs = (limit === undefined ? 30 : limit || 30) * 60_000;
    const gap = () => {
        if (property === 'M06' && rng.bool(0.3)) return rng.pick([limitMs * 0.4, limitMs - 4000, limitMs - 20, limitMs + 20, limitMs + 4000, limitMs * 1.5]);
        const p = pace === 'mixed' ? rng.pick(['burst', 'overlap', 'serial']) : pace;
        return p === 'burst' ? 0.001 : p === 'overlap' ? rng.range(1, latency[1] * 3 + 5) : latency[1] * 60 + 2000;
    };
    const recent = [];
    const add = (op) => {
        ops.push({ t, ...op });
        recent.push(op);
        t += gap();
    };
    const themed = rng.bool(property === 'M02' ? 0.5 : 0.15);
    for (let i = 0; i < count; i++) {
        if (themed && recent.length && rng.bool(0.85)) add(otherVersion(rng, recent[0], versions));
        else if (recent.length && rng.bool(property === 'M02' ? 0.45 : 0.12)) add(otherVersion(rng, rng.pick(recent), versions));
        else if (recent.length && rng.bool(0.3)) add(rng.pick(recent));
        else add(request(rng, shape));
    }
    const faulty = rng.bool(base.faults);
    const windows = [];
    if (faulty) {
        const span = t;
        const n = 1 + rng.int(2);
        for (let i = 0; i < n; i++) {
            const from = rng.bool(0.4) ? 0 : rng.range(0, span);
            const kinds = rng.bool(0.4) ? [rng.pick(FAULTS)] : FAULTS;
            windows.push({ from, to: from + rng.pick([span * 0.2, span * 0.5, span]) + 5, p: rng.pick([0.05, 0.3, 0.7, 1]), kinds });
        }
    }
    if (property === 'M01' || property === 'M05' || (property === 'M02' && faulty)) {
        // the network recovers; earlier requests are repeated and others made
        t = Math.max(t, ...windows.map((w) => w.to)) + latency[1] * 12 + 10;
        const again = 1 + rng.int(4);
        for (let i = 0; i < again; i++) add(rng.bool(0.75) ? rng.pick(recent) : request(rng, shape));
    }
    // a client that gives up on some requests; the others must not notice
    const impatient = property !== 'M06' && property !== 'M02' && rng.bool(0.3);
    if (impatient) for (const op of ops) if (rng.bool(0.35)) op.cancel = rng.pick([0.0005, rng.range(0, latency[1] + 1), rng.range(0, latency[1] * 4 + 2)]);
    const scenario = { property, tie: rng.u32(), policy: rng.bool(0.8) ? 'random' : 'time', faulty: windows.length > 0, repo, latency, slow: rng.pick([0, 0, 0.1]), windows, ops };
    if (limit !== undefined) scenario.limit = limit;
    return scenario;
}

export function world(property) {
    return {
        property,
        needs: 'mcp',
        components: {
            real: ['the server program: entry, protocol library, tools, resources, parsers, caches, session trace'],
            stub: ['network (fetch) with a synthetic repository of several revisions', 'clock and timers', 'standard input and output', 'process environment'],
        },
        ...(['M01', 'M03', 'M05'].includes(property) ? { budget: { quick: { runs: 1600, capMs: 150_000 } } } : { budget: { quick: { runs: 5000, capMs: 150_000 } } }),
        maxSteps: 6000,
        maxTime: 48 * 3600_000,
        generate: (rng, size) => generate(property, rng, size),
        run: (sim, scenario, bundle) => runServer(sim, scenario, bundle, property),
        shrinkLists: ['windows'],
        nontrivial: (r) => (r.probes.replies ?? 0) > 1 && (property === 'M06' ? (r.probes['traces of several calls'] ?? 0) > 0 : property === 'M01' || property === 'M05' ? (r.probes['failed downloads'] ?? 0) > 0 : (r.probes['requests while others run'] ?? 0) > 0),
        rule: {
            M01: 'two or more replies and at least one failed download',
            M02: 'two or more replies, with requests running at the same time',
            M03: 'two or more replies, with requests running at the same time',
            M04: 'two or more replies, with requests running at the same time',
            M05: 'two or more replies and at least one failed download',
            M06: 'at least one trace that lists several calls',
        }[property],
    };
}
