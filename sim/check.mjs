// Decides one property: node sim/check.mjs ID   (VERIF_SEED, VERIF_TIER from the environment)
// Seeded search over simulated runs in worker processes; see DESIGN.md.
import { fork, spawnSync } from 'node:child_process';
import { existsSync, mkdirSync, readFileSync, writeFileSync } from 'node:fs';
import os from 'node:os';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { VERIF, buildFor } from './lib/build.mjs';
import { executeScenario, scenarioFor } from './lib/execute.mjs';
import { minimise } from './lib/minimise.mjs';
import { loadWorld } from './worlds/index.mjs';

const here = path.dirname(fileURLToPath(import.meta.url));
const property = process.argv[2];
const tier = process.env.VERIF_TIER === 'thorough' ? 'thorough' : 'quick';
const seed = Number.parseInt(process.env.VERIF_SEED ?? '1', 10) || 0;
const started = Date.now();
const HANG_MS = 45000;

const world = await loadWorld(property);
if (!world) {
    console.error(`unknown property ${property}`);
    process.exit(2);
}
const known = readKnown().filter((k) => k.property === property);
let bundle;
try {
    bundle = await buildFor(world);
} catch (error) {
    console.error('cannot build the code under test:', error?.message ?? error);
    process.exit(2);
}

const budget = { quick: { runs: 2400, capMs: 150_000 }, thorough: { runs: 60000, capMs: 780_000 }, ...world.budget };
const plan = budget[tier];
const totalRuns = Number(process.env.VERIF_RUNS) || plan.runs;
const nWorkers = Math.max(1, Math.min(Number(process.env.VERIF_WORKERS) || 8, os.availableParallelism?.() ?? 4));
const chunkSize = Math.max(5, Math.min(40, Math.ceil(totalRuns / nWorkers / 6)));
const RECYCLE = 1200;

const total = { runs: 0, steps: 0, simMs: 0, oracle: 0, choices: 0, faulty: 0, nontrivial: 0, faults: {}, probes: {}, probeRuns: {} };
const shapes = new Set();
const states = new Set();
const digests = new Map(); // run -> digest
const knownHits = new Map();
let found = [];
let nextRun = 0;
let chunkId = 0;
let mismatches = [];
let reruns = 0;
let capped = false;

const sizeFor = (run) => (world.sizes ? world.sizes(tier, run, totalRuns) : undefined);

function isKnown(v) {
    return known.find((k) => v.klass === k.klass);
}
function nextChunk() {
    const limit = found.length ? Math.min(...found.map((f) => f.run)) : totalRuns;
    if (!capped && Date.now() - started > plan.capMs) capped = true;
    if (nextRun < Math.min(limit, totalRuns) && !capped) {
        const from = nextRun;
        const to = Math.min(from + chunkSize, totalRuns);
        nextRun = to;
        return { id: ++chunkId, from, to, size: sizeFor(from) };
    }
    return null;
}
function add(target, source) {
    for (const k in source) target[k] = (target[k] ?? 0) + source[k];
}

function spawnWorker() {
    return new Promise((resolve) => {
        let child;
        let current = null;
        let currentRun = -1;
        let lastBeat = Date.now();
        let done = 0;
        let finished = false;
        const finish = () => {
            if (finished) return;
            finished = true;
            clearInterval(watch);
            resolve();
        };
        const give = () => {
            current = nextChunk();
            if (!current) {
                child.send({ type: 'exit' });
                finish();
                return;
            }
            lastBeat = Date.now();
            child.send({ type: 'run', ...current });
        };
        const boot = () => {
            done = 0;
            child = fork(path.join(here, 'worker.mjs'), [property, bundle, String(seed)], {
                execArgv: ['--max-old-space-size=3000'],
                stdio: ['ignore', 'ignore', 'inherit', 'ipc'],
            });
            lastBeat = Date.now();
            const me = child;
            child.on('message', (msg) => {
                if (me !== child) return;
                lastBeat = Date.now();
                if (msg.type === 'ready') give();
                else if (msg.type === 'start') currentRun = msg.run;
                else if (msg.type === 'done') {
                    absorb(msg);
                    done += msg.runs;
                    if (done >= RECYCLE) {
                        child.send({ type: 'exit' });
                        boot();
                    } else give();
                }
            });
            child.on('exit', (code, signal) => {
                if (me !== child || finished) return;
                if (current) {
                    // the process died inside a run (out of memory, fatal error): that is an outcome of the run
                    found.push({ run: currentRun, klass: `${property}:hang`, message: `the simulated run never came back (process ended: ${code ?? signal})` });
                }
                finish();
            });
        };
        const watch = setInterval(() => {
            if (finished || !current) return;
            if (Date.now() - lastBeat > HANG_MS) {
                found.push({ run: currentRun, klass: `${property}:hang`, message: `the code under test did not return control for ${HANG_MS / 1000} s of real time` });
                child.kill('SIGKILL');
                finish();
            }
        }, 1000);
        boot();
    });
}

function absorb(msg) {
    total.runs += msg.runs;
    total.steps += msg.steps;
    total.simMs += msg.simMs;
    total.oracle += msg.oracle;
    total.choices += msg.choices;
    total.faulty += msg.faulty;
    total.nontrivial += msg.nontrivial;
    add(total.faults, msg.faults);
    add(total.probes, msg.probes);
    add(total.probeRuns, msg.probeRuns);
    for (const s of msg.shapes) shapes.add(s);
    for (const s of msg.states) states.add(s);
    msg.digests.forEach((d, i) => digests.set(msg.from + i, d));
    for (const v of msg.violations) {
        const k = isKnown(v);
        if (k) knownHits.set(k.klass, (knownHits.get(k.klass) ?? 0) + 1);
        else found.push(v);
    }
}

async function phase(n) {
    await Promise.all(Array.from({ length: n }, () => spawnWorker()));
}
await phase(nWorkers);

// determinism self-test in fresh processes
async function selfTest() {
    const jobs = [];
    const queue = [];
    const n = Math.min(nextRun, tier === 'quick' ? 48 : 240);
    for (let i = 0; i < n; i++) queue.push(Math.floor((i * nextRun) / n));
    const workers = Math.min(4, nWorkers);
    for (let w = 0; w < workers; w++) {
        jobs.push(
            new Promise((resolve) => {
                const child = fork(path.join(here, 'worker.mjs'), [property, bundle, String(seed)], { stdio: ['ignore', 'ignore', 'inherit', 'ipc'] });
                const give = () => {
                    const run = queue.shift();
                    if (run === undefined) {
                        child.send({ type: 'exit' });
                        return;
                    }
                    child.send({ type: 'run', id: 0, from: run, to: run + 1, size: sizeFor(run - (run % chunkSize)) });
                };
                child.on('message', (msg) => {
                    if (msg.type === 'ready') give();
                    if (msg.type === 'done') {
                        reruns++;
                        if (digests.get(msg.from) !== msg.digests[0]) mismatches.push(msg.from);
                        give();
                    }
                });
                child.on('exit', resolve);
            }),
        );
    }
    await Promise.all(jobs);
}

let exitCode = 0;
let replayPath = null;
let minimised = null;
found.sort((a, b) => a.run - b.run);
if (found.length === 0) await selfTest();

if (found.length) {
    const first = found[0];
    const seedText = `${seed}|${property}|${first.run}`;
    const scenario = scenarioFor(world, seedText, sizeFor(first.run - (first.run % chunkSize)));
    const dir = path.join(VERIF, 'evidence', 'replays');
    mkdirSync(dir, { recursive: true });
    replayPath = path.join(dir, `${property}-seed${seed}-run${first.run}.json`);
    const hang = first.klass.endsWith(':hang');
    const write = (s, violation, digest, trace, runs) =>
        writeFileSync(replayPath, JSON.stringify({ property, seed, run: first.run, seedText, violation, digest, minimiseRuns: runs, originalOps: scenario.ops.length, ops: s.ops.length, scenario: s, trace }, null, 1));
    if (hang) {
        write(scenario, first, 0, [], 0);
    } else {
        let small = { scenario, runs: 0 };
        try {
            small = await minimise(world, scenario, bundle, first.klass);
        } catch (error) {
            console.error('minimiser failed, reporting the original scenario:', error?.message);
        }
        for (const candidate of [small.scenario, scenario]) {
            const r = await executeScenario(world, candidate, bundle, { trace: true });
            write(candidate, r.violation ?? first, r.digest, r.trace, small.runs);
            const again = spawnSync(process.execPath, [path.join(here, 'replay.mjs'), replayPath], { encoding: 'utf8', timeout: 120_000 });
            const line = (again.stdout ?? '').trim().split('\n').pop();
            let parsed = null;
            try {
                parsed = JSON.parse(line);
            } catch {
                /* handled below */
            }
            if (parsed && parsed.klass === (r.violation?.klass ?? null) && parsed.digest === r.digest && r.violation) {
                minimised = { ops_before: scenario.ops.length, ops_after: candidate.ops.length, executions: small.runs, replay_confirmed: true };
                first.message = r.violation.message;
                break;
            }
        }
        if (!minimised) {
            console.error(`CHECK ERROR: violation of run ${first.run} (${first.klass}: ${first.message}) did not reproduce from ${replayPath}`);
            exitCode = 2;
        }
    }
    if (exitCode === 0) exitCode = 1;
} else if (mismatches.length) {
    console.error(`CHECK ERROR: ${mismatches.length} of ${reruns} repeated runs differ from their first execution: runs ${mismatches.slice(0, 10).join(', ')}`);
    exitCode = 2;
}

const wall = (Date.now() - started) / 1000;
const samples = [];
for (let i = 0; i < Math.min(3, nextRun); i++) {
    const run = Math.floor((i * nextRun) / 3);
    samples.push({ run, seedText: `${seed}|${property}|${run}`, digest: digests.get(run), scenario: scenarioFor(world, `${seed}|${property}|${run}`, sizeFor(run - (run % chunkSize))) });
}
const evidence = {
    property,
    tier,
    seed,
    level: 'exploration',
    coverage: {
        evaluations: total.runs,
        distinct_nontrivial: shapes.size,
        rule: world.rule,
        samples,
        simulated_runs: { planned: totalRuns, stopped_by_time_cap: capped, fault_free: total.runs - total.faulty, with_faults: total.faulty, nontrivial: total.nontrivial },
        runs_per_hour: Math.round((total.runs / wall) * 3600),
        simulated_time_s: Math.round(total.simMs) / 1000,
        scheduler_steps: total.steps,
        scheduler_choice_points: total.choices,
        oracle_evaluations: total.oracle,
        faults_injected: total.faults,
        rare_conditions: Object.fromEntries(Object.keys(total.probes).sort().map((k) => [k, { times: total.probes[k], runs: total.probeRuns[k] }])),
        distinct_model_states: states.size,
        distinct_measure: 'distinct_nontrivial counts distinct sequences of scheduler task labels over non-trivial runs; distinct_model_states counts distinct abstract states recorded after steps',
        determinism: { runs_repeated_in_another_process: reruns, digest_mismatches: mismatches.length },
        components: world.components,
        workers: nWorkers,
        known_findings_hit: Object.fromEntries(knownHits),
        ...(found.length ? { first_violation: { run: found[0].run, class: found[0].klass, message: found[0].message, replay: replayPath, minimised } } : {}),
    },
    assumptions: [
        'user code reacts only through the documented API, DOM events and observers',
        'jsdom implements the DOM operations used faithfully; there is no real layout, geometry is supplied by the simulator',
        'JavaScript runs to completion per task and microtasks are drained after each task, as browsers do',
        ...(world.assumptions ?? []),
    ],
    wall_s: Math.round(wall * 100) / 100,
    violations: found.length ? 1 : 0,
};
mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
writeFileSync(path.join(VERIF, 'evidence', `${property}.json`), JSON.stringify(evidence, null, 1));

for (const k of known) if (knownHits.has(k.klass)) console.log(`KNOWN-FINDING: property=${property} ${k.text}`);
if (exitCode === 1) {
    console.log(`${found[0].klass}: ${found[0].message}`);
    console.log(`VIOLATION property=${property} replay=${replayPath}`);
} else if (exitCode === 0) {
    console.log(`${property} held: ${total.runs} runs (${shapes.size} distinct non-trivial interleavings, ${states.size} model states) in ${wall.toFixed(1)} s, ${Math.round(total.simMs / 1000)} s simulated`);
}
process.exit(exitCode);

function readKnown() {
    const file = path.join(VERIF, 'KNOWN_FINDINGS.txt');
    if (!existsSync(file)) return [];
    return readFileSync(file, 'utf8')
        .split('\n')
        .map((l) => /^known: property=(\S+) class=(\S+) (.*)$/.exec(l))
        .filter(Boolean)
        .map(([, p, klass, text]) => ({ property: p, klass, text }));
}
