// Worker process: executes runs of one property and reports aggregated measures.
import { executeScenario, scenarioFor } from './lib/execute.mjs';
import { loadWorld } from './worlds/index.mjs';

const [property, bundle, seed] = process.argv.slice(2);
const world = await loadWorld(property);

process.on('message', async (msg) => {
    if (msg.type === 'exit') process.exit(0);
    const out = {
        type: 'done', id: msg.id, from: msg.from, to: msg.to, runs: 0, steps: 0, simMs: 0, oracle: 0, choices: 0, faulty: 0,
        nontrivial: 0, faults: {}, probes: {}, probeRuns: {}, shapes: [], states: [], digests: [], violations: [],
    };
    const shapes = new Set();
    const states = new Set();
    for (let i = msg.from; i < msg.to; i++) {
        process.send({ type: 'start', id: msg.id, run: i });
        const scenario = scenarioFor(world, `${seed}|${property}|${i}`, msg.size);
        const r = await executeScenario(world, scenario, bundle);
        out.runs++;
        out.steps += r.steps;
        out.simMs += r.simMs;
        out.oracle += r.evaluations;
        out.choices += r.choicePoints;
        if (r.faulty) out.faulty++;
        for (const k in r.faults) out.faults[k] = (out.faults[k] ?? 0) + r.faults[k];
        for (const k in r.probes) {
            out.probes[k] = (out.probes[k] ?? 0) + r.probes[k];
            if (r.probes[k]) out.probeRuns[k] = (out.probeRuns[k] ?? 0) + 1;
        }
        if (world.nontrivial(r)) {
            out.nontrivial++;
            shapes.add(r.shape);
        }
        for (const s of r.states) states.add(s);
        out.digests.push(r.digest);
        if (r.violation) out.violations.push({ run: i, ...r.violation });
    }
    out.shapes = [...shapes];
    out.states = [...states];
    process.send(out);
});
process.on('disconnect', () => process.exit(0));
process.send({ type: 'ready' });
