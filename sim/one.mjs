// Developer tool: node sim/one.mjs PROP FROM TO  -- runs seeds in this process and prints violations
import { buildFor } from './lib/build.mjs';
import { executeScenario, scenarioFor } from './lib/execute.mjs';
import { loadWorld } from './worlds/index.mjs';
const [prop, from = '0', to = '50', flag] = process.argv.slice(2);
const world = await loadWorld(prop);
const bundle = await buildFor(world);
const classes = {};
const probes = {};
let n = 0;
const t = Date.now();
for (let i = +from; i < +to; i++) {
    const scenario = scenarioFor(world, `1|${prop}|${i}`);
    const r = await executeScenario(world, scenario, bundle, { trace: flag === 'trace' });
    n++;
    for (const k in r.probes) probes[k] = (probes[k] ?? 0) + r.probes[k];
    for (const k in r.faults) probes['fault:' + k] = (probes['fault:' + k] ?? 0) + r.faults[k];
    if (r.violation) {
        const k = r.violation.klass;
        classes[k] = (classes[k] ?? 0) + 1;
        if (classes[k] <= 3) console.log(i, k, r.violation.message.slice(0, 600));
    }
    if (flag === 'trace') {
        console.log(JSON.stringify(scenario, null, 1));
        console.log(r.trace.join('\n'));
    }
}
console.log({ n, ms: (Date.now() - t) / n, classes, probes });
