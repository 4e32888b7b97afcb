// Developer tool: node sim/min.mjs PROP RUN -- shrinks one failing run and prints its scenario and trace
import { buildFor } from './lib/build.mjs';
import { executeScenario, scenarioFor } from './lib/execute.mjs';
import { minimise } from './lib/minimise.mjs';
import { loadWorld } from './worlds/index.mjs';
const [prop, run] = process.argv.slice(2);
const world = await loadWorld(prop);
const bundle = await buildFor(world);
const scenario = scenarioFor(world, `1|${prop}|${run}`, world.sizes?.('quick', +run, 2400));
const first = await executeScenario(world, scenario, bundle);
if (!first.violation) console.log('no violation');
else {
    const { scenario: best } = await minimise(world, scenario, bundle, first.violation.klass);
    const r = await executeScenario(world, best, bundle, { trace: true });
    const { ops, ...rest } = best;
    console.log(JSON.stringify(rest));
    for (const op of ops) console.log('  ', JSON.stringify(op));
    console.log(r.trace.join('\n'));
}
