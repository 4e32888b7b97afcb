// Re-executes a replay file against the current working tree: node sim/replay.mjs FILE [--trace]
// Exit 1 and the violation when it reproduces, 0 when the run is clean.
import { readFileSync } from 'node:fs';
import { buildFor } from './lib/build.mjs';
import { executeScenario } from './lib/execute.mjs';
import { loadWorld } from './worlds/index.mjs';

const [file, flag] = process.argv.slice(2);
const replay = JSON.parse(readFileSync(file, 'utf8'));
const world = await loadWorld(replay.property);
const bundle = await buildFor(world);
if (replay.violation?.klass.endsWith(':hang') && flag !== '--child') {
    const { spawnSync } = await import('node:child_process');
    const child = spawnSync(process.execPath, [process.argv[1], file, '--child'], { timeout: 45000, killSignal: 'SIGKILL' });
    const hung = child.status === null || child.status > 1;
    console.log(JSON.stringify({ klass: hung ? replay.violation.klass : null, digest: 0 }));
    process.exit(hung ? 1 : 0);
}
const r = await executeScenario(world, replay.scenario, bundle, { trace: flag === '--trace' });
if (flag === '--trace') console.log(r.trace.join('\n'));
console.log(JSON.stringify({ klass: r.violation?.klass ?? null, digest: r.digest, message: r.violation?.message, step: r.violation?.step, t: r.violation?.t }));
process.exit(r.violation ? 1 : 0);
