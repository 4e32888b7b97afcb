// Writes MANIFEST.json from the published properties:  node tools/manifest.mjs
import { writeFileSync } from 'node:fs';
import path from 'node:path';
import { fileURLToPath } from 'node:url';
import { published } from './props.mjs';
import { loadWorld } from '../sim/worlds/index.mjs';

const checks = [];
for (const p of published) {
    const world = await loadWorld(p.id);
    checks.push({
        property: p.id,
        quick_cmd: `. /opt/vp/env.sh && node sim/check.mjs ${p.id}`,
        thorough_cmd: `. /opt/vp/env.sh && node sim/check.mjs ${p.id}`,
        evidence_file: `evidence/${p.id}.json`,
        technique: 'deterministic simulation with fault injection; seeded search over schedules, oracle = executable reference model',
        level: 'exploration',
        level_note: world.note ?? 'Real library code on a simulated clock, scheduler, observers and I/O; a violation is a reproducible counterexample, absence of one covers the sampled schedules only. Trusts jsdom, Vue and the reference model.',
    });
}
const manifest = {
    version: 1,
    setup_cmd: '. /opt/vp/env.sh && node sim/lib/build.mjs',
    hooks: { guard: 'none', enable: 'no hooks are needed: every source of nondeterminism is an injectable global of the bundle (clock, timers, frames, observers, storage, fetch)', source_commits: [] },
    checks,
    not_applicable: [],
    notes: 'One runner (sim/check.mjs) for all properties. VERIF_SEED seeds every choice; VERIF_TIER selects run counts. Replay: node sim/replay.mjs <file> [--trace]. Findings: KNOWN_FINDINGS.txt.',
};
writeFileSync(path.resolve(path.dirname(fileURLToPath(import.meta.url)), '../MANIFEST.json'), JSON.stringify(manifest, null, 1) + '\n');
console.log(checks.length, 'checks');
