// Shrinks a failing scenario while it keeps violating the same clause of the property.
import { executeScenario } from './execute.mjs';

const clone = (x) => JSON.parse(JSON.stringify(x));

export async function minimise(world, scenario, bundle, klass, budgetMs = 25000, budgetRuns = 700) {
    const t0 = Date.now();
    let runs = 0;
    let best = clone(scenario);
    const fails = async (candidate) => {
        if (Date.now() - t0 > budgetMs || runs >= budgetRuns) return false;
        runs++;
        const r = await executeScenario(world, candidate, bundle);
        return r.violation?.klass === klass;
    };
    const listKeys = () => Object.keys(best).filter((k) => Array.isArray(best[k]) && (k === 'ops' || (world.shrinkLists ?? []).includes(k)));
    let changed = true;
    while (changed) {
        changed = false;
        // drop chunks of list entries
        for (const key of listKeys()) {
            let chunk = Math.ceil(best[key].length / 2);
            while (chunk >= 1) {
                for (let i = 0; i < best[key].length; ) {
                    const candidate = clone(best);
                    candidate[key].splice(i, chunk);
                    if (candidate[key].length < best[key].length && (await fails(candidate))) {
                        best = candidate;
                        changed = true;
                    } else i += chunk;
                }
                if (chunk === 1) break;
                chunk = Math.ceil(chunk / 2);
            }
        }
        // unwrap bursts
        for (let i = 0; i < best.ops.length; i++) {
            const op = best.ops[i];
            if (!Array.isArray(op.ops)) continue;
            for (let j = 0; j < best.ops[i].ops.length; j++) {
                const candidate = clone(best);
                candidate.ops[i].ops.splice(j, 1);
                if (candidate.ops[i].ops.length && (await fails(candidate))) {
                    best = candidate;
                    changed = true;
                    j--;
                }
            }
        }
        // simpler scheduling and simpler option values
        if (best.policy !== 'time') {
            const candidate = { ...clone(best), policy: 'time' };
            if (await fails(candidate)) {
                best = candidate;
                changed = true;
            }
        }
        const simplify = async (get, put) => {
            const value = get(best);
            for (const [k, v] of Object.entries(value ?? {})) {
                if (['t', 'k', 'm', 'c', 'name', 'property', 'tie', 'policy', 'ops'].includes(k)) continue;
                const tries = v === true ? [false] : Array.isArray(v) && v.length > 1 && k !== 'containers' ? [v.slice(0, 1)] : v && typeof v === 'object' && !Array.isArray(v) ? [null] : [];
                for (const alt of tries) {
                    const candidate = clone(best);
                    put(candidate)[k] = alt;
                    if (await fails(candidate)) {
                        best = candidate;
                        changed = true;
                        break;
                    }
                }
            }
        };
        if (!changed) {
            for (let i = 0; i < best.ops.length; i++) await simplify((s) => s.ops[i], (s) => s.ops[i]);
            if (world.shrinkConfig !== false) for (const key of Object.keys(best)) {
                if (Array.isArray(best[key]) && key !== 'ops' && best[key].every((x) => x && typeof x === 'object')) {
                    for (let i = 0; i < best[key].length; i++) await simplify((s) => s[key][i], (s) => s[key][i]);
                }
            }
        }
    }
    return { scenario: best, runs };
}
