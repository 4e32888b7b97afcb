// Executes one scenario of one world in the current process and summarises it.
import { Sim, isStop } from './kernel.mjs';
import { Rng } from './rng.mjs';

let current = null;
process.on('unhandledRejection', (reason) => {
    if (isStop(reason)) return;
    if (current) {
        current.rejections.push(reason);
        current.log(`UNHANDLED ${reason && reason.message ? reason.message : String(reason)}`);
    }
});

export function scenarioFor(world, seedText, size) {
    return world.generate(new Rng(seedText), size);
}

export async function executeScenario(world, scenario, bundle, options = {}) {
    const sim = new Sim(scenario, { maxSteps: world.maxSteps, maxTime: world.maxTime, trace: options.trace });
    current = sim;
    try {
        await world.run(sim, scenario, bundle);
    } catch (error) {
        // an exception that escapes the world means the code under test did something no oracle foresaw
        if (!isStop(error) && !sim.violation) {
            const text = String(error?.stack ?? error).split('\n').slice(0, 4).join(' | ');
            sim.violation = { klass: `${world.property}:exception`, message: text, t: sim.now, step: sim.steps };
        }
    }
    // let anything left over settle before the next run starts
    sim.stopped = true;
    sim.invariants = [];
    sim.dispose?.();
    await new Promise((r) => setImmediate(r));
    current = null;
    return {
        violation: sim.violation,
        digest: sim.digest,
        shape: sim.shape,
        states: sim.states,
        steps: sim.steps,
        simMs: sim.now,
        faults: sim.faults,
        probes: sim.probes,
        evaluations: sim.evaluations,
        choicePoints: sim.choicePoints,
        faulty: !!scenario.faulty,
        trace: sim.trace,
    };
}
