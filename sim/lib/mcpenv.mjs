// The documentation server as a process: its program entry, talking over its standard input and output, with a
// simulated network, clock and environment. Every instance evaluates the bundle afresh, so nothing is shared
// between instances.
import { EventEmitter } from 'node:events';
import { readFileSync } from 'node:fs';
import { createRequire } from 'node:module';
import path from 'node:path';
import vm from 'node:vm';
import { MCP } from './build.mjs';

const req = createRequire(path.join(MCP, 'package.json'));
const NAMES = ['exports', 'require', 'module', '__filename', '__dirname', 'process', 'fetch', 'Date', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'performance', 'console'];

let compiled = null;
function compile(file) {
    if (compiled?.file === file) return compiled.script;
    const code = readFileSync(file, 'utf8').replace(/^#!.*/, '');
    compiled = { file, script: new vm.Script(`(function(${NAMES.join(',')}){${code}\n})`, { filename: file }) };
    return compiled.script;
}

/**
 * options: { fetch, api: timers, Date, env, onMessage(message), onExit(code), onError(text) }
 */
export function startServer(bundle, options) {
    const stdin = new EventEmitter();
    stdin.pause = () => {};
    stdin.resume = () => {};
    let buffer = '';
    const stdout = new EventEmitter();
    stdout.write = (chunk) => {
        buffer += chunk;
        let at;
        while ((at = buffer.indexOf('\n')) >= 0) {
            const line = buffer.slice(0, at);
            buffer = buffer.slice(at + 1);
            let message = null;
            try {
                message = JSON.parse(line);
            } catch {
                options.onError?.(`not a protocol message on standard output: ${line.slice(0, 80)}`);
                continue;
            }
            options.onMessage(message);
        }
        return true;
    };
    const proc = Object.create(process, {
        stdin: { value: stdin },
        stdout: { value: stdout },
        stderr: { value: { write: (text) => (options.onError?.(`stderr: ${text}`), true) } },
        env: { value: { ...options.env } },
        exit: { value: (code) => options.onExit?.(code) },
    });
    const requireFn = (name) => (name === 'node:process' || name === 'process' ? proc : req(name));
    const module = { exports: {} };
    const dir = path.join(MCP, 'src');
    const quiet = () => {};
    const fn = compile(bundle).runInThisContext();
    fn(
        module.exports, requireFn, module, path.join(dir, 'index.js'), dir, proc, options.fetch, options.Date ?? Date,
        options.api.setTimeout, options.api.clearTimeout, options.api.setInterval, options.api.clearInterval,
        (f, ...args) => options.api.setTimeout(f, 0, ...args), { now: () => (options.Date ?? Date).now() },
        { log: quiet, warn: quiet, error: quiet, info: quiet, debug: quiet },
    );
    return {
        send(message) {
            stdin.emit('data', Buffer.from(`${JSON.stringify(message)}\n`));
        },
    };
}
