// The built documentation server as a child process whose network this script answers.
import { fork } from 'node:child_process';
import path from 'node:path';
import { fileURLToPath } from 'node:url';

const here = path.dirname(fileURLToPath(import.meta.url));
export const sleep = (ms) => new Promise((r) => setTimeout(r, ms));

/**
 * files: { 'main:path': text } ; dirs are derived from the file names.
 * options.answer(address, plain) may return { status, body }, { fail: message }, or a promise of one; undefined = plain answer.
 */
export async function openServer(files, options = {}) {
    const log = [];
    const lookup = (href) => {
        const url = new URL(href);
        if (url.hostname.startsWith('raw.')) {
            const [ref, ...rest] = url.pathname.split('/').slice(3);
            const name = `${decodeURIComponent(ref)}:${rest.join('/')}`;
            return { name, ...(name in files ? { status: 200, body: files[name] } : { status: 404, body: '' }) };
        }
        if (url.pathname.endsWith('/releases')) return { name: 'releases', status: 200, body: JSON.stringify(options.releases ?? []) };
        const dir = url.pathname.split('/contents/')[1];
        const ref = url.searchParams.get('ref') ?? 'main';
        const start = `${ref}:${dir}/`;
        const seen = new Map();
        for (const key of Object.keys(files)) {
            if (!key.startsWith(start)) continue;
            const [name, ...more] = key.slice(start.length).split('/');
            if (!seen.has(name)) seen.set(name, { name, path: `${dir}/${name}`, type: more.length ? 'dir' : 'file' });
        }
        return { name: start, ...(seen.size ? { status: 200, body: JSON.stringify([...seen.values()]) } : { status: 404, body: '{}' }) };
    };
    const child = fork(path.join(process.cwd(), 'packages/vlossom-mcp/dist/index.js'), [], {
        execArgv: ['-r', path.join(here, 'net.cjs')],
        stdio: ['pipe', 'pipe', 'inherit', 'ipc'],
        env: { PATH: process.env.PATH, ...options.env },
    });
    let flying = 0;
    const server = { log, most: 0 };
    child.on('message', async ({ id, href }) => {
        const plain = lookup(href);
        log.push(plain.name);
        flying++;
        server.most = Math.max(server.most, flying);
        const reply = (await options.answer?.(plain.name, plain)) ?? plain;
        flying--;
        child.send({ id, ...reply });
    });
    const waiting = new Map();
    let text = '';
    child.stdout.on('data', (chunk) => {
        text += chunk;
        let at;
        while ((at = text.indexOf('\n')) >= 0) {
            const message = JSON.parse(text.slice(0, at));
            text = text.slice(at + 1);
            waiting.get(message.id)?.(message);
        }
    });
    let next = 0;
    const ask = (method, params) =>
        new Promise((resolve) => {
            const id = ++next;
            waiting.set(id, resolve);
            child.stdin.write(`${JSON.stringify({ jsonrpc: '2.0', id, method, params })}\n`);
        });
    server.call = async (name, args) => {
        const reply = await ask('tools/call', { name, arguments: args });
        return { ...reply.result?.structuredContent, trace: reply.result?._meta };
    };
    server.clock = (ms) => child.send({ clock: ms });
    server.read = (uri) => ask('resources/read', { uri });
    await ask('initialize', { protocolVersion: '2025-06-18', capabilities: {}, clientInfo: { name: 'demo', version: '1' } });
    child.stdin.write('{"jsonrpc":"2.0","method":"notifications/initialized"}\n');
    process.on('exit', () => child.kill());
    return server;
}

export const readme = (name, text, since = '2.0.0+') => `# ${name}\n\n${text}\n\n**Available Version**: ${since}\n\n## Props\n| Prop | Type | Default | Required | Description |\n| --- | --- | --- | --- | --- |\n| \`label\` | \`string\` | - | - | label |\n`;

let failed = 0;
export function must(ok, what) {
    if (ok) return;
    failed++;
    console.log(`FAILED: ${what}`);
}
export function done() {
    console.log(failed ? `${failed} expectations failed` : 'ok');
    process.exit(failed ? 1 : 0);
}
