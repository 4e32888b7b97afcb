// Builds the code under test from the current working tree of the repository.
// Nothing is written inside the repository: bundles go to <verif>/.build/<hash>/.
import { createHash } from 'node:crypto';
import { existsSync, mkdirSync, readFileSync, readdirSync, renameSync, rmSync, statSync, writeFileSync } from 'node:fs';
import { createRequire } from 'node:module';
import path from 'node:path';
import { fileURLToPath, pathToFileURL } from 'node:url';

export const VERIF = path.resolve(path.dirname(fileURLToPath(import.meta.url)), '../..');
export const REPO = process.env.VERIF_REPO || '/repo';
export const UI = path.join(REPO, 'packages/vlossom');
export const MCP = path.join(REPO, 'packages/vlossom-mcp');
const BUILD_ROOT = path.join(VERIF, '.build');

function* walk(dir) {
    for (const entry of readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
        if (entry.name === 'node_modules' || entry.name === 'dist' || entry.name === '__tests__') continue;
        const full = path.join(dir, entry.name);
        if (entry.isDirectory()) yield* walk(full);
        else yield full;
    }
}

function hashTree(dir, extra) {
    const hash = createHash('sha256');
    for (const file of walk(dir)) {
        if (!/\.(ts|js|mjs|vue|json|tsx|css|scss)$/.test(file)) continue;
        hash.update(path.relative(dir, file) + '\0');
        hash.update(readFileSync(file));
        hash.update('\0');
    }
    hash.update(extra);
    return hash.digest('hex').slice(0, 20);
}

function pruneOld(prefix, keep) {
    // old bundles of this prefix; keeps the few most recent so that parallel checks do not pull the rug
    const all = readdirSync(BUILD_ROOT)
        .filter((n) => n.startsWith(prefix) && n !== keep && !n.includes('.tmp'))
        .map((n) => ({ n, t: statSync(path.join(BUILD_ROOT, n)).mtimeMs }))
        .sort((a, b) => b.t - a.t);
    for (const { n } of all.slice(6)) rmSync(path.join(BUILD_ROOT, n), { recursive: true, force: true });
}

async function cached(prefix, key, make) {
    mkdirSync(BUILD_ROOT, { recursive: true });
    const name = `${prefix}-${key}`;
    const dir = path.join(BUILD_ROOT, name);
    const file = path.join(dir, 'bundle.js');
    if (existsSync(file)) return file;
    const code = await make();
    const tmp = path.join(BUILD_ROOT, `${name}.tmp${process.pid}`);
    mkdirSync(tmp, { recursive: true });
    writeFileSync(path.join(tmp, 'bundle.js'), code);
    try {
        renameSync(tmp, dir);
    } catch (error) {
        rmSync(tmp, { recursive: true, force: true });
        if (!existsSync(file)) throw error;
    }
    pruneOld(prefix, name);
    return file;
}

/** Bundles the UI library (public entry) with Vue into one CommonJS script. */
export async function buildUi() {
    const self = readFileSync(fileURLToPath(import.meta.url));
    const key = hashTree(path.join(UI, 'src'), self);
    return cached('ui', key, async () => {
        const req = createRequire(path.join(UI, 'package.json'));
        const vite = await import(pathToFileURL(path.join(UI, 'node_modules/vite/dist/node/index.js')).href);
        const vue = (await import(pathToFileURL(req.resolve('@vitejs/plugin-vue')).href)).default;
        const entryId = '\0verif-ui-entry';
        const previous = process.cwd();
        const result = await vite.build({
            configFile: false,
            root: UI,
            logLevel: 'error',
            mode: 'production',
            publicDir: false,
            define: { 'process.env.NODE_ENV': '"production"', 'import.meta.env.DEV': 'false' },
            plugins: [
                {
                    name: 'verif-entry',
                    enforce: 'pre',
                    resolveId(id) {
                        if (id.endsWith('verif-ui-entry')) return entryId;
                        if (/\.(css|scss)(\?.*)?$/.test(id)) return '\0verif-empty.js';
                        return null;
                    },
                    load(id) {
                        if (id === entryId) {
                            return `export * as V from ${JSON.stringify(path.join(UI, 'src/main.ts'))};\nexport * as Vue from ${JSON.stringify(path.join(UI, 'node_modules/vue/dist/vue.runtime.esm-bundler.js'))};\n`;
                        }
                        if (id === '\0verif-empty.js') return 'export default {};';
                        if (/[?&]type=style/.test(id)) return '';
                        return null;
                    },
                },
                vue(),
            ],
            resolve: {
                alias: { '@': path.join(UI, 'src') },
                dedupe: ['vue'],
            },
            build: {
                write: false,
                minify: false,
                target: 'node22',
                cssCodeSplit: false,
                assetsInlineLimit: 1e9,
                lib: { entry: 'verif-ui-entry', formats: ['cjs'], fileName: () => 'bundle.js' },
                rollupOptions: { output: { inlineDynamicImports: true, exports: 'named' }, onwarn() {} },
            },
        });
        process.chdir(previous);
        const out = (Array.isArray(result) ? result[0] : result).output.find((o) => o.type === 'chunk');
        return out.code;
    });
}

/** Bundles the MCP server program with the protocol library. */
export async function buildMcp() {
    const self = readFileSync(fileURLToPath(import.meta.url));
    const key = hashTree(path.join(MCP, 'src'), Buffer.concat([self, readFileSync(path.join(MCP, 'package.json'))]));
    return cached('mcp', key, async () => {
        const req = createRequire(path.join(MCP, 'package.json'));
        const esbuild = req('esbuild');
        const result = await esbuild.build({
            // the program entry itself: it is driven through its standard input and output
            stdin: {
                contents: `import './src/index';`,
                resolveDir: MCP,
                loader: 'ts',
                sourcefile: 'verif-mcp-entry.ts',
            },
            absWorkingDir: MCP,
            bundle: true,
            platform: 'node',
            format: 'cjs',
            target: 'node22',
            write: false,
            logLevel: 'silent',
        });
        return result.outputFiles[0].text;
    });
}

export const buildFor = (world) => (world.needs === 'mcp' ? buildMcp() : buildUi());

if (process.argv[1] && path.resolve(process.argv[1]) === fileURLToPath(import.meta.url)) {
    const t = Date.now();
    console.log(await buildUi(), Date.now() - t);
    const u = Date.now();
    console.log(await buildMcp(), Date.now() - u);
}
