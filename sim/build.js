'use strict';
// Builds what the simulator runs from /repo's *current* working tree:
//   .build/contracts-<hash>.json  - solc output (abi + bytecode) of /repo/contracts plus /verif/contracts
//   .build/sdk-<hash>.js          - one bundle of /repo/src, evaluated once per simulated node
// Both are keyed by the content they were built from, so a change in /repo always rebuilds.
const fs = require('fs');
const path = require('path');
const crypto = require('crypto');

const REPO = process.env.VERIF_REPO || '/repo';
const VERIF = path.resolve(__dirname, '..');
const OUT = path.join(VERIF, '.build');

function walk(dir, exts, acc = []) {
    for (const e of fs.readdirSync(dir, { withFileTypes: true }).sort((a, b) => (a.name < b.name ? -1 : 1))) {
        const p = path.join(dir, e.name);
        if (e.isDirectory()) walk(p, exts, acc);
        else if (exts.some((x) => e.name.endsWith(x))) acc.push(p);
    }
    return acc;
}
function hashFiles(files, extra = '') {
    const h = crypto.createHash('sha256');
    for (const f of files) {
        h.update(f + '\0');
        h.update(fs.readFileSync(f));
        h.update('\0');
    }
    h.update(extra);
    return h.digest('hex').slice(0, 20);
}
function writeAtomic(p, data) {
    const tmp = p + '.' + process.pid + '.tmp';
    fs.writeFileSync(tmp, data);
    fs.renameSync(tmp, p);
}
async function lockedBuild(target, build) {
    if (fs.existsSync(target)) return target;
    // outputs for the pinned tree are committed (gzip), under the same content hash, to save compiling them in every check
    const pre = path.join(__dirname, 'prebuilt', path.basename(target) + '.gz');
    if (fs.existsSync(pre)) { fs.mkdirSync(OUT, { recursive: true }); writeAtomic(target, require('zlib').gunzipSync(fs.readFileSync(pre))); return target; }
    fs.mkdirSync(OUT, { recursive: true });
    writeAtomic(target, await build());
    return target;
}
// comments do not change bytecode here (metadata is switched off), so they do not change the key either
function stripSolComments(src) {
    return src.replace(/\/\*[\s\S]*?\*\/|\/\/[^\n]*/g, (m) => m.replace(/[^\n]/g, ' ')).replace(/[ \t]+$/gm, '').replace(/\n+/g, '\n');
}
// ---------------------------------------------------------------- contracts
function solFiles() {
    return [
        ...walk(path.join(REPO, 'contracts'), ['.sol']).filter((f) => !f.includes('/contracts/test/')),
        ...walk(path.join(VERIF, 'contracts'), ['.sol'])
    ];
}
function buildContracts() {
    const files = solFiles();
    const sources = {};
    const h = crypto.createHash('sha256');
    for (const f of files) {
        const key = f.startsWith(REPO + '/') ? f.slice(REPO.length + 1) : 'verif/' + path.relative(VERIF, f);
        const text = fs.readFileSync(f, 'utf8');
        sources[key] = { content: text };
        h.update(key + '\0' + stripSolComments(text) + '\0');
    }
    const settings = {
        viaIR: true,
        evmVersion: 'paris', // what hardhat uses for this compiler
        optimizer: { enabled: true, runs: 100 },
        metadata: { bytecodeHash: 'none', appendCBOR: false }
    };
    h.update(JSON.stringify(settings) + TARGETS.join());
    const target = path.join(OUT, 'contracts-' + h.digest('hex').slice(0, 20) + '.json');
    return lockedBuild(target, async () => {
        const { Worker } = require('worker_threads');
        const groups = TARGETS.map((names) => ({ sources, settings, names: names.split('+') }));
        const parts = await Promise.all(groups.map((g) => new Promise((res, rej) => {
            const w = new Worker(__filename, { workerData: { solc: g }, resourceLimits: { maxOldGenerationSizeMb: 3000 } });
            w.on('message', res); w.on('error', rej);
        })));
        for (const p of parts) if (p.error) throw new Error(p.error);
        return JSON.stringify(Object.assign({}, ...parts.map((p) => p.out)));
    });
}
// contracts that are deployed, one compiler instance per group
const TARGETS = ['DisputeManagerFacet', 'MathStateChannelManagerProxy', 'VaultManagerProxy', 'MathStateMachine+RichStateMachine+VaultStateMachine+StateChannelUtilLibrary'];
function compileGroup({ sources, settings, names }) {
    const solc = loadSolc();
    const sel = {};
    for (const f of Object.keys(sources)) for (const n of names) if (path.basename(f) === n + '.sol') sel[f] = { [n]: ['abi', 'evm.bytecode.object', 'evm.bytecode.linkReferences'] };
    const need = names.filter((n) => !Object.values(sel).some((x) => x[n]));
    if (need.length) return { error: 'no source for ' + need };
    const out = JSON.parse(
        solc.compile(JSON.stringify({ language: 'Solidity', sources, settings: { ...settings, outputSelection: sel } }), {
            import(p) {
                for (const c of [path.join(REPO, p), path.join(REPO, 'node_modules', p)])
                    if (fs.existsSync(c)) return { contents: fs.readFileSync(c, 'utf8') };
                return { error: 'not found: ' + p };
            }
        })
    );
    const errs = (out.errors || []).filter((e) => e.severity === 'error');
    if (errs.length) return { error: 'solc: ' + errs.map((e) => e.formattedMessage).join('\n') };
    const res = {};
    for (const [file, cs] of Object.entries(out.contracts))
        for (const [name, c] of Object.entries(cs)) res[file + ':' + name] = { abi: c.abi, bytecode: c.evm.bytecode.object, links: c.evm.bytecode.linkReferences };
    return { out: res };
}
function loadSolc() {
    const wrapper = require(path.join(REPO, 'node_modules/hardhat/node_modules/solc/wrapper'));
    const dirs = ['/root/.cache/hardhat-nodejs/compilers-v2', process.env.HOME + '/.cache/hardhat-nodejs/compilers-v2'];
    for (const d of dirs)
        for (const sub of ['wasm', 'linux-amd64']) {
            const p = path.join(d, sub);
            if (!fs.existsSync(p)) continue;
            const f = fs.readdirSync(p).find((x) => /^soljson.*0\.8\.26.*\.js$/.test(x));
            if (f) return wrapper(require(path.join(p, f)));
        }
    const s = require(path.join(REPO, 'node_modules/hardhat/node_modules/solc'));
    if (!/^0\.8\.26/.test(s.version())) console.error('warning: solc ' + s.version());
    return s;
}
// ---------------------------------------------------------------- SDK bundle
function esbuildModule() {
    for (const p of [path.join(REPO, 'node_modules/esbuild'), '/opt/veriftools/node/node_modules/esbuild'])
        if (fs.existsSync(p)) return require(p);
    throw new Error('esbuild not found');
}
function resolveFile(base) {
    for (const c of [base, base + '.ts', path.join(base, 'index.ts')])
        if (fs.existsSync(c) && fs.statSync(c).isFile()) return c;
    return undefined;
}
const EXTERNAL = /^(ethers|@ethereumjs\/.*|buffer|ws|crypto|http|net|events|constants|path|fs|util|stream|url|os)$/;
async function buildSdk() {
    const esbuild = esbuildModule();
    const entry = path.join(__dirname, 'sdk-entry.ts');
    const result = await esbuild.build({
        entryPoints: [entry],
        bundle: true,
        write: false,
        format: 'cjs',
        platform: 'node',
        target: 'node20',
        sourcemap: false,
        keepNames: false,
        logLevel: 'silent',
        tsconfigRaw: { compilerOptions: { target: 'es2020' } },
        plugins: [
            {
                name: 'repo',
                setup(b) {
                    b.onResolve({ filter: /typechain-types/ }, (a) => ({ path: a.path, namespace: 'empty' }));
                    b.onResolve({ filter: /^(hyperswarm|@hyperswarm\/.*|get-webrtc|dotenv)$/ }, (a) => ({ path: a.path, namespace: 'stub' }));
                    b.onResolve({ filter: /^@repo\// }, (a) => ({ path: resolveFile(path.join(REPO, 'src', a.path.slice(6))) }));
                    b.onResolve({ filter: /^@\// }, (a) => {
                        const f = resolveFile(path.join(REPO, 'src', a.path.slice(2)));
                        // type-only modules that were never written (e.g. @/IOnMessage)
                        return f ? { path: f } : { path: a.path, namespace: 'empty' };
                    });
                    b.onResolve({ filter: EXTERNAL }, (a) => ({ path: a.path, external: true }));
                    b.onLoad({ filter: /.*/, namespace: 'empty' }, () => ({ contents: 'module.exports = {};', loader: 'js' }));
                    b.onLoad({ filter: /.*/, namespace: 'stub' }, (a) => ({
                        contents: `module.exports = require("sim:${a.path}");`,
                        loader: 'js'
                    }));
                    b.onResolve({ filter: /^sim:/ }, (a) => ({ path: a.path, external: true }));
                }
            }
        ]
    });
    const code = result.outputFiles[0].text;
    const h = crypto.createHash('sha256').update(code).digest('hex').slice(0, 20);
    const target = path.join(OUT, 'sdk-' + h + '.js');
    return lockedBuild(target, () => code);
}
async function build() {
    fs.mkdirSync(OUT, { recursive: true });
    const t0 = Date.now();
    const sdk = await buildSdk();
    const t1 = Date.now();
    const contracts = await buildContracts();
    return { sdk, contracts, ms: { sdk: t1 - t0, contracts: Date.now() - t1 } };
}
// keep the newest few outputs only
function prune() {
    try {
        for (const pre of ['sdk-', 'contracts-']) {
            const fs_ = fs.readdirSync(OUT).filter((f) => f.startsWith(pre) && !f.endsWith('.tmp')).map((f) => [fs.statSync(path.join(OUT, f)).mtimeMs, f]).sort((a, b) => b[0] - a[0]);
            for (const [, f] of fs_.slice(12)) fs.unlinkSync(path.join(OUT, f));
        }
    } catch (e) {}
}
module.exports = { build, prune, REPO, VERIF, OUT };
const wt = require('worker_threads');
if (!wt.isMainThread && wt.workerData && wt.workerData.solc) {
    let r; try { r = compileGroup(wt.workerData.solc); } catch (e) { r = { error: String(e.stack || e) }; }
    wt.parentPort.postMessage(r);
} else if (require.main === module)
    build().then(
        (r) => { prune(); console.log(JSON.stringify(r)); },
        (e) => { console.error(e); process.exit(2); }
    );
