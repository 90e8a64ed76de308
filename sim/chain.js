'use strict';
// A simulated ledger: the real contracts (compiled from /repo/contracts) executed by @ethereumjs/evm inside
// the process, with block production, mempool delay and event delivery decided by the simulator.
const fs = require('fs');
const path = require('path');
const { REPO } = require('./build');
const req = require('module').createRequire(path.join(REPO, 'package.json'));
const { ethers } = req('ethers');
const { EVM } = req('@ethereumjs/evm');
const { Address, Account, hexToBytes, bytesToHex } = req('@ethereumjs/util');

// ---------------------------------------------------------------- in-memory EVM state with undo log
class MemState {
    constructor(base) {
        this.accounts = base ? new Map(base.accounts) : new Map();
        this.code = base ? base.code : new Map();
        this.storage = base ? new Map(base.storage) : new Map();
        this.undo = [];
        this.orig = new Map();
        const self = this;
        this.originalStorageCache = {
            async get(a, k) { const kk = a.toString() + bytesToHex(k); return self.orig.has(kk) ? self.orig.get(kk) : self.storage.get(kk) || new Uint8Array(0); },
            clear() { self.orig.clear(); }
        };
    }
    _rec(map, key) { if (this.undo.length) this.undo[this.undo.length - 1].push([map, key, map.get(key), map.has(key)]); }
    async getAccount(a) { const x = this.accounts.get(a.toString()); return x ? new Account(x.nonce, x.balance, x.storageRoot, x.codeHash) : undefined; }
    async putAccount(a, acc) {
        const k = a.toString(); this._rec(this.accounts, k);
        if (acc === undefined) this.accounts.delete(k);
        else this.accounts.set(k, { nonce: acc.nonce, balance: acc.balance, storageRoot: acc.storageRoot, codeHash: acc.codeHash });
    }
    async deleteAccount(a) { const k = a.toString(); this._rec(this.accounts, k); this.accounts.delete(k); }
    async modifyAccountFields(a, f) { const acc = (await this.getAccount(a)) || new Account(); Object.assign(acc, f); await this.putAccount(a, acc); }
    async putContractCode(a, v) {
        const k = a.toString(); this._rec(this.code, k); this.code.set(k, v);
        await this.modifyAccountFields(a, { codeHash: ethers.getBytes(ethers.keccak256(v)) });
    }
    async getContractCode(a) { return this.code.get(a.toString()) || new Uint8Array(0); }
    async getContractCodeSize(a) { return (await this.getContractCode(a)).length; }
    async getContractStorage(a, key) { return this.storage.get(a.toString() + bytesToHex(key)) || new Uint8Array(0); }
    async putContractStorage(a, key, v) {
        const k = a.toString() + bytesToHex(key);
        if (!this.orig.has(k)) this.orig.set(k, this.storage.get(k) || new Uint8Array(0));
        this._rec(this.storage, k); this.storage.set(k, v);
    }
    async clearContractStorage() {}
    async checkpoint() { this.undo.push([]); }
    async commit() { const l = this.undo.pop(); if (this.undo.length) { const top = this.undo[this.undo.length - 1]; for (const r of l) top.push(r); } }
    async revert() { const l = this.undo.pop(); for (let i = l.length - 1; i >= 0; i--) { const [m, k, v, had] = l[i]; if (had) m.set(k, v); else m.delete(k); } }
    async getStateRoot() { return new Uint8Array(32); }
    async setStateRoot() {}
    async hasStateRoot() { return true; }
    async dumpStorage() { return {}; }
    async dumpStorageRange() { return {}; }
    async generateCanonicalGenesis() {}
    async getProof() { throw new Error('n/a'); }
    shallowCopy() { return new MemState(this); }
    async flush() {}
}
const zeroBytes = new Uint8Array(32);
function header(number, timestamp) {
    return { header: { number: BigInt(number), timestamp: BigInt(timestamp), coinbase: Address.zero(), difficulty: 0n, prevRandao: zeroBytes, gasLimit: 30000000n, baseFeePerGas: 0n, cliqueSigner: () => Address.zero(), getBlobGasPrice: () => undefined } };
}
const addr = (hex) => new Address(hexToBytes(hex.toLowerCase()));

// ---------------------------------------------------------------- deployment, done once per process and copied per run
let ARTIFACTS = null;
function loadArtifacts(file) { if (!ARTIFACTS) ARTIFACTS = JSON.parse(fs.readFileSync(file, 'utf8')); return ARTIFACTS; }
function artifact(name) {
    const k = Object.keys(ARTIFACTS).find((x) => x.endsWith(':' + name));
    if (!k) throw new Error('no artifact ' + name);
    return { key: k, ...ARTIFACTS[k] };
}
const DEPLOYER = '0x00000000000000000000000000000000000d3910';
let GENESIS = null;
async function deployAll() {
    if (GENESIS) return GENESIS;
    const st = new MemState();
    const evm = await EVM.create({ stateManager: st, allowUnlimitedContractSize: true });
    const libs = {};
    async function deploy(name, args = []) {
        const a = artifact(name);
        let code = a.bytecode;
        for (const [file, ls] of Object.entries(a.links || {}))
            for (const [lib, offs] of Object.entries(ls)) {
                const la = libs[file + ':' + lib] || (libs[file + ':' + lib] = await deploy(lib));
                for (const o of offs) code = code.slice(0, o.start * 2) + la.slice(2).toLowerCase() + code.slice((o.start + o.length) * 2);
            }
        const enc = new ethers.Interface(a.abi).encodeDeploy(args);
        const r = await evm.runCall({ caller: addr(DEPLOYER), data: hexToBytes('0x' + code + enc.slice(2)), gasLimit: 100000000n, block: header(1, 1700000000) });
        if (r.execResult.exceptionError) throw new Error('deploy ' + name + ': ' + r.execResult.exceptionError.error);
        st.originalStorageCache.clear();
        await evm.journal.cleanup();
        return ethers.getAddress(r.createdAddress.toString());
    }
    const facet = await deploy('DisputeManagerFacet');
    const out = { st, facet, apps: {} };
    for (const app of APPS) {
        const sm = await deploy(app.machine);
        const scm = await deploy(app.manager, [sm, facet]);
        out.apps[app.id] = { ...app, sm, scm, smAbi: artifact(app.machine).abi, scmAbi: artifact(app.manager).abi, smBytecode: '0x' + artifact(app.machine).bytecode };
    }
    GENESIS = out;
    return out;
}
// the applications that run in channels; 'math' is the repository's own example, 'rich' the same with more kinds of calls
const APPS = [{ id: 'math', machine: 'MathStateMachine', manager: 'MathStateChannelManagerProxy' }, { id: 'rich', machine: 'RichStateMachine', manager: 'MathStateChannelManagerProxy' }, { id: 'vault', machine: 'VaultStateMachine', manager: 'VaultManagerProxy' }];

class TxError extends Error {
    constructor(msg, data) { super(msg); this.code = 'CALL_EXCEPTION'; this.data = data; }
}

class SimChain {
    static async create(sim, cfg, artifactsFile) {
        loadArtifacts(artifactsFile);
        const g = await deployAll();
        const c = new SimChain();
        c.sim = sim;
        c.cfg = Object.assign({ blockMs: 1000, gas: true }, cfg);
        c.st = new MemState({ accounts: g.st.accounts, code: new Map(g.st.code), storage: g.st.storage });
        c.evm = await EVM.create({ stateManager: c.st, allowUnlimitedContractSize: true });
        c.apps = g.apps;
        c.facet = g.facet;
        c.facetIface = new ethers.Interface(artifact('DisputeManagerFacet').abi);
        c.mempool = [];
        c.baseNumber = c.cfg.base === undefined ? 1000 : c.cfg.base;
        c.subs = [];
        c.receipts = new Map();
        c.txWaiters = new Map();
        c.logs = []; // every event the contracts emitted, in order
        c.txs = []; // every transaction, in order
        c.nonce = 0;
        c.lock = Promise.resolve();
        c.lastTs = 0;
        return c;
    }
    // ---- block production: a block every blockMs; its timestamp is the second it is made in
    blockIndex(t = this.sim.now) { return Math.floor(t / this.cfg.blockMs); }
    latest() {
        const i = this.blockIndex();
        return { number: this.baseNumber + i, timestamp: Math.max(this.lastTs, this.tsOf(i)) };
    }
    tsOf(i) { return Math.floor((1800000000000 + i * this.cfg.blockMs) / 1000) + (this.cfg.tsOffset || 0); }
    _scheduleBlock() {
        if (this.blockEvent || !this.mempool.length) return; // empty blocks need no event
        const ready = Math.max(this.sim.now, Math.min(...this.mempool.map((t) => t.readyAt)));
        const next = Math.max((this.blockIndex() + 1) * this.cfg.blockMs, Math.ceil(ready / this.cfg.blockMs) * this.cfg.blockMs);
        this.blockEvent = this.sim.at(next, 'chain.block', () => this._produce());
    }
    async _produce() {
        this.blockEvent = null;
        const latest = this.latest();
        this.lastTs = latest.timestamp;
        const ready = this.mempool.filter((t) => t.readyAt <= this.sim.now);
        this.mempool = this.mempool.filter((t) => t.readyAt > this.sim.now);
        this._scheduleBlock();
        if (!ready.length) return;
        // inclusion order inside a block is the block producer's choice; one account's transactions keep nonce order
        let order = ready;
        if (this.cfg.shuffleBlock !== false && ready.length > 1) {
            const r = this.sim.rng('chain.order');
            const idx = r.shuffle(ready.map((_, i) => i));
            const bySender = new Map();
            for (const t of ready) { if (!bySender.has(t.from)) bySender.set(t.from, []); bySender.get(t.from).push(t); }
            order = idx.map((i) => bySender.get(ready[i].from).shift());
        }
        let index = 0;
        for (const tx of order) await this._execute(tx, latest, index++);
    }
    async _run(tx, blk) {
        this.sim.inflight++;
        try {
            return await this.evm.runCall({ caller: addr(tx.from), to: addr(tx.to), data: hexToBytes(tx.data), gasLimit: tx.gas, block: header(blk.number, blk.timestamp), skipBalance: true });
        } finally {
            this.st.originalStorageCache.clear();
            await this.evm.journal.cleanup();
            this.sim.inflight--;
        }
    }
    _serial(fn) { const p = this.lock.then(fn, fn); this.lock = p.then(() => {}, () => {}); return p; }
    async _execute(tx, blk, index) {
        // intrinsic gas (21000 + calldata) comes off the transaction's own limit, as on a real chain
        let intrinsic = 21000n;
        for (let i = 2; i < tx.data.length; i += 2) intrinsic += tx.data[i] === '0' && tx.data[i + 1] === '0' ? 4n : 16n;
        let res = null, ok = false, err = null, logs = [];
        if (tx.gasLimit <= intrinsic) err = 'intrinsic gas';
        else {
            res = await this._serial(() => this._run({ ...tx, gas: tx.gasLimit - intrinsic }, blk));
            ok = !res.execResult.exceptionError;
            if (!ok) err = res.execResult.exceptionError.error;
        }
        const ret = res ? ethers.hexlify(res.execResult.returnValue) : '0x';
        if (ok)
            logs = (res.execResult.logs || []).map((l, i) => ({
                address: ethers.getAddress(ethers.hexlify(l[0])), topics: l[1].map((t) => ethers.hexlify(t)), data: ethers.hexlify(l[2]),
                blockNumber: blk.number, transactionHash: tx.hash, logIndex: i, timestamp: blk.timestamp, tx
            }));
        Object.assign(tx, { status: ok ? 1 : 0, error: ok ? null : this.errorName(ret, err), blockNumber: blk.number, timestamp: blk.timestamp, gasUsed: res ? res.execResult.executionGasUsed : 0n, logs, minedAt: this.sim.now });
        this.sim.log('chain.tx', { from: tx.from, fn: tx.fn, ok, err: tx.error || undefined });
        this.sim.count('chain.tx.' + (ok ? 'ok' : 'reverted'));
        this.receipts.set(tx.hash, tx);
        for (const l of logs) this.logs.push(l);
        if (this.onTx) await this.onTx(tx);
        for (const l of logs) for (const s of this.subs) s.offer(l);
        for (const w of this.txWaiters.get(tx.hash) || []) w(tx);
        this.txWaiters.delete(tx.hash);
    }
    errorName(ret, fallback) {
        if (ret && ret.length >= 10) {
            for (const i of [this.facetIface, ...Object.values(this.apps).map((a) => (a.iface = a.iface || new ethers.Interface(a.scmAbi)))])
                try { const e = i.parseError(ret); if (e) return e.name === 'Error' ? String(e.args[0]) : e.name; } catch (x) {}
        }
        return fallback || 'revert';
    }
    fnName(to, data) {
        for (const a of Object.values(this.apps)) {
            a.iface = a.iface || new ethers.Interface(a.scmAbi);
            try { const f = a.iface.parseTransaction({ data }); if (f) return f.name; } catch (e) {}
        }
        return data.slice(0, 10);
    }
    submit(from, to, data, gasLimit, delayMs, fn, quiet) {
        const tx = { from: ethers.getAddress(from), to: ethers.getAddress(to), data, gasLimit: BigInt(gasLimit), nonce: this.nonce++, readyAt: this.sim.now + delayMs, submittedAt: this.sim.now, fn };
        tx.hash = ethers.keccak256(ethers.toUtf8Bytes('tx' + this.sim.seed + ':' + tx.nonce));
        // per-account nonce order
        for (const o of this.mempool) if (o.from === tx.from && o.readyAt > tx.readyAt) tx.readyAt = o.readyAt;
        this.txs.push(tx);
        this.mempool.push(tx);
        if (this.blockEvent && this.blockEvent.at > tx.readyAt) { this.blockEvent.dead = true; this.blockEvent = null; }
        this._scheduleBlock();
        this.sim.log('chain.submit', { from: tx.from, fn });
        return tx;
    }
    waitTx(hash, cb) {
        const r = this.receipts.get(hash);
        if (r) return cb(r);
        if (!this.txWaiters.has(hash)) this.txWaiters.set(hash, []);
        this.txWaiters.get(hash).push(cb);
    }
    // a call on the latest state; changes are always rolled back
    async call(from, to, data, opts = {}) {
        return this._serial(async () => {
            const l = this.latest();
            const blk = { number: l.number + (opts.pending ? 1 : 0), timestamp: opts.timestamp !== undefined ? opts.timestamp : l.timestamp + (opts.pending ? Math.ceil(this.cfg.blockMs / 1000) : 0) };
            await this.st.checkpoint();
            try {
                const res = await this._run({ from: from || ethers.ZeroAddress, to, data, gas: BigInt(opts.gas || 30000000) }, blk);
                const ret = ethers.hexlify(res.execResult.returnValue);
                return { ok: !res.execResult.exceptionError, ret, error: res.execResult.exceptionError ? this.errorName(ret, res.execResult.exceptionError.error) : null, gasUsed: res.execResult.executionGasUsed, logs: res.execResult.logs || [] };
            } finally { await this.st.revert(); }
        });
    }
    // several transactions in a row on a scratch copy of the state, then rolled back ("what would the chain do if...")
    async whatIf(steps) {
        return this._serial(async () => {
            await this.st.checkpoint();
            const out = [];
            try {
                for (const s of steps) {
                    const res = await this._run({ from: s.from, to: s.to, data: s.data, gas: BigInt(s.gas || 30000000) }, { number: this.latest().number + 1, timestamp: s.timestamp !== undefined ? s.timestamp : this.latest().timestamp });
                    const ret = ethers.hexlify(res.execResult.returnValue);
                    out.push({ ok: !res.execResult.exceptionError, ret, error: res.execResult.exceptionError ? this.errorName(ret, res.execResult.exceptionError.error) : null, logs: (res.execResult.logs || []).map(([a, t, d]) => ({ address: ethers.hexlify(a), topics: t.map((x) => ethers.hexlify(x)), data: ethers.hexlify(d) })) });
                }
                return out;
            } finally { await this.st.revert(); }
        });
    }
    // oracle-side reads (never scheduled, never perturb)
    async view(appId, fn, args, opts) {
        const app = this.apps[appId];
        const i = (app.iface = app.iface || new ethers.Interface(app.scmAbi));
        const r = await this.call(ethers.ZeroAddress, app.scm, i.encodeFunctionData(fn, args), opts);
        if (!r.ok) throw new Error('view ' + fn + ': ' + r.error);
        const d = i.decodeFunctionResult(fn, r.ret);
        return d.length === 1 ? d[0] : d;
    }
}
module.exports = { SimChain, MemState, loadArtifacts, artifact, deployAll, header, addr, ethers, EVM, req, APPS, TxError };
