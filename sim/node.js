'use strict';
// One simulated participant: the bundle of /repo/src evaluated in its own scope, with every source of
// nondeterminism (timers, wall clock, randomness, network, ledger access, signing latency) behind the simulator.
const fs = require('fs');
const crypto = require('crypto');
const { ethers, req, TxError } = require('./chain');
const { Sim } = require('./core');

// ---- pure functions that dominate the cost of a run, memoised (same inputs, same outputs)
const memoRecover = new Map(), memoSign = new Map();
{
    const SK = ethers.SigningKey;
    const rec = SK.recoverPublicKey;
    SK.recoverPublicKey = function (digest, sig) {
        let key;
        try { const s = ethers.Signature.from(sig); key = ethers.hexlify(digest) + s.serialized; } catch (e) { return rec.call(SK, digest, sig); }
        let v = memoRecover.get(key);
        if (v === undefined) { try { v = { ok: rec.call(SK, digest, sig) }; } catch (e) { v = { err: e }; } if (memoRecover.size > 50000) memoRecover.clear(); memoRecover.set(key, v); }
        if (v.err) throw v.err;
        return v.ok;
    };
    const sign = SK.prototype.sign;
    SK.prototype.sign = function (digest) {
        const key = this.privateKey + ethers.hexlify(digest);
        let v = memoSign.get(key);
        if (!v) { v = sign.call(this, digest); if (memoSign.size > 50000) memoSign.clear(); memoSign.set(key, v); }
        return v.clone();
    };
}
{
    const cap = (m, k, v) => { if (m.size > 40000) m.clear(); m.set(k, v); return v; };
    // structural key of a value handed to the ABI encoder; undefined when it holds something unusual
    const keyOfValue = (v) => {
        switch (typeof v) {
            case 'string': return '"' + v + '"';
            case 'number': return v + 'n';
            case 'bigint': return v + 'n';
            case 'boolean': return v ? 'T' : 'F';
            case 'object':
                if (v === null) return undefined;
                if (Array.isArray(v)) { let o = '['; for (let i = 0; i < v.length; i++) { const k = keyOfValue(v[i]); if (k === undefined) return undefined; o += k + ','; } return o + ']'; }
                if (Object.getPrototypeOf(v) === Object.prototype) { let o = '{'; for (const n of Object.keys(v)) { const k = keyOfValue(v[n]); if (k === undefined) return undefined; o += n + ':' + k + ','; } return o + '}'; }
                return undefined;
        }
        return undefined;
    };
    const AC = ethers.AbiCoder.prototype, enc = AC.encode, dec = AC.decode, me = new Map(), md = new Map();
    AC.encode = function (types, values) {
        if (!(types.length === 1 && typeof types[0] === 'string' && types[0].startsWith('tuple('))) return enc.call(this, types, values);
        const k = keyOfValue(values);
        if (k === undefined) return enc.call(this, types, values);
        const kk = types[0] + k, hit = me.get(kk);
        return hit !== undefined ? hit : cap(me, kk, enc.call(this, types, values));
    };
    AC.decode = function (types, data, loose) {
        if (!(types.length === 1 && typeof types[0] === 'string' && types[0].startsWith('tuple(') && typeof data === 'string' && !loose)) return dec.call(this, types, data, loose);
        const kk = types[0] + data, hit = md.get(kk);
        return hit !== undefined ? hit : cap(md, kk, dec.call(this, types, data, loose));
    };
    const PT = ethers.ParamType, from = PT.from, mp = new Map();
    PT.from = function (obj, allowIndexed) { if (typeof obj !== 'string') return from.call(PT, obj, allowIndexed); const k = obj + '|' + !!allowIndexed, hit = mp.get(k); return hit || cap(mp, k, from.call(PT, obj, allowIndexed)); };
    const SK = ethers.SigningKey, cpk = SK.computePublicKey, mk = new Map();
    SK.computePublicKey = function (key, c) { if (typeof key !== 'string') return cpk.call(SK, key, c); const k = key + !!c, hit = mk.get(k); return hit || cap(mk, k, cpk.call(SK, key, c)); };
    const { keccak_256 } = req('@noble/hashes/sha3');
    const mh = new Map();
    ethers.keccak256.register((data) => { const k = Buffer.from(data.buffer, data.byteOffset, data.length).toString('latin1'); const hit = mh.get(k); if (hit) return hit.slice(); return cap(mh, k, keccak_256(data)).slice(); });
}
ethers.randomBytes.register((n) => {
    const s = Sim.current();
    if (!s) return new Uint8Array(crypto.randomBytes(n));
    return (s.owner && s.owner.rand) ? s.owner.rand(n) : s.rng('rand').bytes(n);
});

const COMPILED = new Map();
const INJECT = ['require', 'module', 'exports', 'setTimeout', 'clearTimeout', 'setInterval', 'clearInterval', 'setImmediate', 'Date', 'Math', 'console', 'process', 'global', 'globalThis', 'window', 'WebSocket', 'crypto'];
function compileBundle(file) {
    let f = COMPILED.get(file);
    if (!f) { f = new (require('vm').Script)('(function(' + INJECT.join(',') + '){' + fs.readFileSync(file, 'utf8') + '\n})', { filename: 'sdk.js' }).runInThisContext(); COMPILED.set(file, f); }
    return f;
}
const QUIET = new Proxy({}, { get: () => () => {} });
const keyOf = (seed, label) => ethers.keccak256(ethers.toUtf8Bytes('key|' + label));
const wallets = new Map();
function walletFor(label) { // keys depend on the role only, so signatures can be memoised across runs
    let w = wallets.get(label);
    if (!w) wallets.set(label, (w = new ethers.Wallet(keyOf(0, label))));
    return w;
}

// ---------------------------------------------------------------- provider: this node's view of the ledger
class SimProvider {
    constructor(node, life) { this.node = node; this.life = life; this.sim = node.sim; this.chain = node.chain; this.filters = []; this.hashL = new Map(); node.chain.subs.push(this); }
    get provider() { return this; }
    lat(what) { const c = this.node.cfg.rpc || { min: 2, max: 20 }; return this.sim.rng(this.node.id + '.rpc').range(c.min, c.max); }
    // a request/response round trip; `fn` reads or writes the ledger when the request arrives
    rt(what, fn) {
        const node = this.node;
        return new Promise((resolve, reject) => {
            const r = this.sim.rng(node.id + '.rpcfault');
            const f = node.rpcFault && node.rpcFault(what, r);
            this.sim.after(this.lat(), 'rpc ' + node.name + ' ' + what, async () => {
                let out, err;
                try { if (f) { this.sim.count('fault.rpc.error'); throw Object.assign(new Error('could not reach the ledger'), { code: 'NETWORK_ERROR' }); } out = await fn(); } catch (e) { err = e; }
                this.sim.after(this.lat(), 'rpc< ' + node.name + ' ' + what, () => (err ? reject(err) : resolve(out)), this.life);
            }, null);
        });
    }
    async getNetwork() { return new ethers.Network('sim', 31337n); }
    async resolveName() { return null; }
    async getBlockNumber() { return this.rt('getBlockNumber', async () => this.chain.latest().number); }
    async getBlock(tag) {
        return this.rt('getBlock', async () => {
            const l = this.chain.latest();
            const n = tag === 'latest' ? l.number : Number(tag);
            if (n > l.number || n < 0) return null;
            const ts = tag === 'latest' ? l.timestamp : this.chain.tsOf(n - this.chain.baseNumber);
            return { number: n, timestamp: ts, hash: ethers.id('b' + n) };
        });
    }
    async call(tx) {
        const to = await tx.to, from = tx.from ? await tx.from : undefined;
        return this.rt('call', async () => {
            const r = await this.chain.call(from, to, tx.data);
            if (!r.ok) throw Object.assign(new TxError('execution reverted: ' + r.error), { data: r.ret });
            return r.ret;
        });
    }
    async estimateGas(tx) {
        return this.rt('estimateGas', async () => {
            const r = await this.chain.call(tx.from, await tx.to, tx.data, { pending: true });
            if (!r.ok) throw Object.assign(new TxError('execution reverted (estimateGas): ' + r.error), { data: r.ret });
            return r.gasUsed * 13n / 10n + 21000n + BigInt(tx.data.length * 8) + 100000n;
        });
    }
    receiptOf(t) {
        return new ethers.TransactionReceipt({ to: t.to, from: t.from, contractAddress: null, hash: t.hash, index: 0, blockHash: ethers.id('b' + t.blockNumber), blockNumber: t.blockNumber, logsBloom: '0x', gasUsed: t.gasUsed, cumulativeGasUsed: t.gasUsed, gasPrice: 1n, type: 2, status: t.status, root: null, logs: [] }, this);
    }
    async getTransactionReceipt(hash) { return this.rt('receipt', async () => { const t = this.chain.receipts.get(hash); return t ? this.receiptOf(t) : null; }); }
    async getTransactionCount() { return 0; }
    async getLogs() { return []; }
    async on(ev, fn) {
        if (typeof ev === 'string') {
            if (ev.length === 66) {
                this.hashL.set(fn, ev);
                this.chain.waitTx(ev, (t) => { this.sim.after(this.lat(), 'receipt ' + this.node.name, () => { if (this.hashL.get(fn) === ev) fn(this.receiptOf(t)); }, this.life); });
            }
            return this;
        }
        const addr = ev.address && (typeof ev.address === 'string' ? ev.address : await ev.address.getAddress());
        this.filters.push({ addr: addr ? addr.toLowerCase() : null, topics: ev.topics || [], fn, id: JSON.stringify([addr, ev.topics]), lastAt: 0, n: 0 });
        return this;
    }
    async off(ev, fn) {
        if (typeof ev === 'string') { for (const k of [...this.hashL.keys()]) if (!fn || k === fn) { if (this.hashL.get(k) === ev) this.hashL.delete(k); } return this; }
        const addr = ev.address && (typeof ev.address === 'string' ? ev.address : await ev.address.getAddress());
        const id = JSON.stringify([addr, ev.topics]);
        for (const f of this.filters) if (f.id === id && (!fn || f.fn === fn)) f.off = true;
        this.filters = this.filters.filter((f) => !f.off);
        return this;
    }
    async once(ev, fn) { return this.on(ev, fn); }
    async emit() { return false; }
    async removeAllListeners() { this.filters = []; return this; }
    async listenerCount() { return this.filters.length; }
    async listeners() { return []; }
    async addListener(a, b) { return this.on(a, b); }
    async removeListener(a, b) { return this.off(a, b); }
    offer(log) {
        if (this.life.crashed) return;
        for (const f of this.filters) {
            if (f.addr && f.addr !== log.address.toLowerCase()) continue;
            if (!f.topics.every((t, i) => t === null || t === undefined || (Array.isArray(t) ? t.includes(log.topics[i]) : t === log.topics[i]))) continue;
            const c = this.node.cfg.events || { min: 20, max: 400 };
            const r = this.sim.rng(this.node.id + '.ev.' + log.topics[0].slice(2, 8) + '.' + f.n++);
            let at = this.sim.now + r.range(c.min, c.max);
            if (this.node.eventDelay) at += this.node.eventDelay(log, this.sim.now);
            at = Math.max(at, f.lastAt); f.lastAt = at; // one subscription delivers in order; different ones are independent
            const times = r.float() < (c.dup || 0) ? 2 : 1;
            if (times > 1) this.sim.count('fault.ledger.duplicateEvent');
            const align = this.node.alignEvents ? this.node.alignEvents() : 0; // late enough to arrive in the middle of a signature
            for (let i = 0; i < times; i++) {
                const deliver = () => {
                    if (f.off || !this.filters.includes(f)) return;
                    if (align && !i && !this.node.signing && this.sim.now < at + align) { f.lastAt = Math.max(f.lastAt, this.sim.now + 25); this.sim.after(25, 'event? ' + this.node.name, deliver, this.life); return; }
                    if (align && this.node.signing) this.sim.count('fault.ledger.eventWhileSigning');
                    f.fn(new ethers.Log({ address: log.address, topics: log.topics, data: log.data, blockNumber: log.blockNumber, blockHash: ethers.id('b' + log.blockNumber), transactionHash: log.transactionHash, transactionIndex: 0, index: log.logIndex, removed: false }, this));
                };
                this.sim.at(at + (i ? r.range(0, 3000) : 0), 'event ' + this.node.name, deliver, this.life);
            }
        }
    }
}
// ---------------------------------------------------------------- signer: this node's key
class SimSigner extends ethers.AbstractSigner {
    constructor(node, provider, life) { super(provider); this.node = node; this.life = life; this.w = node.wallet; }
    async getAddress() { return this.w.address; }
    connect() { return this; }
    async signTransaction() { throw new Error('n/a'); }
    async signTypedData() { throw new Error('n/a'); }
    async signMessage(m) {
        const node = this.node;
        const d = node.signDelay ? node.signDelay() : 0;
        if (d > 0) { node.sim.count('fault.slowSigner'); node.signing = (node.signing || 0) + 1; await new Promise((r) => node.sim.after(d, 'signed ' + node.name, r, this.life)); node.signing--; }
        if (node.signFault && node.signFault()) { node.sim.count('fault.signer.error'); throw new Error('signer unavailable'); }
        const sig = this.w.signMessageSync(m);
        const rec = { t: node.sim.now, m: typeof m === 'string' ? m : ethers.hexlify(m), sig };
        node.signed.push(rec);
        if (node.onSign) node.onSign(rec);
        return sig;
    }
    async call(tx) { return this.provider.call({ ...tx, from: this.w.address }); }
    async estimateGas(tx) { return this.provider.estimateGas({ ...tx, from: this.w.address }); }
    async sendTransaction(tx) {
        const node = this.node;
        const to = ethers.getAddress(await tx.to);
        const gasLimit = tx.gasLimit !== undefined ? tx.gasLimit : await this.estimateGas(tx);
        return this.provider.rt('sendTx', async () => {
            const fn = node.chain.fnName(to, tx.data);
            const d = node.txDelay ? node.txDelay(fn) : 0;
            const t = node.chain.submit(this.w.address, to, tx.data, gasLimit, d, fn);
            t.node = node.name;
            return new ethers.TransactionResponse({ provider: this.provider, blockNumber: null, blockHash: null, hash: t.hash, index: 0, type: 2, to, from: this.w.address, nonce: t.nonce, gasLimit: BigInt(gasLimit), gasPrice: 1n, maxPriorityFeePerGas: 1n, maxFeePerGas: 1n, maxFeePerBlobGas: null, data: tx.data, value: 0n, chainId: 31337n, signature: ethers.Signature.from('0x' + '11'.repeat(64) + '1b'), accessList: [] }, this.provider);
        });
    }
}

class Node {
    constructor(sim, chain, net, name, cfg) {
        this.sim = sim; this.chain = chain; this.net = net; this.name = name; this.id = name;
        this.cfg = cfg || {};
        this.wallet = walletFor(this.cfg.key || name);
        this.address = this.wallet.address;
        this.app = this.cfg.app || 'math';
        this.honest = this.cfg.honest !== false;
        this.incarnation = 0;
        this.resetRuntime();
    }
    resetRuntime() {
        this.crashed = false; this.stalledUntil = 0; this.disposed = false;
        this.signed = this.signed || []; this.hooks = this.hooks || []; this.userEvents = this.userEvents || []; this.ops = this.ops || [];
        this.faults = this.faults || [];
        this.ready = false;
    }
    skewMs() { return typeof this.cfg.skew === 'function' ? this.cfg.skew(this.sim.now) : (this.cfg.skew || 0) + (this.skewJump || 0); }
    onUnhandled(rec) { this.faults.push(rec); if (this.onFault) this.onFault(rec); }
    env(bundle) {
        const node = this, sim = this.sim, inc = ++this.incarnation, proc = (this.proc = { cur: this });
        // each life of the process is its own owner, so that a crash silences everything it had scheduled
        const life = (this.life = { name: this.name, inc, get crashed() { return node.crashed || node.incarnation !== inc; }, get stalledUntil() { return node.stalledUntil; }, onUnhandled: (r) => node.onUnhandled(r) });
        const timers = new Map(); let tid = 1; const lastAt = new Map();
        const rj = sim.rng(this.id + '.timer' + inc);
        const set = (fn, ms, args, every) => {
            ms = Number(ms); if (!(ms >= 1 && ms <= 2147483647)) ms = 1; ms = Math.trunc(ms);
            const id = tid++;
            const arm = () => {
                let at = sim.now + ms + rj.range(0, node.cfg.timerJitter === undefined ? 3 : node.cfg.timerJitter);
                at = Math.max(at, lastAt.get(ms) || 0); lastAt.set(ms, at);
                timers.set(id, sim.at(at, 'timer ' + node.name + ' ' + ms, () => { if (!timers.has(id)) return; if (every) arm(); else timers.delete(id); fn(...args); }, life));
            };
            arm();
            const h = { id, unref() { return h; }, ref() { return h; }, hasRef() { return true; }, [Symbol.toPrimitive]() { return id; } };
            return h;
        };
        const clear = (h) => { const id = h && typeof h === 'object' ? h.id : h; const e = timers.get(id); if (e) { e.dead = true; timers.delete(id); } };
        const nowMs = () => sim.epochMs() + node.skewMs();
        class SimDate extends Date { constructor(...a) { if (a.length) super(...a); else super(nowMs()); } static now() { return nowMs(); } }
        const SimMath = {}; for (const k of Object.getOwnPropertyNames(Math)) SimMath[k] = Math[k];
        SimMath.random = () => sim.rng(node.id + '.math').float();
        life.rand = this.rand = (n) => sim.rng(node.id + '.rand').bytes(n);
        const g = { get Hyperswarm() { return proc.cur.swarm; } };
        const evmMod = req('@ethereumjs/evm');
        const evmWrap = { ...evmMod, EVM: { create: async (o) => {
            const node = proc.cur, evm = await evmMod.EVM.create(o);
            const run = evm.runCall.bind(evm); node.evmRaw = { evm, run };
            evm.runCall = async (o2) => {
                if (o2.message || o2.depth) return run(o2); // a call made by the contract itself
                const d = node.vmDelay ? node.vmDelay() : 0;
                if (d > 0) { sim.count('fault.slowVm'); await new Promise((r) => sim.after(d, 'vm ' + node.name, r, life)); }
                sim.inflight++;
                try { return await run(o2); } finally { sim.inflight--; }
            };
            node.evm = evm;
            return evm;
        } } };
        const stub = { 'sim:hyperswarm': class { constructor() { return proc.cur.swarm; } }, 'sim:@hyperswarm/dht-relay': class {}, 'sim:@hyperswarm/dht-relay/ws': class {}, 'sim:get-webrtc': async () => ({}), 'sim:dotenv': { config() {} } };
        const require_ = (id) => { if (id in stub) return stub[id]; if (id === '@ethereumjs/evm') return evmWrap; if (id === 'ws') return class {}; return req(id); };
        const module_ = { exports: {} };
        compileBundle(bundle)(require_, module_, module_.exports, (f, ms, ...a) => set(f, ms, a), clear, (f, ms, ...a) => set(f, ms, a, true), clear, (f, ...a) => set(f, 1, a), SimDate, SimMath, node.cfg.console || QUIET, { env: {}, nextTick: (f, ...a) => Promise.resolve().then(() => f(...a)), on() {} }, g, g, undefined, undefined, { getRandomValues: (b) => { b.set(this.rand(b.length)); return b; } });
        this.up = new Promise((r) => (this.isUp = r));
        return { sdk: module_.exports, life };
    }
    // a second channel of the same person in the same process: the code, the clock and the timers are shared
    async join(host) {
        await host.up;
        this.host = host; this.incarnation = host.incarnation; this.life = host.life; this.rand = host.rand; host.proc.cur = this;
        return { sdk: host.sdk, life: host.life };
    }
    // bring the process up: evaluate the SDK, set up the peer, subscribe, join the channel's topic
    async start(bundle, opts = {}) {
        this.resetRuntime();
        this.net.attach(this);
        const { sdk, life } = opts.host ? await this.join(opts.host) : this.env(bundle);
        this.sdk = sdk;
        this.provider = new SimProvider(this, life);
        this.signer = new SimSigner(this, this.provider, life);
        const app = this.chain.apps[this.app];
        const scm = new ethers.Contract(app.scm, app.scmAbi, this.signer);
        const sm = new ethers.Contract(app.sm, app.smAbi, this.signer);
        const hooks = {};
        for (const h of ['onConnection', 'onTurn', 'onSetState', 'onPostingCalldata', 'onPostedCalldata', 'onInitiatingDispute', 'onDisputeUpdate'])
            hooks[h] = (...a) => { this.hooks.push({ t: this.sim.now, h, a, inc: this.incarnation }); this.sim.count('hook.' + h); if (this.onHook) this.onHook(h, a); };
        this.p2p = await sdk.EvmStateMachine.p2pSetup(this.signer, { data: app.smBytecode }, scm, sm, hooks);
        if (this.isUp) this.isUp();
        if (this.onClock) this.onClock();
        this.sm = this.p2p.p2pSigner.p2pManager.stateManager;
        this.am = this.sm.agreementManager;
        // every step that held the lock is a reason to compare the state again
        if (this.sm.mutex && typeof this.sm.mutex.lock === 'function') { const m = this.sm.mutex, l = m.lock.bind(m); m.lock = () => { if (this.obs) this.obs.dirty = true; return l(); }; }
        for (const ev of opts.userEvents || [])
            await this.p2p.p2pContractInstance.on(ev, (...a) => { if (this.onUserEvent) this.onUserEvent(ev); this.userEvents.push({ t: this.sim.now, ev, a: a.slice(0, -1).length ? a.filter((x) => typeof x === 'bigint' || typeof x === 'string').map(String) : a.map(String) }); });
        this.ready = true;
        if (opts.channelId) await this.p2p.p2pSigner.connectToChannel(opts.channelId);
        this.channelId = opts.channelId;
        if (this.onReady) this.onReady();
    }
    // run a piece of host code as this node (so that what it schedules belongs to the node)
    exec(label, delay, fn) { return this.sim.after(delay, label + ' ' + this.name, fn, this.life); }
    crash() { if (this.crashed) return; this.crashed = true; this.ready = false; this.sim.count('fault.crash'); this.net.detach(this.name); this.chain.subs = this.chain.subs.filter((s) => s !== this.provider); }
    // the user's call into the application contract
    async invoke(method, args) {
        const op = { t: this.sim.now, method, args: args.map(String), raw: args, inc: this.incarnation };
        this.ops.push(op);
        try { await this.p2p.p2pContractInstance[method](...args); op.ok = true; } catch (e) { op.ok = false; op.err = String((e && e.message) || e).slice(0, 120); }
        op.done = this.sim.now;
        if (this.onOp) this.onOp(op);
        return op;
    }
}
module.exports = { Node, walletFor };
