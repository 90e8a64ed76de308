'use strict';
// Runs the compiled contracts of the current directory's build in an in-memory EVM.
const fs = require('fs'), path = require('path');
const ROOT = process.cwd();
const req = require('module').createRequire(path.join(ROOT, 'package.json'));
const { ethers } = req('ethers');
const { EVM } = req('@ethereumjs/evm');
const { Address, Account, hexToBytes, bytesToHex } = req('@ethereumjs/util');
class MemState {
    constructor() {
        this.accounts = new Map(); this.code = new Map(); this.storage = new Map(); this.undo = []; this.orig = new Map();
        const self = this;
        this.originalStorageCache = { async get(a, k) { const kk = a.toString() + bytesToHex(k); return self.orig.has(kk) ? self.orig.get(kk) : self.storage.get(kk) || new Uint8Array(0); }, clear() { self.orig.clear(); } };
    }
    rec(map, key) { if (this.undo.length) this.undo[this.undo.length - 1].push([map, key, map.get(key), map.has(key)]); }
    async getAccount(a) { const x = this.accounts.get(a.toString()); return x ? new Account(x.nonce, x.balance, x.storageRoot, x.codeHash) : undefined; }
    async putAccount(a, acc) { const k = a.toString(); this.rec(this.accounts, k); if (acc === undefined) this.accounts.delete(k); else this.accounts.set(k, { nonce: acc.nonce, balance: acc.balance, storageRoot: acc.storageRoot, codeHash: acc.codeHash }); }
    async deleteAccount(a) { const k = a.toString(); this.rec(this.accounts, k); this.accounts.delete(k); }
    async modifyAccountFields(a, f) { const acc = (await this.getAccount(a)) || new Account(); Object.assign(acc, f); await this.putAccount(a, acc); }
    async putContractCode(a, v) { const k = a.toString(); this.rec(this.code, k); this.code.set(k, v); await this.modifyAccountFields(a, { codeHash: ethers.getBytes(ethers.keccak256(v)) }); }
    async getContractCode(a) { return this.code.get(a.toString()) || new Uint8Array(0); }
    async getContractCodeSize(a) { return (await this.getContractCode(a)).length; }
    async getContractStorage(a, key) { return this.storage.get(a.toString() + bytesToHex(key)) || new Uint8Array(0); }
    async putContractStorage(a, key, v) { const k = a.toString() + bytesToHex(key); if (!this.orig.has(k)) this.orig.set(k, this.storage.get(k) || new Uint8Array(0)); this.rec(this.storage, k); this.storage.set(k, v); }
    async clearContractStorage() {}
    async checkpoint() { this.undo.push([]); }
    async commit() { const l = this.undo.pop(); if (this.undo.length) for (const r of l) this.undo[this.undo.length - 1].push(r); }
    async revert() { const l = this.undo.pop(); for (let i = l.length - 1; i >= 0; i--) { const [m, k, v, had] = l[i]; if (had) m.set(k, v); else m.delete(k); } }
    async getStateRoot() { return new Uint8Array(32); }
    async setStateRoot() {}
    async hasStateRoot() { return true; }
    async flush() {}
    shallowCopy() { return this; }
}
const header = (t) => ({ header: { number: 1n, timestamp: BigInt(t), coinbase: Address.zero(), difficulty: 0n, prevRandao: new Uint8Array(32), gasLimit: 30000000n, baseFeePerGas: 0n, cliqueSigner: () => Address.zero(), getBlobGasPrice: () => undefined } });
const adr = (h) => new Address(hexToBytes(h.toLowerCase()));
function artifact(name, dir = path.join(ROOT, 'artifacts')) {
    for (const e of fs.readdirSync(dir, { withFileTypes: true })) {
        const p = path.join(dir, e.name);
        if (e.isDirectory()) { if (e.name === 'build-info') continue; const r = artifact(name, p); if (r) return r; }
        else if (e.name === name + '.json') return JSON.parse(fs.readFileSync(p, 'utf8'));
    }
    return null;
}
const coder = ethers.AbiCoder.defaultAbiCoder();
const BLOCK = 'tuple(tuple(tuple(bytes32 channelId,address participant,uint forkCnt,uint transactionCnt,uint timestamp) header,tuple(uint8 transactionType,bytes encodedData,bytes data) body) transaction,bytes32 stateHash,bytes32 previousStateHash)';
const STATE = 'tuple(uint number,address[] participants)', JOIN = 'tuple(bytes32 channelId,address participant,uint amount,uint deadlineTimestamp,bytes data)';
const keccak = ethers.keccak256;
const encState = (s) => coder.encode([STATE], [[s.number, s.participants]]);
const addData = (x) => new ethers.Interface(['function add(uint)']).encodeFunctionData('add', [x]);
const sign = (w, enc) => w.signMessageSync(ethers.getBytes(keccak(enc)));
const next = (s) => s.participants[Number(BigInt(s.number) % BigInt(s.participants.length))];
async function start(n, T0 = 1800000000) {
    const st = new MemState(), evm = await EVM.create({ stateManager: st, allowUnlimitedContractSize: true });
    let now = T0, libs = {};
    const run = async (from, to, data) => { const r = await evm.runCall({ caller: adr(from), to: to && adr(to), data: hexToBytes(data), gasLimit: 100000000n, block: header(now), skipBalance: true }); st.originalStorageCache.clear(); await evm.journal.cleanup(); return r; };
    const DEP = '0x00000000000000000000000000000000000d3910';
    async function deploy(name, args = []) {
        const a = artifact(name); if (!a) throw new Error('no artifact ' + name);
        let code = a.bytecode.slice(2);
        for (const [f, ls] of Object.entries(a.linkReferences || {})) for (const [lib, offs] of Object.entries(ls)) { const la = libs[lib] || (libs[lib] = await deploy(lib)); for (const o of offs) code = code.slice(0, o.start * 2) + la.slice(2).toLowerCase() + code.slice((o.start + o.length) * 2); }
        const r = await run(DEP, null, '0x' + code + new ethers.Interface(a.abi).encodeDeploy(args).slice(2));
        if (r.execResult.exceptionError) throw new Error('deploy ' + name);
        return r.createdAddress.toString();
    }
    const sm = await deploy('MathStateMachine'), facet = await deploy('DisputeManagerFacet'), scm = await deploy('MathStateChannelManagerProxy', [sm, facet]);
    const iface = new ethers.Interface(artifact('MathStateChannelManagerProxy').abi), eface = new ethers.Interface(artifact('DisputeManagerFacet').abi);
    const errName = (d) => { for (const i of [eface, iface]) try { const e = i.parseError(d); if (e) return e.name === 'Error' ? e.args[0] : e.name; } catch {} return 'revert'; };
    const L = {
        get now() { return now; }, wait(s) { now += s; },
        async tx(from, fn, args) { const r = await run(from, scm, iface.encodeFunctionData(fn, args)); const ret = ethers.hexlify(r.execResult.returnValue); return r.execResult.exceptionError ? { ok: false, error: errName(ret) } : { ok: true, ret }; },
        async view(fn, args) { await st.checkpoint(); try { const r = await run(DEP, scm, iface.encodeFunctionData(fn, args)); if (r.execResult.exceptionError) throw new Error(fn); const d = iface.decodeFunctionResult(fn, ethers.hexlify(r.execResult.returnValue)); return d.length === 1 ? d[0] : d; } finally { await st.revert(); } },
        wallets: [...Array(n)].map((_, i) => new ethers.Wallet(keccak(ethers.toUtf8Bytes('demo' + i)))),
        outsider: new ethers.Wallet(keccak(ethers.toUtf8Bytes('outsider'))),
        byAddress(a) { return L.wallets.find((w) => w.address === a); },
        async open(id, mod = {}) {
            const joins = L.wallets.map((w, i) => coder.encode([JOIN], [[id, w.address, 1, now + 100, '0x']]));
            const r = await L.tx(L.wallets[0].address, 'openChannel', [id, mod.joins || joins, mod.sigs || joins.map((j, i) => sign(L.wallets[i], j))]);
            const state = { number: 0n, participants: L.wallets.map((w) => w.address) };
            return { ...r, id, fork: 0, state, enc: encState(state), ts: now, blocks: [], tip: state };
        },
        // a block on top of the channel's tip; mod overrides fields
        block(ch, x = 1n, mod = {}) {
            const s = mod.state || ch.tip, author = mod.author || next(s), after = { number: s.number + x, participants: s.participants }, data = mod.data || addData(x);
            const b = { author, state: after, height: mod.height ?? ch.blocks.length, ts: mod.ts ?? now, stateHash: mod.stateHash || keccak(encState(after)), prev: mod.prev || keccak(encState(s)) };
            b.enc = coder.encode([BLOCK], [[[[mod.channelId || ch.id, author, mod.fork ?? ch.fork, b.height, b.ts], [0, data, data]], b.stateHash, b.prev]]);
            b.w = L.byAddress(author) || L.outsider; b.sig = sign(b.w, b.enc); b.signed = [b.enc, b.sig];
            return b;
        },
        push(ch, x, mod) { const b = L.block(ch, x, mod); ch.blocks.push(b); ch.tip = b.state; return b; },
        confirmed(b, who) { return [b.enc, [b.sig, ...(who || []).filter((w) => w !== b.w).map((w) => sign(w, b.enc))]]; },
        async afterSet(ch) { ch.fork = Number(await L.view('getForkCnt', [ch.id])); const d = await L.view('getLatestState', [ch.id]); const s = coder.decode([STATE], d)[0]; ch.tip = ch.state = { number: s[0], participants: [...s[1]] }; ch.enc = d; ch.blocks = []; ch.ts = now; return ch; },
        async dispute(id) { return L.view('getDispute', [id]); }
    };
    return L;
}
const PROOF = { Fold: 0, Double: 1, Incorrect: 2, Newer: 3, Prior: 4, Future: 5, Join: 6 };
const SB = 'tuple(bytes encodedBlock,bytes signature)';
const proof = {
    fold: (enc, sigs) => [PROOF.Fold, coder.encode(['tuple(bytes encodedBlock,bytes[] signatures)'], [[enc, sigs]])],
    double: (pairs) => [PROOF.Double, coder.encode([`tuple(tuple(${SB} block1,${SB} block2)[] doubleSigns)`], [[pairs]])],
    incorrect: (b1, b2, enc) => [PROOF.Incorrect, coder.encode([`tuple(${SB} block1,${SB} block2,bytes encodedState)`], [[b1, b2, enc]])],
    newer: (enc, sig) => [PROOF.Newer, coder.encode(['tuple(bytes encodedBlock,bytes confirmationSignature)'], [[enc, sig]])],
    prior: (cnt) => [PROOF.Prior, coder.encode(['tuple(uint transactionCnt)'], [[cnt]])],
    future: (b) => [PROOF.Future, coder.encode([`tuple(${SB} block1)`], [[b]])]
};
function main(fn) { fn().then(() => { console.log('ok'); process.exit(0); }, (e) => { console.error('FAILED:', e && e.message ? e.message : e); process.exit(1); }); }
const must = (c, m) => { if (!c) throw new Error(m); };
module.exports = { start, ethers, coder, keccak, sign, encState, addData, next, proof, main, must, JOIN, BLOCK, SB };
