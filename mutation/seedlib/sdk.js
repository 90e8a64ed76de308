'use strict';
// Loads the compiled SDK of the current directory's build; the network transports are left out.
const path = require('path'), Module = require('module');
const ROOT = process.cwd();
const orig = Module._load;
Module._load = function (request, ...rest) {
    if (/^(get-webrtc|hyperswarm|@hyperswarm\/|hyper-|ws$)/.test(request)) return function () {};
    return orig.call(this, request, ...rest);
};
const req = Module.createRequire(path.join(ROOT, 'package.json'));
const sdk = (p) => { const m = req(path.join(ROOT, 'dist/src', p)); return m.default || m; };
const named = (p) => req(path.join(ROOT, 'dist/src', p));
const { ethers } = req('ethers');
function main(fn) { Promise.resolve().then(fn).then(() => { console.log('ok'); process.exit(0); }, (e) => { console.error('FAILED:', e && e.stack ? e.stack : e); process.exit(1); }); }
const must = (c, m) => { if (!c) throw new Error(m); };
const wallets = [...Array(5)].map((_, i) => new ethers.Wallet(ethers.keccak256(ethers.toUtf8Bytes('demo' + i))));
const enc = (b) => named('utils').EvmUtils.encodeBlock(b);
const sign = (w, b) => w.signMessageSync(ethers.getBytes(ethers.keccak256(enc(b))));
function block(o) {
    return { transaction: { header: { channelId: o.channelId || ethers.ZeroHash, participant: o.author, forkCnt: o.fork || 0, transactionCnt: o.height, timestamp: o.ts || 1000 }, body: { transactionType: 0, encodedData: o.data || '0x', data: o.data || '0x' } }, stateHash: o.stateHash || ethers.keccak256(ethers.toUtf8Bytes('s' + o.height)), previousStateHash: o.prev || ethers.keccak256(ethers.toUtf8Bytes('s' + (o.height - 1))) };
}
// a provider whose latest block has the time `now` (blocks 12 s apart)
const provider = (now, number = 50) => ({ getBlock: async (n) => (n === 'latest' || n === number ? { number, timestamp: now } : { number: n, timestamp: now - (number - n) * 12 }) });
const clock = (now) => sdk('Clock').init(provider(now));
// a state machine whose state is a number: '0x..' + value; a move adds its data
function machine(participants) {
    const hex = (n) => '0x' + n.toString(16).padStart(4, '0');
    const m = { n: 0, told: [], getState: async () => hex(m.n), setState: async (s) => { m.n = Number(s); return true; }, getParticipants: async () => participants, getNextToWrite: async () => participants[m.n % participants.length],
        stateTransition: async (tx) => { const v = Number(tx.body.data); if (v === 0xff) { m.n += 7; return { success: false, successCallback: () => m.told.push('failed') }; } m.n += v; return { success: true, successCallback: () => m.told.push(v) }; } };
    return m;
}
const h = (n) => ethers.keccak256('0x' + n.toString(16).padStart(4, '0'));
const times = { p2pTime: 15, agreementTime: 5, chainFallbackTime: 30, challengeTime: 60 };
const sleep = (ms) => new Promise((r) => setTimeout(r, ms));
module.exports = { provider, clock, machine, h, times, sleep, sdk, named, ethers, main, must, wallets, block, sign, enc, ROOT };
