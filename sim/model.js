'use strict';
// Executable reference model of the repository's example application and of blocks, in plain JavaScript.
const { ethers } = require('./chain');
const coder = ethers.AbiCoder.defaultAbiCoder();
const BLOCK = 'tuple(tuple(tuple(bytes32 channelId,address participant,uint forkCnt,uint transactionCnt,uint timestamp) header,tuple(uint8 transactionType,bytes encodedData,bytes data) body) transaction,bytes32 stateHash,bytes32 previousStateHash)';
const SIGNED = 'tuple(bytes encodedBlock,bytes signature)';
const JOIN = 'tuple(bytes32 channelId,address participant,uint amount,uint deadlineTimestamp,bytes data)';
const CONFIRMED = 'tuple(bytes encodedBlock,bytes[] signatures)';
const STATE = 'tuple(uint number,address[] participants)';
const addIface = new ethers.Interface(['function add(uint _number)']);
const memo = (fn, cap = 20000) => { const m = new Map(); return (k) => { let v = m.get(k); if (v === undefined) { if (m.size > cap) m.clear(); m.set(k, (v = fn(k))); } return v; }; };
const keccak = memo((x) => ethers.keccak256(x));

// ---- application state
const encodeState = (s) => coder.encode([STATE], [[s.number, s.participants]]);
const decodeState = memo((enc) => { const r = coder.decode([STATE], enc)[0]; return { number: BigInt(r[0]), participants: [...r[1]] }; });
const stateHash = (s) => keccak(encodeState(s));
const next = (s) => (s.participants.length ? s.participants[Number(s.number % BigInt(s.participants.length))] : null);
const MAXU = (1n << 256n) - 1n;
const appIface = new ethers.Interface(['function add(uint _number)', 'function addMany(uint[] xs)', 'function quiet(uint x)', 'function note(string text)', 'function refuse(uint kind)']);
let RICH = false;
const use = (app) => { RICH = app === 'rich'; };
const decodeCall = memo((data) => { try { const d = appIface.parseTransaction({ data }); return d ? { fn: d.name, args: [...d.args].map((x) => (typeof x === 'object' ? [...x] : x)) } : { fn: null }; } catch (e) { return { fn: null }; } });
const callText = (fn, args) => fn + '(' + args.map((x) => (Array.isArray(x) ? '[' + x.map((y) => BigInt(y)).join() + ']' : fn === 'note' ? x : BigInt(x))).join() + ')';
// what a transaction does: the state after it and the events it emits; null when the application rejects it
function exec(s, tx) {
    const c = decodeCall(tx.body.data), who = tx.header.participant;
    if (!c.fn || c.fn === 'refuse' || (c.fn !== 'add' && !RICH)) return null;
    if (who !== next(s)) return null;
    const events = [];
    let number = s.number;
    const more = (x, say) => { if (number + x > MAXU) return false; if (say) events.push(['Addition', number, x, number + x]); number += x; return true; };
    const turn = () => events.push(['NextToPlay', next({ number, participants: s.participants })]);
    if (c.fn === 'add') { if (!more(c.args[0], true)) return null; turn(); }
    else if (c.fn === 'addMany') { for (const x of c.args[0]) if (!more(x, true)) return null; turn(); }
    else if (c.fn === 'quiet') { if (!more(c.args[0], false)) return null; }
    else if (c.fn === 'note') events.push(['Noted', who, c.args[0], number]);
    return { state: { number, participants: s.participants }, events, call: callText(c.fn, c.args) };
}
const apply = (s, tx) => { const r = exec(s, tx); return r && r.state; };
function remove(s, adr) {
    const p = s.participants.slice(), i = p.indexOf(adr);
    if (i < 0) return s;
    p[i] = p[p.length - 1]; p.pop();
    return { number: s.number, participants: p };
}
// ---- blocks
const decodeBlock = memo((enc) => {
    try {
        const b = coder.decode([BLOCK], enc)[0];
        const h = b[0][0], y = b[0][1];
        return { transaction: { header: { channelId: h[0], participant: h[1], forkCnt: Number(h[2]), transactionCnt: Number(h[3]), timestamp: Number(h[4]) }, body: { transactionType: Number(y[0]), encodedData: y[1], data: y[2] } }, stateHash: b[1], previousStateHash: b[2], enc, id: keccak(enc) };
    } catch (e) { return null; }
});
const raw = (b) => [[[b.transaction.header.channelId, b.transaction.header.participant, b.transaction.header.forkCnt, b.transaction.header.transactionCnt, b.transaction.header.timestamp], [b.transaction.body.transactionType, b.transaction.body.encodedData, b.transaction.body.data]], b.stateHash, b.previousStateHash];
const encodeBlock = (b) => coder.encode([BLOCK], [raw(b)]);
const signHash = (w, hash) => w.signMessageSync(ethers.getBytes(hash));
const signEnc = (w, enc) => signHash(w, keccak(enc));
const recMemo = new Map();
function signerOf(enc, sig) {
    const k = keccak(enc) + sig;
    let v = recMemo.get(k);
    if (v === undefined) { try { v = ethers.verifyMessage(ethers.getBytes(keccak(enc)), sig); } catch (e) { v = null; } if (recMemo.size > 50000) recMemo.clear(); recMemo.set(k, v); }
    return v;
}
const addData = (x) => addIface.encodeFunctionData('add', [x]);
// a block by `author` that adds x to state s; `mod` overrides parts
function makeBlock(channelId, author, fork, height, ts, s, x, mod = {}) {
    const data = mod.data || addData(x);
    const tx = { header: { channelId, participant: author, forkCnt: fork, transactionCnt: height, timestamp: ts }, body: { transactionType: 0, encodedData: data, data } };
    const after = apply(s, tx) || s;
    const b = { transaction: tx, stateHash: mod.stateHash || stateHash(after), previousStateHash: mod.previousStateHash || stateHash(s) };
    const enc = encodeBlock(b);
    return { ...decodeBlock(enc), after };
}
module.exports = { coder, BLOCK, SIGNED, JOIN, CONFIRMED, STATE, addIface, keccak, encodeState, decodeState, stateHash, next, apply, remove, decodeBlock, encodeBlock, signEnc, signHash, signerOf, addData, appIface, exec, use, callText, makeBlock, ethers };
