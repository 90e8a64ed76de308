'use strict';
// Simulation of the ledger alone: many accounts, honest and adversarial, send transactions in any order and at times
// chosen around every deadline; the contracts' answers are compared with a reference model written from the rules.
const { Sim } = require('./core');
const { SimChain, ethers } = require('./chain');
const { walletFor } = require('./node');
const M = require('./model');
const { coder, keccak } = M;
const ZERO = ethers.ZeroAddress;
const ABI = {
    fold: 'tuple(bytes encodedBlock,bytes[] signatures)', dsign: 'tuple(tuple(' + M.SIGNED + ' block1,' + M.SIGNED + ' block2)[] doubleSigns)', incorrect: 'tuple(' + M.SIGNED + ' block1,' + M.SIGNED + ' block2,bytes encodedState)',
    newer: 'tuple(bytes encodedBlock,bytes confirmationSignature)', prior: 'tuple(uint transactionCnt)', future: 'tuple(' + M.SIGNED + ' block1)', join: 'tuple(bytes encodedSignedJoinChannel,bytes[] signatures)',
    sjc: 'tuple(bytes encodedJoinChannel,bytes signature)', jca: 'tuple(tuple(bytes encodedJoinChannel,bytes signature) signedJoinChannel,address submitter,uint forkCnt,uint transactionCnt,bytes32 previousStateHash)',
    leave: 'tuple(bytes32 channelId,address participant,uint forkCnt,uint transactionCnt,bytes32 previousStateHash,uint deadlineTimestamp,bytes data)'
};
const enc1 = (t, v) => coder.encode([t], [v]);
const dec1 = (t, d) => coder.decode([t], d)[0];
const P2P = 5, WAIT = 15, CHALLENGE = 5, E0 = 1800000000;
const N = 0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141n;

// ------------------------------------------------------------------ the two applications
const next = (s) => (s.participants.length ? M.next(s) : null);
const MATH = {
    id: 'math',
    dec(e) { try { return M.decodeState(e); } catch (x) { return null; } },
    enc: M.encodeState, next,
    apply(s, tx) { if (NOOP.includes(String(tx.body.data).slice(0, 10)) && tx.body.data.length >= 10) return s; return M.apply(s, tx); },
    op(s, r) { return M.addData(r.int(4)); },
    slash(s, a) { return s.participants.includes(a) ? [M.remove(s, a), { participant: a, amount: 0n }] : null; },
    remove(s, a) { return this.slash(s, a); },
    join() { return null; }, deposit() { return false; },
    genesis(ps) { return { number: 0n, participants: ps }; }
};
const NOOP = ['getSum()', 'getState()', 'getParticipants()', 'getNextToWrite()'].map((x) => ethers.id(x).slice(0, 10));
const VSTATE = 'tuple(uint turn,address[] participants,uint[] balances)';
const payIface = new ethers.Interface(['function pay(address to,uint amount)']);
const VAULT = {
    id: 'vault',
    dec(e) { try { const r = dec1(VSTATE, e); return { number: r[0], participants: [...r[1]], balances: [...r[2]] }; } catch (x) { return null; } },
    enc(s) { return enc1(VSTATE, [s.number, s.participants, s.balances]); },
    next,
    apply(s, tx) {
        if (NOOP.slice(1).includes(String(tx.body.data).slice(0, 10))) return s;
        let a; try { a = payIface.decodeFunctionData('pay', tx.body.data); } catch (e) { return null; }
        if (tx.header.participant !== M.next(s)) return null;
        const i = s.participants.indexOf(tx.header.participant), j = s.participants.indexOf(a[0]);
        if (j < 0 || s.balances[i] < a[1]) return null;
        const b = s.balances.slice(); b[i] -= a[1]; b[j] += a[1];
        return { number: s.number + 1n, participants: s.participants, balances: b };
    },
    op(s, r) { return payIface.encodeFunctionData('pay', [s.participants.length ? r.pick(s.participants) : ZERO, BigInt(r.int(3))]); },
    take(s, a, keep) {
        const i = s.participants.indexOf(a); if (i < 0) return null;
        const p = s.participants.slice(), b = s.balances.slice(), e = { participant: a, amount: keep ? b[i] : 0n };
        p.splice(i, 1); b.splice(i, 1);
        return [{ number: s.number, participants: p, balances: b }, e];
    },
    slash(s, a) { return this.take(s, a, false); }, remove(s, a) { return this.take(s, a, true); },
    join(s, jc) { if (s.participants.includes(jc.participant) || jc.data !== '0x') return null; return { number: s.number, participants: [...s.participants, jc.participant], balances: [...s.balances, jc.amount] }; },
    deposit(jc) { return jc.amount !== 13n; },
    genesis(ps, am) { return { number: 0n, participants: ps, balances: am }; }
};
const COMMON = /expired|no dispute|guilty|oneself|too early|next to write|nothing proven|in progress|already open|challengeDispute$|createDispute$/;
const APPS = { math: MATH, vault: VAULT };

// ------------------------------------------------------------------ the reference model
class Reject extends Error { constructor(prop, why) { super(why); this.prop = prop; this.why = why; } }
// While transactions are generated, one reason for a refusal can be waived: a transaction that is valid but for that reason
// is a near miss. `tags` collects which of the rarer accepting paths a transaction takes.
let waived = null, tags = null;
const need = (c, prop, why) => { if (!c && why !== waived) throw new Reject(prop, why); };
const tag = (x) => { if (tags) tags.push(x); };
const recCache = new Map();
const drafts = new Map(); // stand-ins for signatures while a transaction is only a draft
function strictRecover(enc, sig) { // what a ledger accepts as a signature; null otherwise
    const dr = drafts.get(sig); if (dr) return dr.k === keccak(enc) ? dr.a : ethers.getAddress('0x' + keccak(sig + enc.slice(2)).slice(26));
    const k = keccak(enc) + sig;
    if (recCache.has(k)) return recCache.get(k);
    let v = null;
    if (/^0x[0-9a-fA-F]{130}$/.test(sig)) {
        const s = BigInt('0x' + sig.slice(66, 130)), vv = parseInt(sig.slice(130), 16);
        if ((vv === 27 || vv === 28) && s <= N / 2n) try { v = ethers.recoverAddress(ethers.hashMessage(ethers.getBytes(keccak(enc))), ethers.Signature.from({ r: '0x' + sig.slice(2, 66), s: '0x' + sig.slice(66, 130), v: vv })); } catch (e) { v = null; }
    }
    if (recCache.size > 20000) recCache.clear();
    recCache.set(k, v);
    return v;
}
const block = (e) => { const b = M.decodeBlock(e); return b && b.transaction.body.transactionType <= 9 ? b : null; };
const H = (b) => b.transaction.header;
// everyone in `who` is among the signers, and nothing that is not a signature
function allSigned(who, enc, sigs, prop) {
    if (who.length > sigs.length) return false;
    const got = sigs.map((s) => { const a = strictRecover(enc, s); need(a, prop, 'malformed signature'); return a; });
    const left = got.slice();
    return who.every((w) => { const i = left.indexOf(w); if (i < 0) return false; left.splice(i, 1); return true; });
}
class Ref {
    constructor() { this.ch = new Map(); }
    c(id, app) { let c = this.ch.get(id); if (!c) this.ch.set(id, (c = { id, app, states: [], ts: [], fork: 0, open: false, posted: new Map(), dispute: null })); return c; }
    inProgress(c, ts) { return !!c.dispute && c.dispute.deadline >= ts; }
    participants(c, fork) { const s = c.states[fork] && c.app.dec(c.states[fork]); return s ? s.participants : null; }
    chainTs(c, fork, max) { let t = 0; for (const p of (c.posted.get(fork) || new Map()).values()) if (p.h <= max && p.ts > t) t = p.ts; return t; }
    call(app, tx, fn, a, from, ts) {
        const ev = [];
        switch (fn) {
            case 'openChannel': return this.open(app, a, ts, ev), ev;
            case 'postBlockCalldata': return this.post(app, a, from, ts, ev), ev;
            case 'createDispute': return this.create(app, a, from, ts, ev), ev;
            case 'challengeDispute': return this.challenge(app, a, from, ts, ev), ev;
            case 'joinChannelWithAgreement': return this.joinAgreed(app, a, from, ts, ev), ev;
            case 'leaveChannelWithAgreement': return this.leaveAgreed(app, a, from, ts, ev), ev;
            case 'selfOnly': throw new Reject('P24', 'only the manager itself may call this');
            case 'noEffect': return ev;
        }
        throw new Error('model: ' + fn);
    }
    setState(c, enc, ts, ev) { c.fork++; c.states[c.fork] = enc; c.ts[c.fork] = ts; ev.push(['SetState', c.id, enc, c.fork, ts]); }
    open(app, [id, data, sigs], ts, ev) {
        need(data.length > 0 && data.length === sigs.length, 'P20', 'lengths');
        const js = data.map((d) => { let j = null; try { j = dec1(M.JOIN, d); } catch (e) { j = null; } need(j, 'P20', 'malformed'); return j; });
        js.forEach((j, i) => {
            const own = app.id === 'math' ? sigs : [sigs[i]]; // any order is fine where all signatures are given
            const got = own.map((s) => strictRecover(data[i], s)); need(got.every((x) => x), 'P20', 'malformed signature');
            need(got.includes(j.participant), 'P20', 'a participant did not sign');
        });
        need(id !== ethers.ZeroHash, 'P20', 'zero id');
        const c = this.c(id, app);
        need(!c.open, 'P20', 'already open');
        for (const j of js) { need(j.channelId === id, 'P20', 'other channel'); need(j.amount > 0n, 'P20', 'no deposit'); need(j.deadlineTimestamp > BigInt(ts), 'P20', 'deadline'); }
        c.open = true; c.states[0] = app.enc(app.genesis(js.map((j) => j.participant), js.map((j) => j.amount))); c.ts[0] = ts; c.fork = 0;
        if (app.id === 'vault') for (const j of js) ev.push(['Deposit', id, j.participant, j.amount]);
        ev.push(['SetState', id, c.states[0], 0, ts]);
    }
    post(app, [sb], from, ts, ev) {
        const who = strictRecover(sb[0], sb[1]); need(who, 'P21', 'malformed signature'); need(who === from, 'P21', 'not signed by the sender');
        const b = block(sb[0]); need(b, 'P21', 'malformed');
        need(H(b).participant === from, 'P21', 'not the author');
        need(H(b).timestamp >= ts - WAIT, 'P21', 'too old'); need(H(b).timestamp <= ts, 'P21', 'too new');
        const c = this.c(H(b).channelId, app);
        if (!c.posted.has(H(b).forkCnt)) c.posted.set(H(b).forkCnt, new Map());
        c.posted.get(H(b).forkCnt).set(H(b).transactionCnt + '|' + from, { h: H(b).transactionCnt, who: from, ts, enc: sb[0], sig: sb[1] });
        ev.push(['BlockCalldataPosted', c.id, sb[0], ts]);
    }
    chain(c, fork, final, latest, votes, people) {
        const genesis = c.states[fork] !== undefined && final === c.states[fork];
        let prev = keccak(final);
        const signers = new Set();
        votes.forEach((v, i) => {
            const b = block(v[0]); need(b, 'P12', 'malformed block');
            need(H(b).channelId === c.id, 'P12', 'block of another channel'); need(H(b).forkCnt === fork, 'P12', 'block of another fork');
            let own = false;
            for (const s of v[1]) { const w = strictRecover(v[0], s); need(w, 'P12', 'malformed signature'); if (w === H(b).participant) own = true; if (people.includes(w)) signers.add(w); }
            need(own, 'P12', 'not signed by its author');
            if (i === 0 && !genesis) need(prev === b.stateHash, 'P12', 'first block does not commit to the finalized state'); else need(prev === b.previousStateHash, 'P12', 'not linked');
            if (i === votes.length - 1) need(b.stateHash === keccak(latest), 'P12', 'last block does not commit to the latest state');
            prev = b.stateHash;
        });
        if (!votes.length) need(prev === keccak(latest), 'P12', 'no blocks, other state');
        need(genesis || signers.size === people.length, 'P12', 'finalized state not agreed by everyone'); if (!genesis) tag('agreed later state');
    }
    create(app, [id, forkB, final, latest, votes, timedout, foldedB, proofs], from, ts, ev) {
        const c = this.c(id, app), fork = Number(forkB), folded = Number(foldedB);
        need(!this.inProgress(c, ts), 'P13', 'a dispute is in progress');
        need(c.fork === fork, 'P13', 'not the current fork');
        const people = c.open ? this.participants(c, fork) : null;
        need(people, 'P13', 'not open'); need(people.includes(from), 'P13', 'not a participant');
        this.chain(c, fork, final, latest, votes, people);
        if (timedout !== ZERO) {
            let ref = c.ts[fork];
            if (votes.length || folded) {
                need(votes.length, 'P14', 'no previous block');
                const l = block(votes[votes.length - 1][0]);
                need(H(l).transactionCnt + 1 === folded, 'P14', 'timeout not linked to the latest block');
                ref = H(l).timestamp;
            }
            const st = app.dec(latest); need(st, 'P12', 'latest state malformed');
            need(app.next(st) === timedout, 'P14', 'not the next to write');
            need(!(c.posted.get(fork) || new Map()).has(folded + '|' + timedout), 'P14', 'the block was posted');
            ref = Math.max(ref, this.chainTs(c, fork, folded));
            need(ts >= ref + WAIT, 'P14', 'too early'); need(timedout !== from, 'P14', 'timeout of oneself');
        }
        const d = { channelId: id, fork, challengeCnt: 0, final, latest, votes: votes.map((v) => [v[0], [...v[1]]]), timedout, folded, timeoutDisputer: timedout !== ZERO ? from : ZERO, poster: from, join: [], leave: [], slashed: [], participants: people.slice(), exits: [], creation: ts, deadline: ts + CHALLENGE };
        if (app.id === 'vault' && c.dispute) for (const e of c.dispute.exits) ev.push(['Payout', id, e.participant, e.amount]);
        const ok = this.proofs(c, d, proofs, from, ts, ev);
        need(ok || d.timedout !== ZERO, 'P11', 'nothing proven');
        this.result(c, d, ts, ev);
        c.dispute = d;
        ev.push(['DisputeUpdated', id]);
    }
    challenge(app, [id, forkB, cntB, proofs, votes, final, latest], from, ts, ev) {
        const c = this.c(id, app), o = c.dispute;
        need(o, 'P13', 'no dispute'); need(o.fork === Number(forkB), 'P13', 'other fork'); need(o.challengeCnt === Number(cntB), 'P13', 'other challenge');
        need(o.deadline > ts, 'P13', 'expired'); need(o.participants.includes(from), 'P13', 'not a participant'); need(!o.slashed.includes(from), 'P13', 'already slashed');
        const d = { ...o, slashed: o.slashed.slice(), join: o.join.slice(), exits: [] };
        need(this.proofs(c, d, proofs, from, ts, ev), 'P11', 'nothing proven');
        this.chain(c, d.fork, final, latest, votes, d.participants);
        if (o.votes.length) { need(votes.length, 'P13', 'before the finalized block: none'); need(H(block(votes[0][0])).transactionCnt >= H(block(o.votes[0][0])).transactionCnt, 'P13', 'before the finalized block'); }
        Object.assign(d, { votes: votes.map((v) => [v[0], [...v[1]]]), final, latest, poster: from, deadline: ts + CHALLENGE, challengeCnt: o.challengeCnt + 1 });
        this.result(c, d, ts, ev);
        c.dispute = d;
        ev.push(['DisputeUpdated', id]);
    }
    result(c, d, ts, ev) {
        let s = c.app.dec(d.latest); need(s, 'P12', 'latest state malformed');
        for (const j of d.join) { const x = c.app.join(s, j); need(x, 'P24', 'the application refuses the joiner'); s = x; }
        d.exits = [];
        if (d.timedout !== ZERO) tag('timeout' + (d.folded ? '' : ' of the first') + (d.slashed.length ? ' and cheats' : '')); if (d.votes.length > 1) tag('several blocks'); if (!d.votes.length) tag('no blocks'); if (d.slashed.length > 1) tag('several cheats');
        for (const a of d.slashed) { const x = c.app.slash(s, a); if (x) { s = x[0]; d.exits.push(x[1]); } }
        if (d.timedout !== ZERO) { const x = c.app.remove(s, d.timedout); if (x) { s = x[0]; d.exits.push(x[1]); } }
        d.latest = c.app.enc(s);
        this.setState(c, d.latest, ts, ev);
    }
    proofs(c, d, proofs, from, ts, ev) {
        let ok = false;
        const slash = (a) => { if (d.slashed.includes(a)) return false; d.slashed.push(a); return true; };
        const cancel = (h) => { if (h < d.folded && d.timedout !== ZERO) tag('cancel'); if (h === d.folded && d.timedout !== ZERO) tag('no cancel'); if (h < d.folded) { d.timedout = ZERO; d.timeoutDisputer = ZERO; } };
        const rec = (e, s) => { const w = strictRecover(e, s); need(w, 'P11', 'malformed signature in evidence'); return w; };
        const at = (b, x) => { need(H(b).channelId === d.channelId, 'P11', 'evidence of another channel, ' + x); need(H(b).forkCnt === d.fork, 'P11', 'evidence of another fork, ' + x); };
        const blk = (e) => { const b = block(e); need(b, 'P11', 'malformed evidence'); return b; };
        for (const [typeB, data] of proofs) {
            const type = Number(typeB);
            let x = null;
            const dd = (t) => { try { x = dec1(t, data); } catch (e) { x = null; } need(x, 'P11', 'malformed proof'); return x; };
            if (type === 0) {
                dd(ABI.fold); const b = blk(x[0]); at(b, 'fold');
                need(H(b).transactionCnt === d.folded, 'P14', 'not the folded block');
                if (d.timedout === ZERO) continue;
                need(allSigned(d.participants, x[0], x[1], 'P14'), 'P14', 'folded block not agreed by everyone');
                d.timedout = ZERO; ok = slash(d.timeoutDisputer) || ok; tag('fold');
            } else if (type === 1) {
                dd(ABI.dsign);
                let any = false;
                for (const [s1, s2] of x[0]) {
                    const b1 = blk(s1[0]), b2 = blk(s2[0]); at(b1, 'double 1'); at(b2, 'double 2');
                    need(H(b1).transactionCnt === H(b2).transactionCnt, 'P11', 'different heights'); need(keccak(s1[0]) !== keccak(s2[0]), 'P11', 'same block');
                    const w1 = rec(s1[0], s1[1]), w2 = rec(s2[0], s2[1]);
                    need(w1 === w2, 'P11', 'different signers'); need(d.participants.includes(w1), 'P11', 'double: not a participant'); tag('double' + (w1 === H(b1).participant ? '' : ' by a voter') + (w1 === d.timedout ? ' by the timed out' : ''));
                    any = slash(w1) || any;
                    if (any) cancel(H(b1).transactionCnt);
                }
                ok = any || ok;
            } else if (type === 2) {
                dd(ABI.incorrect);
                const b1 = blk(x[0][0]), b2 = blk(x[1][0]), st = x[2];
                need(rec(x[0][0], x[0][1]) === H(b1).participant, 'P11', 'transition 1: not signed by the author'); need(rec(x[1][0], x[1][1]) === H(b2).participant, 'P11', 'transition 2: not signed by the author');
                at(b1, 'transition 1'); at(b2, 'transition 2');
                need(d.participants.includes(H(b1).participant), 'P11', 'transition 1: not a participant'); need(d.participants.includes(H(b2).participant), 'P11', 'transition 2: not a participant');
                let prevTs;
                if (H(b2).transactionCnt === 0) { need(st === c.states[d.fork], 'P11', 'not the first state'); need(b2.previousStateHash === keccak(st), 'P11', 'not linked to the first state'); prevTs = c.ts[d.fork]; tag('transition first'); }
                else { need(H(b1).transactionCnt + 1 === H(b2).transactionCnt, 'P11', 'not consecutive'); need(b2.previousStateHash === b1.stateHash, 'P11', 'not linked'); need(b1.stateHash === keccak(st), 'P11', 'not its state'); prevTs = H(b1).timestamp; }
                const t = H(b2).timestamp, ref = Math.max(prevTs, this.chainTs(c, H(b2).forkCnt, H(b2).transactionCnt));
                let good = t >= prevTs && t <= ref + P2P;
                if (good) { const s = c.app.dec(st); need(s, 'P11', 'malformed state'); const s2 = c.app.apply(s, b2.transaction); good = !!s2 && keccak(c.app.enc(s2)) === b2.stateHash; }
                tag(good ? 'transition fine' : t < prevTs ? 'transition old' : t > ref + P2P ? 'transition late' : 'transition wrong'); if (ref > prevTs) tag('transition posted');
                if (!good && slash(H(b2).participant)) { ok = true; cancel(H(b1).transactionCnt); }
            } else if (type === 3) {
                dd(ABI.newer); const b = blk(x[0]); at(b, 'newer'); tag('newer' + (H(b).participant === d.poster ? '' : ' vote'));
                need(rec(x[0], x[1]) === d.poster, 'P11', 'not signed by the poster');
                if (d.votes.length) need(H(b).transactionCnt > H(block(d.votes[d.votes.length - 1][0])).transactionCnt, 'P11', 'not newer');
                ok = slash(d.poster) || ok;
            } else if (type === 4) {
                dd(ABI.prior); const h = Number(x[0]);
                const v = d.votes.map((q) => block(q[0])).find((q) => H(q).transactionCnt === h);
                need(v, 'P14', 'not in the dispute'); need(h < d.folded, 'P14', 'not prior'); need(d.timedout !== ZERO && d.creation >= H(v).timestamp + WAIT, 'P14', 'not due');
                const p = (c.posted.get(d.fork) || new Map()).get(h + '|' + H(v).participant);
                need(!p || p.ts > d.creation, 'P14', 'was posted');
                d.timedout = H(v).participant; d.folded = h; d.timeoutDisputer = from; ok = true; tag('prior' + (p ? ' posted late' : '') + (d.slashed.includes(d.timedout) ? ' of a cheat' : ''));
            } else if (type === 5) {
                dd(ABI.future); const b = blk(x[0][0]); at(b, 'future');
                need(rec(x[0][0], x[0][1]) === H(b).participant, 'P11', 'future: not signed by the author'); need(d.participants.includes(H(b).participant), 'P11', 'future: not a participant'); tag('future');
                need(H(b).timestamp > ts, 'P11', 'not in the future');
                ok = slash(H(b).participant) || ok;
            } else if (type === 6) {
                dd(ABI.join);
                need(allSigned(d.participants, x[0], x[1], 'P24'), 'P24', 'not agreed by everyone');
                let s = null, j = null; try { s = dec1(ABI.sjc, x[0]); j = dec1(M.JOIN, s[0]); } catch (e) { s = null; } need(s && j, 'P24', 'malformed');
                const w = strictRecover(s[0], s[1]); need(w && w === j.participant, 'P24', 'joiner did not sign');
                need(j.channelId === d.channelId, 'P24', 'other channel');
                const st = c.app.dec(d.latest); need(st && c.app.next(st) === from, 'P24', 'not the next to write');
                need(!d.participants.includes(j.participant), 'P24', 'already a participant'); need(j.deadlineTimestamp > BigInt(ts), 'P24', 'expired');
                need(!d.join.some((q) => q.participant === j.participant), 'P24', 'already joining');
                need(c.app.deposit(j), 'P24', 'deposit refused');
                ev.push(['Deposit', d.channelId, j.participant, j.amount]);
                d.join.push({ channelId: j.channelId, participant: j.participant, amount: j.amount, deadlineTimestamp: j.deadlineTimestamp, data: j.data }); ok = true;
            }
        }
        need(!d.slashed.includes(from), 'P11', 'a guilty participant cannot dispute');
        return ok;
    }
    settleOld(c, ts, ev) { const d = c.dispute; if (d && d.deadline < ts) { if (c.app.id === 'vault') for (const e of d.exits) ev.push(['Payout', c.id, e.participant, e.amount]); c.dispute = { ...d, exits: [] }; } }
    joinAgreed(app, [ca, state], from, ts, ev) {
        let g = null, s = null, j = null; try { g = dec1(ABI.jca, ca[0]); s = g[0]; j = dec1(M.JOIN, s[0]); } catch (e) { g = null; } need(g && j, 'P24', 'malformed');
        const c = this.c(j.channelId, app);
        need(!this.inProgress(c, ts), 'P24', 'dispute in progress'); need(j.deadlineTimestamp > BigInt(ts), 'P24', 'expired');
        need(c.open && BigInt(c.fork) === g[2], 'P24', 'other fork'); need(keccak(state) === g[4], 'P24', 'other state');
        const ps = this.participants(c, c.fork);
        need(!ps.includes(j.participant), 'P24', 'already a participant'); need(ps.includes(g[1]) && from === g[1], 'P24', 'submitter');
        need(allSigned(ps, ca[0], [...ca[1]], 'P24'), 'P24', 'not agreed by everyone'); const w = strictRecover(s[0], s[1]); need(w === j.participant, 'P24', 'joiner did not sign');
        need(app.deposit(j), 'P24', 'deposit refused');
        const st = app.dec(state); need(st, 'P24', 'malformed state'); const n = app.join(st, j); need(n, 'P24', 'the application refuses');
        this.settleOld(c, ts, ev);
        ev.push(['Deposit', c.id, j.participant, j.amount]);
        this.setState(c, app.enc(n), ts, ev);
    }
    leaveAgreed(app, [la, state], from, ts, ev) {
        let l = null; try { l = dec1(ABI.leave, la[0]); } catch (e) { l = null; } need(l, 'P24', 'malformed');
        const c = this.c(l[0], app);
        need(!this.inProgress(c, ts), 'P24', 'dispute in progress'); need(l[5] > BigInt(ts), 'P24', 'expired');
        need(c.open && BigInt(c.fork) === l[2], 'P24', 'other fork'); need(keccak(state) === l[4], 'P24', 'other state');
        const ps = this.participants(c, c.fork);
        need(ps.includes(l[1]), 'P24', 'not a participant'); need(allSigned(ps, la[0], [...la[1]], 'P24'), 'P24', 'not agreed by everyone');
        const st = app.dec(state); need(st, 'P24', 'malformed state'); const x = app.remove(st, l[1]); need(x, 'P24', 'the application does not know it');
        this.settleOld(c, ts, ev);
        if (app.id === 'vault') ev.push(['Payout', c.id, x[1].participant, x[1].amount]);
        else need(false, 'P24', 'the ledger side refuses');
        this.setState(c, app.enc(x[0]), ts, ev);
    }
}

// ------------------------------------------------------------------ generation of transactions
class Ledger {
    constructor(plan, opts) { this.plan = plan; this.opts = opts; this.violations = []; this.vk = new Set(); this.marks = new Set(); }
    violate(prop, rule, detail) {
        const k = prop + rule; if (this.vk.has(k)) return; this.vk.add(k);
        this.violations.push({ prop, rule, also: this.involved || [], detail: String(detail).slice(0, 600), t: this.sim.now }); this.sim.log('VIOLATION', prop + ' ' + rule + ' ' + String(detail).slice(0, 200));
        this.sim.stopped = true;
    }
    ts() { return Math.floor(this.sim.now / 1000) + E0; }
    async init() {
        const plan = this.plan, sim = (this.sim = new Sim(plan.seed, { trace: this.opts.trace, maxEvents: 20000 }));
        this.chain = await SimChain.create(sim, { blockMs: 1000 }, this.opts.contracts);
        this.app = APPS[plan.app]; this.capp = this.chain.apps[plan.app]; this.scm = this.capp.scm;
        this.iface = new ethers.Interface(this.capp.scmAbi); this.smIface = new ethers.Interface(this.capp.smAbi);
        this.ref = new Ref(); this.sigs = new Map(); this.taste = new Map();
        this.people = Array.from({ length: plan.n }, (_, i) => walletFor('p' + i)); this.outs = ['outsider', 'j0', 'j1'].map((x) => walletFor(x));
        this.w = new Map([...this.people, ...this.outs].map((x) => [x.address, x]));
        this.ids = Array.from({ length: plan.channels }, (_, i) => ethers.id('led' + i));
        this.off = this.ids.map(() => new Map()); // channel -> fork -> blocks known off the ledger
        this.chain.onTx = (tx) => this.onTx(tx);
    }
    sig(a, e) { const k = a + keccak(e).slice(2); if (this.drafting && !this.sigs.has(k)) { const t = ethers.id(k) + '0'.repeat(64) + '1b'; drafts.set(t, { a, k: keccak(e) }); return t; } let v = this.sigs.get(k); if (!v) this.sigs.set(k, (v = M.signEnc(this.w.get(a) || walletFor('x' + a), e))); return v; }
    mk(i, author, fork, h, ts, state, o = {}) {
        const data = o.data || this.app.op(state, o.r);
        const tx = { header: { channelId: o.channel || this.ids[i], participant: author, forkCnt: fork, transactionCnt: h, timestamp: ts }, body: { transactionType: o.type || 0, encodedData: '0x', data } };
        const after = this.app.apply(state, tx) || state;
        return { ...M.decodeBlock(M.encodeBlock({ transaction: tx, stateHash: o.stateHash || keccak(this.app.enc(after)), previousStateHash: o.prev || keccak(this.app.enc(state)) })), after };
    }
    blocks(i, fork) { const m = this.off[i]; if (!m.has(fork)) m.set(fork, []); return m.get(fork); }
    c(i) { return this.ref.c(this.ids[i], this.app); }
    genesis(i, fork) { return this.app.dec(this.c(i).states[fork]); }
    stateAt(i, fork, k) { return k ? this.blocks(i, fork)[k - 1].after : this.genesis(i, fork); } // after k blocks
    tsAt(i, fork, k) { return k ? H(this.blocks(i, fork)[k - 1]).timestamp : this.c(i).ts[fork]; }
    wsig(r, a, e, bad) { if (!bad) return this.sig(a, e); const was = this.drafting; this.drafting = false; const s = this.sig(a, e); this.drafting = was; return r.pick([s.slice(0, 66) + ethers.toBeHex(N - BigInt('0x' + s.slice(66, 130)), 32).slice(2) + (s.slice(130) === '1b' ? '1c' : '1b'), s.slice(0, 130) + (s.slice(130) === '1b' ? '00' : '01'), ethers.Signature.from(s).compactSerialized, '0x', s + '00', '0x' + '11'.repeat(64) + '1b']); }
    // -- each returns [fn, args, from]
    tx_open(it, r, T, i) {
        const id = r.chance(0.04) ? ethers.ZeroHash : this.ids[i], ps = r.shuffle(this.people).slice(0, r.chance(0.85) ? this.people.length : r.range(1, this.people.length));
        const mut = it.clean ? null : r.weighted([[null, 5], ['sig', 1], ['chan', 1], ['amount', 1], ['deadline', 2], ['len', 1], ['dup', 1], ['badsig', 1], ['order', 1], ['data', 1], ['none', 0.5]]);
        const k = r.int(ps.length);
        if (mut === 'dup') ps.push(ps[k]);
        const data = ps.map((p, j) => enc1(M.JOIN, [mut === 'chan' && j === k ? ethers.id('else') : id, p.address, mut === 'amount' && j === k ? 0 : 100 + r.int(50), mut === 'deadline' && j === k ? T + r.pick([0, 1, -1, -100]) : T + 1000, '0x']));
        let sg = ps.map((p, j) => this.wsig(r, mut === 'sig' && j === k ? this.outs[0].address : p.address, mut === 'data' && j === k ? data[(j + 1) % data.length] + '00' : data[j], mut === 'badsig' && j === k));
        if (mut === 'order') sg = r.shuffle(sg);
        if (mut === 'len') sg.pop();
        return ['openChannel', [id, mut === 'none' ? [] : data, mut === 'none' ? [] : sg], r.pick([...this.people, ...this.outs]).address];
    }
    grow(it, r, T, i) {
        const c = this.c(i); if (!c.open) return;
        const f = c.fork, bs = this.blocks(i, f), now = this.ts();
        for (let k = r.range(1, 3); k > 0; k--) {
            const s = this.stateAt(i, f, bs.length), a = this.app.next(s); if (!a) return;
            const last = this.tsAt(i, f, bs.length), ts = Math.max(last, Math.min(now, r.pick([last, last + 1, last + 4, last + 5, now, now - 1, now - 3])));
            bs.push(this.mk(i, a, f, bs.length, ts, s, { r }));
        }
        this.sim.count('offchain.blocks');
    }
    tx_post(it, r, T, i) {
        const c = this.c(i), f = c.fork;
        let b = null, from;
        const bs = c.open ? this.blocks(i, f) : [];
        if (bs.length && r.chance(0.6)) { b = r.chance(0.7) ? bs[bs.length - 1] : r.pick(bs); from = H(b).participant; }
        else { const s = c.open ? this.stateAt(i, f, bs.length) : this.app.genesis(this.people.map((p) => p.address), this.people.map(() => 5n)); from = r.chance(0.7) ? r.pick(this.people).address : this.outs[0].address; if (!s.participants.length) return null; b = this.mk(i, from, r.chance(0.9) ? f : f + 1, r.pick([bs.length, bs.length, bs.length + 1, 0, 3]), T + r.pick([0, 0, -1, -5, -14, -15, -15, -16, 1, 2, -100]), s, { r }); }
        let signer = from;
        const mut = r.weighted([[null, 7], ['sender', 1], ['signer', 1], ['bad', 1], ['junk', 0.4]]);
        if (mut === 'sender') from = r.pick([...this.people, ...this.outs]).address;
        if (mut === 'signer') signer = r.pick(this.people).address;
        const e = mut === 'junk' ? r.pick(['0x', '0x1234', b.enc.slice(0, 200)]) : b.enc;
        return ['postBlockCalldata', [[e, this.wsig(r, signer, e, mut === 'bad')]], from];
    }
    // a chain of blocks to submit: {final, latest, votes, end, blocks}
    chainArgs(i, f, r, people, mut, from = 0) {
        const bs = this.blocks(i, f), L = bs.length ? (r.chance(0.55) ? bs.length : r.range(0, bs.length)) : 0;
        let list = bs.slice(0, L), start = 0;
        if (L > 0 && r.chance(0.4)) start = r.range(1, L);
        if (L > 0 && start && r.chance(0.25)) start = L;
        if (from && L > from && start < from + 1 && r.chance(0.9)) start = from + 1;
        let final = this.app.enc(this.stateAt(i, f, start)), sel = start ? list.slice(start - 1) : list, latestS = this.stateAt(i, f, L);
        let top = L;
        if (r.chance(0.2) && people.length) { // a branch that nobody else has seen
            for (let k = r.range(1, 2); k > 0; k--) {
                const a = r.chance(0.7) ? this.app.next(latestS) : r.pick(people); if (!a) break;
                const wild = r.chance(0.3); let ns = null, sh;
                if (wild) { ns = { ...latestS, number: latestS.number + 77n }; sh = keccak(this.app.enc(ns)); }
                const b = this.mk(i, a, f, top, this.tsAt(i, f, L) + r.range(0, 5), latestS, { r, stateHash: sh });
                sel = [...sel, b]; latestS = ns || b.after; top++;
            }
        }
        let latest = this.app.enc(latestS);
        if (!sel.length && r.chance(0.1)) latest = this.app.enc({ ...latestS, number: latestS.number + 1n });
        const everyone = start > 0 ? r.chance(0.8) : r.chance(0.4);
        let votes = sel.map((b, j) => { const who = everyone ? r.shuffle(people) : [H(b).participant, ...(r.chance(0.3) ? [r.pick(people)] : [])]; const w = who.includes(H(b).participant) ? who : [...who, H(b).participant]; return [b.enc, w.map((a) => this.sig(a, b.enc))]; });
        switch (mut) {
            case 'drop': if (votes.length > 1) votes.splice(r.int(votes.length), 1); break;
            case 'final': final = r.chance(0.5) ? this.app.enc({ ...this.app.dec(final), number: this.app.dec(final).number + 1n }) : r.pick(['0x', final + '00'.repeat(32)]); break;
            case 'latest': latest = r.chance(0.7) ? this.app.enc({ ...latestS, number: latestS.number + 1n }) : '0x'; break;
            case 'noauthor': if (votes.length) { const k = r.int(votes.length), b = block(votes[k][0]); votes[k][1] = people.filter((a) => a !== H(b).participant).map((a) => this.sig(a, b.enc)); } break;
            case 'onesig': if (votes.length) { const k = r.int(votes.length), b = block(votes[k][0]); votes[k][1] = [this.sig(H(b).participant, b.enc)]; } break;
            case 'badsig': if (votes.length) { const k = r.int(votes.length), b = block(votes[k][0]); votes[k][1] = [...votes[k][1], this.wsig(r, r.pick(people), b.enc, true)]; } break;
            case 'foreign': if (votes.length) { const k = r.int(votes.length), b = block(votes[k][0]); const nb = this.mk(i, H(b).participant, r.chance(0.5) ? f : f + 1, H(b).transactionCnt, H(b).timestamp, latestS, { r, channel: r.chance(0.5) ? ethers.id('else') : undefined, stateHash: b.stateHash, prev: b.previousStateHash }); votes[k] = [nb.enc, people.map((a) => this.sig(a, nb.enc))]; } break;
            case 'outsiderBlock': { const o = this.outs[0].address, b = this.mk(i, o, f, top, this.tsAt(i, f, L), latestS, { r }); votes.push([b.enc, [this.sig(o, b.enc)]]); latest = this.app.enc(b.after); break; }
            case 'swap': if (votes.length > 1) votes = [...votes.slice(1), votes[0]]; break;
            case 'dupvote': if (votes.length) votes = [...votes, votes[votes.length - 1]]; break;
            case 'missingOne': if (votes.length && people.length > 1) { const x = r.pick(people); votes = votes.map((v) => { const b = block(v[0]); return [v[0], v[1].filter((s) => strictRecover(v[0], s) !== x || H(b).participant === x)]; }); } break;
        }
        return { final, latest, votes, top, latestS };
    }
    proof(kind, i, f, r, T, d) { // d: {people, folded, poster, votes, creation}
        const people = d.people, some = d.from && people.length > 1 && !r.chance(0.15) ? people.filter((a) => a !== d.from) : people, P = (x) => r.pick(d.slashed && r.chance(0.8) && some.some((a) => !d.slashed.includes(a)) ? some.filter((a) => !d.slashed.includes(a)) : some.length ? some : this.people.map((p) => p.address)), bs = this.blocks(i, f), O = this.outs[0].address;
        const sb = (b, a, bad) => [b.enc, this.wsig(r, a || H(b).participant, b.enc, bad)];
        const rnd = (h, a, o = {}) => { const k = Math.max(0, Math.min(h, bs.length)); return this.mk(i, a, o.fork === undefined ? f : o.fork, h, o.ts === undefined ? this.tsAt(i, f, k) + r.range(0, 3) : o.ts, this.stateAt(i, f, k), { r, ...o }); };
        const odd = !d.good && r.chance(0.25);
        const place = odd ? r.pick([{ fork: f + 1 }, { channel: ethers.id('else') }, {}, {}]) : {};
        switch (kind) {
            case 0: {
                const h = d.folded + (odd ? r.pick([1, -1, 0]) : 0), b = bs[h] && r.chance(0.5) ? bs[h] : rnd(Math.max(0, h), P(), place);
                let who = people.slice(); if (odd) who = r.pick([who.slice(1), [...who, O], who, who.map((a, j) => (j ? a : O))]);
                return [0, enc1(ABI.fold, [b.enc, r.shuffle(who).map((a) => this.wsig(r, a, b.enc, r.chance(0.02)))])];
            }
            case 1: {
                const one = () => {
                    const a = odd ? r.pick([O, P(), P()]) : P(), h = d.good && r.chance(0.5) ? d.folded + 1 : r.pick([0, bs.length, Math.max(0, bs.length - 1), d.folded, Math.max(0, d.folded - 1)]);
                    const flip = odd && r.chance(0.4), b1 = bs[h] && !flip && r.chance(0.5) ? bs[h] : rnd(h, r.chance(0.8) ? a : P(), flip ? place : {});
                    const b2 = odd && r.chance(0.3) ? b1 : rnd(h + (odd && r.chance(0.3) ? 1 : 0), r.chance(0.8) ? a : P(), { ...(flip ? {} : place), ts: this.tsAt(i, f, Math.min(h, bs.length)) + r.range(4, 9) });
                    return [sb(b1, a), sb(b2, odd && r.chance(0.3) ? P() : a, odd && r.chance(0.1))];
                };
                return [1, enc1(ABI.dsign, [Array.from({ length: r.weighted([[1, 8], [2, 2], [0, 0.3]]) }, one)])];
            }
            case 2: {
                const h = r.chance(0.35) ? 0 : r.range(0, bs.length), s = this.stateAt(i, f, h), pts = this.tsAt(i, f, h), a = r.chance(0.7) ? this.app.next(s) || P() : P();
                const ref = Math.max(pts, this.ref.chainTs(this.c(i), f, h));
                const what = d.good ? r.pick(['result', 'result', 'tx', 'old', 'late', 'turn']) : r.pick(['result', 'tx', 'old', 'late', 'edge', 'fine', 'turn', 'noop', 'result', 'early']);
                let o = { r }, ts = pts + r.range(0, 2);
                if (what === 'result') o.stateHash = keccak(this.app.enc({ ...s, number: s.number + 55n }));
                if (what === 'tx') o.data = r.pick(['0x', '0xdeadbeef', this.app.op(s, r).slice(0, 60), this.smIface.encodeFunctionData('setState', [this.app.enc(s)]), this.smIface.encodeFunctionData('slashParticipant', [P()])]);
                if (what === 'old') ts = pts - r.pick([1, 10]); if (what === 'late') ts = ref + P2P + r.pick([1, 100]); if (what === 'edge') ts = ref + P2P; if (what === 'early') ts = pts;
                if (what === 'noop') { o.data = this.smIface.encodeFunctionData('getParticipants', []); }
                const real = bs[h] && r.chance(0.15);
                const b2 = real ? bs[h] : this.mk(i, what === 'turn' ? P() : a, f, h, ts, s, { ...o, ...(odd ? place : {}), ...(odd && r.chance(0.2) ? { prev: ethers.id('no') } : {}) });
                let b1 = h ? bs[h - 1] : r.chance(0.7) ? b2 : rnd(0, P(), {});
                if (odd && h && r.chance(0.25)) { const y = bs[h - 1]; b1 = this.mk(i, H(y).participant, place.fork === undefined ? f : place.fork, h - 1, H(y).timestamp, this.stateAt(i, f, h - 1), { r, channel: place.channel, stateHash: y.stateHash }); }
                let st = this.app.enc(s);
                if (odd) { const q = r.int(6); if (q === 0) st = this.app.enc({ ...s, number: s.number + 1n }); if (q === 1 && h > 1) b1 = bs[h - 2]; if (q === 2) b1 = rnd(h + 5, P(), { stateHash: keccak(st) }); if (q === 3) { const ob = this.mk(i, O, f, h, ts, s, o); return [2, enc1(ABI.incorrect, [sb(b1), sb(ob), st])]; } if (q === 4) b1 = rnd(Math.max(0, h - 1), O, { stateHash: keccak(st) }); }
                if (!odd && h && r.chance(0.12)) b1 = rnd(h - 1, P(), { stateHash: keccak(st), ts: pts - r.range(0, 3) }); // somebody else's claim about the same state
                return [2, enc1(ABI.incorrect, [sb(b1, odd && r.chance(0.1) ? P() : undefined), sb(b2, odd && r.chance(0.1) ? P() : undefined), st])];
            }
            case 3: {
                const lastH = d.votes.length ? H(block(d.votes[d.votes.length - 1][0]) || { transaction: { header: { transactionCnt: 0 } } }).transactionCnt : -1;
                const h = Math.max(0, lastH + (d.good ? 1 : r.pick([1, 1, 2, 0, -1]))), b = bs[h] && r.chance(0.6) ? bs[h] : rnd(h, P(), place);
                return [3, enc1(ABI.newer, [b.enc, this.wsig(r, odd ? r.pick([P(), O]) : d.poster, b.enc, odd && r.chance(0.1))])];
            }
            case 4: return [4, enc1(ABI.prior, [odd ? r.pick([d.folded, d.folded + 1, 99]) : Math.max(0, d.folded - r.range(1, 3))])];
            case 5: { const a = odd ? r.pick([O, P()]) : P(), b = rnd(r.pick([0, bs.length, bs.length + 3]), a, { ...place, ts: T + (d.good ? 1 : r.pick([1, 1, 2, 1000, 0, -1])) }); return [5, enc1(ABI.future, [sb(b, odd && r.chance(0.2) ? P() : undefined, odd && r.chance(0.1))])]; }
            case 6: {
                const jw = r.pick([this.outs[1], this.outs[2]]), e = enc1(M.JOIN, [odd && r.chance(0.2) ? ethers.id('else') : this.ids[i], odd && r.chance(0.2) ? P() : jw.address, odd && r.chance(0.3) ? 13 : 10 + r.int(5), T + (odd ? r.pick([0, 1, -5]) : 500), odd && r.chance(0.2) ? '0x01' : '0x']);
                const s = enc1(ABI.sjc, [e, this.sig(odd && r.chance(0.2) ? O : jw.address, e)]);
                const who = odd && r.chance(0.3) ? people.slice(1) : people;
                return [6, enc1(ABI.join, [s, who.map((a) => this.sig(a, s))])];
            }
            case 7: return [7, r.pick(['0x', '0x1234'])];
            default: return [r.int(6), r.pick(['0x', '0x00', '0x' + '00'.repeat(64)])];
        }
    }
    proofKinds(r, n) { const out = []; for (let k = 0; k < n; k++) out.push(r.weighted([[0, 1], [1, 2.5], [2, 4], [3, 1.5], [4, 0.7], [5, 1.5], [6, this.app.id === 'vault' ? 2 : 0.3], [7, 0.2], [8, 0.2]])); return out; }
    tx_dispute(it, r, T, i) {
        const c = this.c(i), f = c.fork; if (!c.open) return null;
        const people = this.ref.participants(c, f) || []; if (!people.length) return null;
        const mut = r.weighted([[null, 7], ['drop', 0.6], ['final', 0.6], ['latest', 0.6], ['noauthor', 0.6], ['onesig', 0.4], ['badsig', 0.3], ['foreign', 0.6], ['outsiderBlock', 0.5], ['swap', 0.4], ['dupvote', 0.4], ['missingOne', 0.5], ['fork', 0.4], ['sender', 0.7]]);
        const ch = this.chainArgs(i, f, r, people, mut);
        const mode = it.mode || r.pick(['timeout', 'timeout', 'proof', 'proof', 'both']);
        let timedout = ZERO, folded = 0;
        if (mode !== 'proof') {
            const lb = ch.votes.length ? block(ch.votes[ch.votes.length - 1][0]) : null;
            folded = lb ? H(lb).transactionCnt + 1 : 0; timedout = this.app.next(ch.latestS) || r.pick(people) || this.outs[0].address;
            if (r.chance(0.15)) timedout = r.pick([...people, this.outs[0].address]);
            if (r.chance(0.1)) folded = Math.max(0, folded + r.pick([1, -1, 5]));
        } else if (r.chance(0.15)) folded = r.range(0, 4);
        const from = mut === 'sender' ? r.pick([...this.outs, ...this.people]).address : r.chance(0.85) ? r.pick(people.filter((a) => a !== timedout).concat(people.length === 1 ? people : [])) : r.pick(people);
        const d = { people, folded, poster: from, from, votes: ch.votes, creation: T };
        const proofs = mode === 'timeout' ? (r.chance(0.15) ? this.proofKinds(r, 1) : []) : this.proofKinds(r, r.pick([1, 1, 1, 2, 3]));
        return ['createDispute', [this.ids[i], mut === 'fork' ? f + r.pick([1, -1].filter((x) => f + x >= 0)) : f, ch.final, ch.latest, ch.votes, timedout, folded, proofs.map((k) => this.proof(k, i, f, r, T, d))], from];
    }
    tx_challenge(it, r, T, i) {
        const c = this.c(i), o = c.dispute;
        if (!o) { if (!c.open) return null; return ['challengeDispute', [this.ids[i], 0, 0, [], [], '0x', '0x'], this.people[0].address]; }
        const f = o.fork, people = o.participants;
        const good = r.chance(0.4), mut = good ? null : r.weighted([[null, 8], ['drop', 0.5], ['final', 0.5], ['latest', 0.5], ['noauthor', 0.5], ['foreign', 0.5], ['outsiderBlock', 0.4], ['missingOne', 0.4], ['cnt', 0.7], ['fork', 0.4], ['sender', 0.8]]);
        const ch = this.chainArgs(i, f, r, people, mut, o.votes.length ? H(block(o.votes[0][0])).transactionCnt : 0);
        const clean = people.filter((a) => !o.slashed.includes(a)), from = mut === 'sender' ? r.pick([...this.outs, ...this.people]).address : r.pick(clean.length && r.chance(0.93) ? clean : people);
        const d = { good, people, folded: o.folded, slashed: o.slashed, poster: o.poster, from, votes: o.votes, creation: o.creation };
        const kinds = good ? [r.pick([1, 1, 2, 2, 2, 3, 3, 5])] : this.proofKinds(r, r.pick([1, 1, 1, 1, 2, 2, 3, 0]));
        if (o.timedout !== ZERO && r.chance(0.4)) kinds[0] = r.pick([0, 4, 4, 1]);
        else if (!good && r.chance(0.35)) kinds[0] = 3;
        return ['challengeDispute', [this.ids[i], mut === 'fork' ? f + 1 : f, mut === 'cnt' ? o.challengeCnt + r.pick([1, 2]) : o.challengeCnt, kinds.map((k) => this.proof(k, i, f, r, T, d)), ch.votes, ch.final, ch.latest], from];
    }
    tx_join(it, r, T, i) {
        const c = this.c(i); if (!c.open) return null;
        const f = c.fork, ps = this.ref.participants(c, f) || []; if (!ps.length) return null;
        const n = this.blocks(i, f).length, st = this.app.enc(this.stateAt(i, f, r.chance(0.8) ? n : r.range(0, n)));
        const mut = r.weighted([[null, 5], ['notall', 1], ['joinsig', 1], ['sender', 1], ['member', 0.6], ['fork', 0.6], ['state', 0.8], ['deadline', 1.2], ['refuse', 0.6], ['appno', 0.6], ['dup', 0.4], ['submitter', 0.5]]);
        const jw = r.pick([this.outs[1], this.outs[2]]), sub = mut === 'submitter' ? this.outs[0].address : r.pick(ps);
        const e = enc1(M.JOIN, [this.ids[i], mut === 'member' ? r.pick(ps) : jw.address, mut === 'refuse' ? 13 : 20 + r.int(9), mut === 'deadline' ? T + r.pick([0, 1, -1, -99]) : T + 300, mut === 'appno' ? '0x01' : '0x']);
        const js = this.sig(mut === 'joinsig' ? r.pick(ps) : jw.address, e);
        const a = enc1(ABI.jca, [[e, js], sub, mut === 'fork' ? f + 1 : f, n, keccak(mut === 'state' ? st + '00' : st)]);
        let who = mut === 'notall' ? ps.slice(1) : mut === 'dup' ? ps.map(() => ps[0]) : ps;
        if (r.chance(0.2)) who = [...who, jw.address];
        return ['joinChannelWithAgreement', [[a, r.shuffle(who).map((x) => this.sig(x, a))], st], mut === 'sender' ? r.pick([...this.people, ...this.outs]).address : sub];
    }
    tx_leave(it, r, T, i) {
        const c = this.c(i); if (!c.open) return null;
        const f = c.fork, ps = this.ref.participants(c, f) || []; if (!ps.length) return null;
        const n = this.blocks(i, f).length, st = this.app.enc(this.stateAt(i, f, n));
        const mut = r.weighted([[null, 5], ['notall', 1.2], ['outsider', 0.7], ['fork', 0.7], ['state', 0.8], ['deadline', 1.2], ['dup', 0.5]]);
        const e = enc1(ABI.leave, [this.ids[i], mut === 'outsider' ? this.outs[1].address : r.pick(ps), mut === 'fork' ? f + 1 : f, n, keccak(mut === 'state' ? st + '00' : st), mut === 'deadline' ? T + r.pick([0, 1, -1, -99]) : T + 300, '0x']);
        const who = mut === 'notall' ? ps.slice(1) : mut === 'dup' ? ps.map(() => ps[0]) : ps;
        return ['leaveChannelWithAgreement', [[e, r.shuffle(who).map((x) => this.sig(x, e))], st], r.pick([...this.people, ...this.outs]).address];
    }
    tx_meddle(it, r, T, i) { // calls that must not matter, or that only the manager itself may make
        const from = r.pick([...this.people, ...this.outs]).address, c = this.c(i), sm = this.capp.sm;
        const st = c.open ? this.app.enc(this.stateAt(i, c.fork, this.blocks(i, c.fork).length)) : this.app.enc(this.app.genesis([from], [5n]));
        const raw = (to, f, iface, args, fn) => ({ raw: true, to, data: iface.encodeFunctionData(f, args), fn, from });
        switch (r.int(9)) {
            case 0: return raw(sm, 'setState', this.smIface, [this.app.enc(this.app.genesis([from], [9n]))], 'noEffect');
            case 1: return raw(sm, 'removeParticipant', this.smIface, [r.pick(this.people).address], 'noEffect');
            case 2: return raw(this.scm, 'executeStateTransitionOnState', this.iface, [this.ids[i], st, [[this.ids[i], from, 0, 0, 0], [0, '0x', this.app.op(this.app.dec(st), r)]]], 'noEffect');
            case 3: return raw(this.scm, 'getParticipants', this.iface, [this.ids[i], c.fork], c.open ? 'noEffect' : 'selfOnly');
            case 4: return raw(this.scm, 'removeParticipantComposable', this.iface, [this.ids[i], [from, 5, '0x']], 'selfOnly');
            case 5: return raw(this.scm, 'addParticipantComposable', this.iface, [[this.ids[i], from, 5, T + 100, '0x']], 'selfOnly');
            case 6: return raw(this.scm, 'applySlashesToStateMachine', this.iface, [st, [r.pick(this.people).address]], 'selfOnly');
            case 7: return raw(this.scm, 'removeParticipantsFromStateMachine', this.iface, [st, [r.pick(this.people).address]], 'selfOnly');
            default: return raw(this.scm, 'applyJoinChannelToStateMachine', this.iface, [st, [[this.ids[i], from, 5, T + 100, '0x']]], 'selfOnly');
        }
    }
    // when: around the moments that matter
    time(it, r, i) {
        const c = this.c(i), now = this.ts(), soon = now + 1;
        const c2 = [];
        if (it.k === 'challenge') { if (!c.dispute || c.dispute.deadline < soon) return soon; c2.push(r.chance(0.8) ? soon : c.dispute.deadline + r.pick([-1, -1, -1, -2, 0, 1])); }
        if (it.k === 'dispute' && c.dispute && c.dispute.deadline >= soon && r.chance(0.7)) c2.push(c.dispute.deadline + r.pick([0, 1, 1, 1]));
        if (it.k === 'dispute' && c.open && r.chance(0.6)) { const f = c.fork, n = this.blocks(i, f).length; c2.push(Math.max(this.tsAt(i, f, n), this.ref.chainTs(c, f, n)) + WAIT + r.pick([-1, 0, 0, 0, 1])); }
        if (it.k === 'post' && c.open && r.chance(0.5)) { const f = c.fork, n = this.blocks(i, f).length; if (n) c2.push(this.tsAt(i, f, n) + r.pick([0, 15, 15, 16, 14])); }
        if ((it.k === 'join' || it.k === 'leave') && c.dispute && r.chance(0.6)) c2.push(c.dispute.deadline + r.pick([0, 1, 1]));
        const ok = c2.filter((x) => x >= soon && x < soon + 60);
        return ok.length ? r.pick(ok) : soon + r.pick([0, 0, 1, 3, it.k === 'dispute' ? 17 : 2, it.k === 'dispute' ? 20 : 0]);
    }
    build(it, T) {
        const i = it.ch || 0, { Rng } = require('./core'), rng = (k) => new Rng(this.plan.seed, 'item.' + it.id + '.' + k);
        if (it.k === 'grow') { this.grow(it, rng(0), T, i); return null; }
        const c = this.c(i), skip = rng('skip');
        if (it.k === 'challenge' && (!c.dispute || c.dispute.deadline <= T) && !skip.chance(c.dispute ? 0.1 : 0.05)) return null;
        if (it.k === 'dispute' && c.open && (this.ref.participants(c, c.fork) || []).length === 1 && skip.chance(0.8)) return null;
        // several drafts; the one is sent that the model finds most interesting: valid in a rare way, or valid but for one thing
        const want = rng('want').weighted([['any', 1], ['valid', it.k === 'dispute' ? 5 : 4], ['near', 5]]), n = want === 'any' || it.k === 'meddle' ? 1 : it.k === 'dispute' || it.k === 'challenge' ? 30 : 8;
        let best = 0, top = -1, tag = null;
        if (n > 1) {
            this.drafting = true;
            for (let j = 0; j < n; j++) {
                const d = this['tx_' + it.k](it, rng(j), T, i); if (!d) continue;
                const [kind, names] = this.dry(d, T);
                let like = 0, name = null;
                for (const x of names) {
                    const y = kind + '.' + x; if (!this.taste.has(y)) this.taste.set(y, this.sim.rng('taste.' + y).float() * (COMMON.test(y) ? 0.4 : 1));
                    if (this.taste.get(y) > like) { like = this.taste.get(y); name = y; }
                }
                const score = (kind === want ? 10 : kind === 'far' ? 0 : 3) + like;
                if (score > top) { top = score; best = j; tag = name; }
            }
            this.drafting = false; drafts.clear();
            if (tag) this.taste.set(tag, this.taste.get(tag) / 3);
        }
        return this['tx_' + it.k](it, rng(best), T, i);
    }
    snapshot() { return new Map([...this.ref.ch].map(([id, c]) => [id, { ...c, states: c.states.slice(), ts: c.ts.slice(), posted: new Map([...c.posted].map(([f, m]) => [f, new Map(m)])), dispute: c.dispute }])); }
    dry(d, T) {
        const keep = this.snapshot(), args = this.iface.decodeFunctionData(d[0], this.iface.encodeFunctionData(d[0], d[1]));
        const go = (w) => { waived = w; tags = []; try { this.ref.call(this.app, null, d[0], args, d[2] || this.outs[0].address, T); return { ok: true, tags }; } catch (e) { return { ok: false, why: e instanceof Reject ? e.why : null }; } finally { waived = null; tags = null; this.restore(keep); } };
        const a = go(null);
        if (a.ok) return ['valid', [d[0], ...a.tags]];
        if (!a.why) return ['far', []];
        return go(a.why).ok ? ['near', [d[0] + ': ' + a.why]] : ['far', [d[0] + ': ' + a.why]];
    }
    restore(keep) { this.ref.ch = new Map([...keep].map(([id, c]) => [id, { ...c, states: c.states.slice(), ts: c.ts.slice(), posted: new Map([...c.posted].map(([f, m]) => [f, new Map(m)])) }])); }
    submit(it, T) {
        const b = this.build(it, T);
        if (!b) { if (it.k !== 'grow') this.sim.count('skipped.' + it.k); return; }
        let t;
        if (b.raw) t = this.chain.submit(b.from, b.to, b.data, 30000000, 0, b.fn);
        else { t = this.chain.submit(b[2] || this.outs[0].address, this.scm, this.iface.encodeFunctionData(b[0], b[1]), 30000000, 0, b[0]); t.args = this.iface.decodeFunctionData(b[0], t.data); }
        t.item = it; this.sim.count('tx.' + it.k);
    }
    step(k) {
        if (k >= this.plan.items.length) return;
        const it = this.plan.items[k], T = this.time(it, this.sim.rng('time.' + it.id), it.ch || 0);
        this.sim.at((T - E0) * 1000 - 300, 'step', () => {
            this.submit(it, T);
            let n = k + 1;
            while (n < this.plan.items.length && this.plan.items[n].with) this.submit(this.plan.items[n++], T); // same ledger block, any order
            this.sim.at((T - E0) * 1000 + 200, 'next', () => this.step(n));
        });
    }
    async onTx(tx) {
        const before = this.snapshot();
        let want = null, rej = null;
        try { want = this.ref.call(this.app, tx, tx.fn, tx.args, tx.from, tx.timestamp); } catch (e) { if (!(e instanceof Reject)) throw e; rej = e; this.ref.ch = before; }
        const ok = tx.status === 1;
        this.sim.probe((ok ? 'accepted.' : 'rejected.') + tx.fn); if (rej) { this.marks.add(tx.fn + ': ' + rej.why); this.sim.probe('why.' + tx.fn + ': ' + rej.why); this.sim.probe('ref.' + rej.prop); }
        this.involved = involved(tx, (before.get(tx.args && tx.args[0]) || {}).dispute);
        const at = ' (' + tx.fn + ' by ' + tx.from.slice(0, 8) + ' at ' + (tx.timestamp - E0) + ', item ' + (tx.item && tx.item.id) + ')';
        if (rej && ok) return this.violate(rej.prop, 'accepted', 'the ledger accepted what it must refuse: ' + rej.why + at);
        if (want && !ok && tx.fn !== 'noEffect') { for (const p of whose(tx.fn, tx.error)) this.violate(p, 'refused', 'the ledger refused a valid transaction: ' + tx.error + at); return; }
        if (ok && tx.fn !== 'noEffect') this.events(tx, want, at);
        if (!this.violations.length) await this.compare(at, tx.fn);
    }
    events(tx, want, at) {
        const got = [];
        for (const l of tx.logs) { let e = null; try { e = this.iface.parseLog(l); } catch (x) { e = null; } if (e) got.push(e); }
        const show = (e) => (Array.isArray(e) ? e[0] + ':' + (e[0] === 'SetState' ? [e[1], keccak(e[2]), e[3], e[4]] : e[0] === 'BlockCalldataPosted' ? [e[1], keccak(e[2]), e[3]] : e.slice(1)) : e.name + ':' + (e.name === 'SetState' ? [e.args[0], keccak(e.args[1]), e.args[2], e.args[3]] : e.name === 'BlockCalldataPosted' ? [e.args[0], keccak(e.args[1][0]), e.args[2]] : e.name === 'DisputeUpdated' ? [e.args[0]] : [...e.args]));
        const rel = (x) => ['SetState', 'BlockCalldataPosted', 'DisputeUpdated'].includes(Array.isArray(x) ? x[0] : x.name);
        const money = (x) => ['Deposit', 'Payout'].includes(Array.isArray(x) ? x[0] : x.name);
        const a = want.filter(money).map(show).sort().join(' '), b = got.filter(money).map(show).sort().join(' ');
        if (a !== b) this.violate(tx.fn === 'openChannel' ? 'P20' : 'P24', 'money', 'deposits and payouts: expected [' + a + '] got [' + b + ']' + at);
        const c = want.filter(rel).map(show).join(' '), d = got.filter(rel).map(show).join(' ');
        if (c !== d) { if (/SetState/.test(c + d) && tx.fn !== 'openChannel') { const cs = want.find((x) => x[0] === 'SetState'), ds = got.find((x) => x.name === 'SetState'); if (!cs || !ds || keccak(cs[2]) !== keccak(ds.args[1])) return; } this.violate(tx.fn === 'openChannel' ? 'P20' : tx.fn === 'postBlockCalldata' ? 'P21' : /Agreement/.test(tx.fn) ? 'P24' : 'P13', 'events', 'expected [' + c + '] got [' + d + ']' + at); }
        this.sim.probe('eventsCompared');
    }
    async compare(at, fn) {
        const V = (f, a) => this.chain.view(this.plan.app, f, a);
        for (const c of this.ref.ch.values()) {
            const own = fn === 'openChannel' ? 'P20' : /Agreement/.test(fn) ? 'P24' : null;
            const bad = (p, what, w, g) => { if (/^startOfFork/.test(what)) this.involved = [...(this.involved || []), 'P11', 'P13', 'P14']; this.violate(own || p, 'state.' + what.replace(/ .*/, ''), what + ': expected ' + w + ' got ' + g + at); };
            const open = await V('isChannelOpen', [c.id]); if (open !== c.open) return bad('P20', 'open', c.open, open);
            const fork = Number(await V('getForkCnt', [c.id])); if (fork !== c.fork) return bad('P13', 'fork', c.fork, fork);
            if (c.open) {
                const st = await V('getLatestState', [c.id]);
                if (st !== c.states[c.fork]) {
                    const s1 = this.app.dec(c.states[c.fork]), s2 = this.app.dec(st), d = c.dispute;
                    const missing = s2 && s1.participants.filter((a) => !s2.participants.includes(a)), extra = s2 && s2.participants.filter((a) => !s1.participants.includes(a));
                    const p = !s2 || (!missing.length && !extra.length) ? 'P12' : missing.length ? 'P11' : d && extra.includes(d.timedout) ? 'P14' : extra.some((a) => d && d.join.some((j) => j.participant === a)) ? 'P24' : 'P11';
                    return bad(p, 'latestState', c.states[c.fork].slice(0, 400), st.slice(0, 400));
                }
                for (let f = 0; f <= c.fork; f++) {
                    const g = Number(await V('getGenesisTimestamp', [c.id, f])); if (g !== c.ts[f]) return bad('P13', 'startOfFork ' + f, c.ts[f], g);
                    if (f < c.fork && f >= c.fork - 2 && !(await V('isGenesisState', [c.id, f, c.states[f]]))) return bad('P12', 'pastFork ' + f, 'unchanged', 'changed');
                }
            }
            for (const [f, m] of c.posted) {
                const hs = [...m.values()].map((p) => p.h);
                for (const p of m.values()) { const [found, d] = await V('getBlockCallData', [c.id, f, p.h, p.who]); if (!found || d[0][0] !== p.enc || d[0][1] !== p.sig || Number(d[1]) !== p.ts) return bad('P21', 'calldata', [p.h, p.who, p.ts], found + ' ' + Number(d[1])); }
                for (const q of [...new Set([0, ...hs, Math.max(...hs) + 1, Math.max(0, Math.min(...hs) - 1)])]) { const g = Number(await V('getChainLatestBlockTimestamp', [c.id, f, q])); if (g !== this.ref.chainTs(c, f, q)) return bad('P21', 'latestTimestamp ' + f + '/' + q, this.ref.chainTs(c, f, q), g); }
            }
            if (c.open && (await V('getBlockCallData', [c.id, c.fork, 77, this.people[0].address]))[0]) return bad('P21', 'calldata', 'none', 'some');
            const d = await V('getDispute', [c.id]), o = c.dispute;
            if (!o) { if (d.channelId !== ethers.ZeroHash) return bad('P13', 'dispute', 'none', 'some'); continue; }
            const chk = [
                ['P13', 'channelId', o.channelId, d.channelId], ['P13', 'disputedFork', o.fork, d.forkCnt], ['P13', 'challengeCnt', o.challengeCnt, d.challengeCnt], ['P13', 'deadline', o.deadline, d.deadlineTimestamp], ['P13', 'creation', o.creation, d.creationTimestamp],
                ['P13', 'poster', o.poster, d.postedStateDisputer], ['P13', 'participants', o.participants, d.participants], ['P11', 'slashed', o.slashed, d.slashedParticipants], ['P14', 'timedout', o.timedout, d.timedoutParticipant],
                ['P14', 'timeoutDisputer', o.timeoutDisputer, d.timeoutDisputer], ['P14', 'folded', o.folded, d.foldedTransactionCnt], ['P12', 'latest', o.latest, d.encodedLatestCorrectState], ['P12', 'final', o.final, d.encodedLatestFinalizedState],
                ['P12', 'blocks', o.votes.map((v) => [v[0], v[1]]), d.virtualVotingBlocks.map((v) => [v[0], [...v[1]]])], ['P24', 'joiners', o.join.map((j) => [j.participant, j.amount]), d.joinChannelParticipants.map((j) => [j.participant, j.amount])], ['P24', 'leavers', [], [...d.leaveChannelParticipants]],
                ['P24', 'exits', o.exits.map((e) => [e.participant, e.amount]), d.processExits.map((e) => [e.participant, e.amount])]
            ];
            for (const [p, what, w, g] of chk) { const a = String(Array.isArray(w) ? w.flat(3).map(String) : w), b = String(typeof g === 'bigint' ? g : Array.isArray(g) || (g && g.map) ? [...g].flat(3).map(String) : g); if (a !== b) return bad(p, 'dispute.' + what, a.slice(0, 200), b.slice(0, 200)); }
            this.sim.probe('disputeCompared');
        }
        this.sim.probe('compared');
    }
    async run() {
        await this.init();
        this.sim.at(1000, 'begin', () => this.step(0));
        await this.sim.run(3600000);
        const sim = this.sim;
        const last = this.chain.txs.length ? Math.max(...this.chain.txs.map((t) => t.minedAt || 0)) : 0;
        const r = { violations: this.violations, digest: sim.digest(), shape: sim.digest().slice(0, 16), events: sim.events, simMs: last, counts: sim.counts, probes: sim.probes, marks: [...this.marks].sort(), trace: sim.trace };
        sim.close();
        return r;
    }
}
// a dispute transaction is the business of every property whose subject it contains
function involved(tx, old) {
    if (tx.fn !== 'createDispute' && tx.fn !== 'challengeDispute') return [];
    const create = tx.fn === 'createDispute', proofs = create ? tx.args[7] : tx.args[3], kinds = proofs.map((p) => Number(p[0])), out = ['P13'];
    if (tx.args[4].length) out.push('P12');
    if (kinds.some((k) => [1, 2, 3, 5].includes(k))) out.push('P11');
    if (kinds.some((k) => k === 0 || k === 4) || (create ? tx.args[5] !== ZERO : old && old.timedout !== ZERO)) out.push('P14');
    if (kinds.includes(6) || (!create && old && old.join.length)) out.push('P24');
    return out;
}
// whose promise is broken when the ledger refuses what it should accept
function whose(fn, err) {
    if (fn === 'openChannel') return ['P20'];
    if (fn === 'postBlockCalldata') return ['P21'];
    if (/Agreement/.test(fn)) return ['P24'];
    const e = String(err);
    if (/DisputeInProgrees|DisputeDoesntExist|ChallengeMismatch|DisputeExpired|AlredySlashed/.test(e)) return ['P13'];
    if (/Finalized|ErrorLatest/.test(e)) return ['P12'];
    if (/Timeout/.test(e)) return ['P14'];
    if (/JoinChannel/.test(e)) return ['P24'];
    if (/DisputeInvalid|DoubleSign|IncorrectData|NewerState|Future|SlashedParticipant|SignatureInvalid/.test(e)) return ['P11'];
    return ['P11', 'P12', 'P13', 'P14'];
}
function gen(seed, r, app) {
    const n = r.pick([2, 3, 3, 4, 4, 5, 5, 6]), items = [];
    let id = 0; const add = (k, o = {}) => items.push({ id: id++, k, ...o });
    const channels = r.pick([1, 2, 2, 3]);
    if (r.chance(0.5)) add('post'); if (r.chance(0.3)) add('open');
    for (let c = 0; c < channels; c++) add('open', { clean: r.chance(0.85), ch: c });
    if (r.chance(0.3)) add('open', { with: true });
    for (let k = r.range(14, 30); k > 0; k--) {
        const ch = r.int(channels), w = r.chance(0.12) ? { with: true } : {};
        const what = r.weighted([['grow', 4], ['dispute', 5], ['challenge', 2], ['post', 2.2], ['join', app === 'vault' ? 2 : 0.4], ['leave', app === 'vault' ? 1.5 : 0.3], ['meddle', 0.8], ['open', 0.5]]);
        add(what, { ch, ...w });
        if (what === 'dispute') { for (let q = r.pick([0, 1, 2, 3]); q > 0; q--) add('challenge', { ch, ...(r.chance(0.15) ? { with: true } : {}) }); if (r.chance(0.25)) add('dispute', { ch, ...(r.chance(0.4) ? { with: true } : {}) }); }
    }
    return { kind: 'ledger', seed, app, n, channels, items };
}
async function runPlan(plan, opts) { const l = new Ledger(plan, opts); try { return await l.run(); } catch (e) { if (l.sim) l.sim.close(); throw e; } }
module.exports = { runPlan, gen, Ref, Reject, APPS, ABI, strictRecover };
