'use strict';
// Adversary: a participant that stops following the protocol, and an outsider that can only reach the wire and the ledger.
const M = require('./model');
const { ethers } = require('./chain');
const { walletFor } = require('./node');

const rpc = (method, ...params) => JSON.stringify({ method, params });
const signed = (w, b) => ({ encodedBlock: b.enc, signature: M.signEnc(w, b.enc) });

// what this participant knows (the tip of its own chain)
function tip(n) {
    const F = n.obs.forks[n.obs.fork]; if (!F) return null;
    const last = F.blocks[F.blocks.length - 1];
    return { fork: n.obs.fork, height: F.blocks.length, state: last ? last.state : F.state0, ts: Math.max(F.ts, last ? last.b.transaction.header.timestamp : 0), F };
}
function peers(w, n) { // those that still take part
    const led = n.ch.forks[n.ch.forks.length - 1], in_ = (p) => !led || led.state.participants.includes(p.address);
    const all = n.ch.nodes.filter((p) => p !== n && !p.crashed && !p.muted && in_(p));
    return n.aud === undefined ? all : all.filter((p) => p.honest).filter((p, i) => i % 2 === n.aud); // or only some of them
}
function sendTo(w, n, to, data, delay) { return w.net.inject(n.name, to.name, data, delay === undefined ? w.sim.rng('byz.' + n.name).range(2, 60) : delay); }
function broadcast(w, n, data) { for (const p of peers(w, n)) sendTo(w, n, p, data); }
function mute(n) { n.muted = true; n.tamper = () => null; n.stalledUntil = Infinity; }
function acted(w, n, kind) { n.acted = kind; n.actedAt = w.sim.now; w.sim.count('byz.' + kind); w.mark('byz.' + kind); }
const nowS = (w) => w.sim.epochS();
const post = (w, n, b, d) => w.chain.submit(n.address, w.scm, w.iface.encodeFunctionData('postBlockCalldata', [[b.enc, M.signEnc(n.wallet, b.enc)]]), 2000000, d || 5, 'postBlockCalldata');
// the time that bounds the next block: start of the fork, last block, last relevant posting
function refTs(n, t) { let x = t.ts; for (const p of n.ch.posted.get(t.fork) || []) if (p.h <= t.height && p.ts > x) x = p.ts; return x; }

// acts that replace this participant's move on its own turn
const ONTURN = {
    badState(w, n, t, r) { const b = M.makeBlock(n.ch.id, n.address, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1, { stateHash: M.stateHash({ number: t.state.number + BigInt(r.range(2, 900)), participants: t.state.participants }) }); return [b]; },
    badPeople(w, n, t) { const b = M.makeBlock(n.ch.id, n.address, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1, { stateHash: M.stateHash({ number: t.state.number + 1n, participants: [n.address] }) }); return [b]; },
    badTx(w, n, t, r) { const b = M.makeBlock(n.ch.id, n.address, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1, { data: r.pick(['0x', '0xdeadbeef', ...(w.plan.app === 'rich' ? [0, 1, 2, 3, 4, 5].map((k) => M.appIface.encodeFunctionData('refuse', [k])) : []), M.addData(1).slice(0, 60), ethers.hexlify(r.bytes(36)), M.addIface.encodeFunctionData('add', [(1n << 256n) - 1n - t.state.number + 1n + (t.state.number === 0n ? 0n : 0n)].map((x) => (x > (1n << 256n) - 1n ? (1n << 256n) - 1n : x)))]) }); return M.apply(t.state, b.transaction) ? [M.makeBlock(n.ch.id, n.address, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1, { data: '0xdeadbeef' })] : [b]; },
    oldTs(w, n, t, r) { return [M.makeBlock(n.ch.id, n.address, t.fork, t.height, t.ts - r.pick([1, 2, 10, 1000]), t.state, 1)]; },
    futureTs(w, n, t, r) { return [M.makeBlock(n.ch.id, n.address, t.fork, t.height, Math.max(t.ts, nowS(w)) + r.pick([40, 100, 100000]), t.state, 1)]; },
    wrongPrev(w, n, t, r) { return [M.makeBlock(n.ch.id, n.address, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1, { previousStateHash: ethers.hexlify(r.bytes(32)) })]; },
    // legal in itself, but said to belong to another fork, another channel or another height
    wrongPlace(w, n, t, r) {
        const what = r.pick(t.fork ? ['past', 'past', 'past', 'future', 'channel'] : ['future', 'future', 'channel', 'channel', 'height']);
        const b = M.makeBlock(what === 'channel' ? ethers.hexlify(r.bytes(32)) : n.ch.id, n.address, what === 'past' ? r.int(t.fork) : what === 'future' ? t.fork + r.pick([1, 1, 2]) : t.fork, what === 'height' ? t.height + r.range(1, 3) : t.height, Math.max(t.ts, nowS(w)), t.state, 1 + r.int(5));
        return [b];
    },
    // legal in itself, but signed over bytes that are not the block's encoding, or with an odd form of the signature
    oddBytes(w, n, t, r) {
        const b = M.makeBlock(n.ch.id, n.address, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1 + r.int(5)), k = r.int(4);
        if (k < 3) b.enc = k === 0 ? b.enc + '00'.repeat(32) : k === 1 ? b.enc + r.pick(['00', 'ff', '0'.repeat(62)]) : b.enc.toUpperCase().replace('0X', '0x');
        else b.oddSig = true;
        return [b];
    },
    double(w, n, t, r) { const ts = Math.max(t.ts, nowS(w)); const x = r.range(0, 3); return [M.makeBlock(n.ch.id, n.address, t.fork, t.height, ts, t.state, x), M.makeBlock(n.ch.id, n.address, t.fork, t.height, ts + (r.chance(0.5) ? 0 : 1), t.state, x + 1 + r.range(0, 3))]; },
    // same transaction, different header time: still two blocks
    doubleTs(w, n, t) { const ts = Math.max(t.ts, nowS(w)); return [M.makeBlock(n.ch.id, n.address, t.fork, t.height, ts, t.state, 2), M.makeBlock(n.ch.id, n.address, t.fork, t.height, ts + 1, t.state, 2)]; },
    // only a little further ahead than allowed; or written too late
    soonTs(w, n, t, r) { return [M.makeBlock(n.ch.id, n.address, t.fork, t.height, refTs(n, t) + 5 + r.pick([1, 2, 4]), t.state, 1)]; },
    lateTs(w, n, t, r) { const late = 6 + r.range(0, 5); if (nowS(w) < refTs(n, t) + late) return null; return [M.makeBlock(n.ch.id, n.address, t.fork, t.height, nowS(w), t.state, 1)]; },
    // legal in itself, but handed to a single peer at the very moment that peer gives up waiting
    brink(w, n, t, r) {
        n.brinkMs = r.pick([15000, 16000]) + r.range(-250, 400);
        return [M.makeBlock(n.ch.id, n.address, t.fork, t.height, refTs(n, t) + r.range(0, 5), t.state, 1)];
    },
    // tells its peers one thing and the ledger another
    doublePost(w, n, t, r) { const ts = Math.max(t.ts, nowS(w)), x = r.range(0, 3); return [M.makeBlock(n.ch.id, n.address, t.fork, t.height, ts, t.state, x), M.makeBlock(n.ch.id, n.address, t.fork, t.height, ts, t.state, x + 1 + r.range(0, 3))]; },
    // something illegal, on the ledger only
    badPost(w, n, t, r) { return [ONTURN[r.pick(['badState', 'badPeople', 'badTx'])](w, n, t, r)[0]]; },
    silent() { return []; },
    withhold(w, n, t) { return [M.makeBlock(n.ch.id, n.address, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1)]; }
};
// acts shortly after another one acted, if it is told to
function led(n, it) { if (it.follow === undefined) return true; const o = n.ch.nodes[it.follow]; return !!o.acted && n.sim.now >= o.actedAt + it.lag; }
function schedule(w, it) {
    const n = w.channels[it.ch || 0].nodes[it.node], sim = w.sim;
    n.acts = n.acts || []; n.acts.push(it.act); n.aud = it.aud;
    if (it.act === 'noConfirm') { // never confirms anybody's block
        sim.at(it.t, 'byz ' + n.name, () => { acted(w, n, it.act); n.tamper = (rec) => (rec.method === 'onBlockConfirmation' ? null : undefined); }, null);
        return;
    }
    if (it.act === 'muteP2p') { // says nothing to its peers, uses the ledger only
        sim.at(it.t, 'byz ' + n.name, () => { acted(w, n, it.act); n.tamper = () => null; }, null);
        return;
    }
    if (it.act === 'muteAll') { sim.at(it.t, 'byz ' + n.name, () => { acted(w, n, it.act); mute(n); }, null); return; }
    if (ONTURN[it.act]) {
        n.byzArmed = () => {
            if (sim.now < it.t || n.acted || !led(n, it)) return false;
            const t = tip(n); if (!t || M.next(t.state) !== n.address || (it.minHeight && t.height < it.minHeight) || (it.maxHeight !== undefined && t.height > it.maxHeight && sim.now < it.t + 9000) || (it.minFork && t.fork < it.minFork)) return false;
            const r = sim.rng('byz.' + n.name + '.' + it.act);
            const bs = ONTURN[it.act](w, n, t, r);
            if (!bs) return true; // not yet
            acted(w, n, it.act);
            const ps = r.shuffle(peers(w, n));
            if (it.act === 'doublePost') { for (const p of ps) sendTo(w, n, p, rpc('onSignedBlock', signed(n.wallet, bs[0]))); post(w, n, bs[1], r.range(5, 3000)); }
            else if (it.act === 'badPost') post(w, n, bs[0]);
            else if (it.act === 'brink') {
                const F = t.F, last = F.blocks[F.blocks.length - 1], since = last ? last.t : F.t, p = r.pick(ps);
                if (p) sendTo(w, n, p, rpc('onSignedBlock', signed(n.wallet, bs[0])), Math.max(1, since + n.brinkMs - sim.now));
                const watch = () => {
                    const d = n.ch.disputes[n.ch.disputes.length - 1], s = w.sigs.get(bs[0].id) || new Map();
                    const top = d && d.votes.length ? d.votes[d.votes.length - 1].transaction.header.transactionCnt : -1;
                    if (d && d.fork === t.fork && d.poster !== n.address && top < t.height && s.has(d.poster)) {
                        sim.count('byz.brink.caught');
                        const raw = d.raw.concat(F.blocks.slice(top + 1, t.height).map((x) => [x.b.enc, [(w.sigs.get(x.b.id) || new Map()).get(x.b.transaction.header.participant)]]), [[bs[0].enc, [s.get(n.address), s.get(d.poster)]]]);
                        const proof = { proofType: 3, encodedProof: M.coder.encode(['tuple(bytes encodedBlock, bytes confirmationSignature)'], [[bs[0].enc, s.get(d.poster)]]) };
                        lib.challenge(w, n.address, n.ch, d, [proof], raw, d.final, M.encodeState(M.apply(t.state, bs[0].transaction)));
                        return;
                    }
                    if (sim.now < n.actedAt + 15000) sim.after(150, 'byz watch ' + n.name, watch, null);
                };
                watch();
            } else if (it.act === 'withhold') { if (ps[0]) sendTo(w, n, ps[0], rpc('onSignedBlock', signed(n.wallet, bs[0]))); }
            else if (bs.length === 2) {
                const style = it.style || r.pick(['split', 'both', 'late']);
                ps.forEach((p, i) => {
                    if (style === 'split' && ps.length > 1) sendTo(w, n, p, rpc('onSignedBlock', signed(n.wallet, bs[i % 2])));
                    else { sendTo(w, n, p, rpc('onSignedBlock', signed(n.wallet, bs[0]))); sendTo(w, n, p, rpc('onSignedBlock', signed(n.wallet, bs[1])), style === 'late' ? r.range(300, 4000) : undefined); }
                });
            } else for (const b of bs) {
                const sb = signed(n.wallet, b);
                if (b.oddSig) sb.signature = mutSig(sb.signature, r);
                if (r.chance(0.3) && ps.length) for (const p of ps) sendTo(w, n, p, rpc('onBlockConfirmation', sb, M.signEnc(n.wallet, b.enc)));
                else for (const p of ps) sendTo(w, n, p, rpc('onSignedBlock', sb));
            }
            mute(n);
            return true;
        };
        return;
    }
    const tryAct = () => {
        if (n.acted || sim.now > w.plan.opsUntil - (it.before || 0)) return;
        if (!led(n, it)) { sim.after(40, 'byz? ' + n.name, tryAct, null); return; }
        const t = tip(n);
        if (t && !(it.minFork && t.fork < it.minFork) && OFFTURN[it.act](w, n, t, sim.rng('byz.' + n.name + '.' + it.act), it)) return;
        sim.after(350, 'byz? ' + n.name, tryAct, null);
    };
    sim.at(it.t, 'byz ' + n.name, tryAct, null);
}
const lib = {
    dispute(w, from, ch, fork, final, latest, votes, timedout, folded, proofs) {
        return w.chain.submit(from, w.scm, w.iface.encodeFunctionData('createDispute', [ch.id, fork, final, latest, votes, timedout, folded, proofs]), 24000000, 5, 'createDispute');
    },
    challenge(w, from, ch, d, proofs, votes, final, latest) {
        return w.chain.submit(from, w.scm, w.iface.encodeFunctionData('challengeDispute', [ch.id, d.fork, d.challengeCnt, proofs, votes, final, latest]), 24000000, 5, 'challengeDispute');
    },
    futureProof(w, ch, wallet, fork, height, state) {
        const b = M.makeBlock(ch.id, wallet.address, fork, height, w.sim.epochS() + 100000, state, 1);
        return { proofType: 5, encodedProof: M.coder.encode(['tuple(' + M.SIGNED + ' block1)'], [[[b.enc, M.signEnc(wallet, b.enc)]]]) };
    }
};
const OFFTURN = {
    // a block at the next height by somebody who is not next
    outOfTurn(w, n, t, r) {
        if (M.next(t.state) === n.address || !t.state.participants.includes(n.address)) return false;
        const b = M.makeBlock(n.ch.id, n.address, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1, {});
        const s2 = { number: t.state.number + 1n, participants: t.state.participants };
        const c = M.makeBlock(n.ch.id, n.address, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1, { stateHash: M.stateHash(s2) });
        acted(w, n, 'outOfTurn'); broadcast(w, n, rpc('onSignedBlock', signed(n.wallet, r.chance(0.5) ? b : c))); mute(n);
        return true;
    },
    // a block of its own at a height that somebody else wrote
    intrude(w, n, t, r) {
        const own = t.F.blocks.map((x, h) => ({ x, h })).filter((y) => y.x.b.transaction.header.participant !== n.address && y.h < t.height);
        if (!own.length || !t.state.participants.includes(n.address)) return false;
        const { x, h } = r.pick(own);
        const prev = h ? t.F.blocks[h - 1].state : t.F.state0, s2 = { number: prev.number + 3n, participants: prev.participants };
        const b = M.makeBlock(n.ch.id, n.address, t.fork, h, x.b.transaction.header.timestamp, prev, 3, r.chance(0.5) ? {} : { stateHash: M.stateHash(s2) });
        acted(w, n, 'intrude'); broadcast(w, n, rpc('onSignedBlock', signed(n.wallet, b))); mute(n);
        return true;
    },
    // blocks in somebody else's name, with its own signature or an outsider's; again and again
    forge(w, n, t, r) {
        const o = r.chance(0.3) ? walletFor('outsider') : n.wallet;
        let b = null;
        if (t.height && r.chance(0.25)) {
            const h = r.int(t.height), x = t.F.blocks[h], prev = h ? t.F.blocks[h - 1].state : t.F.state0, who = x.b.transaction.header.participant;
            if (who === n.address) return false;
            b = M.makeBlock(n.ch.id, who, t.fork, h, x.b.transaction.header.timestamp, prev, 9);
        } else {
            const v = M.next(t.state);
            if (v === n.address) return false;
            b = M.makeBlock(n.ch.id, v, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1 + r.int(5));
        }
        const sb = signed(o, b), alike = r.chance(0.3);
        w.sim.count('byz.forge'); w.mark('byz.forge');
        broadcast(w, n, rpc('onSignedBlock', sb));
        if (alike) broadcast(w, n, rpc('onBlockConfirmation', sb, M.signEnc(o, b.enc)));
        n.forged = (n.forged || 0) + 1;
        if (n.forged < 12) return false;
        n.acted = 'forge'; n.actedAt = w.sim.now;
        return true;
    },
    // a second block at a height it wrote long ago
    doubleLate(w, n, t, r) {
        const own = t.F.blocks.map((x, h) => ({ x, h })).filter((y) => y.x.b.transaction.header.participant === n.address && y.h < t.height - 1);
        if (!own.length) return false;
        const { x, h } = r.pick(own);
        const prev = h ? t.F.blocks[h - 1].state : t.F.state0;
        const b = M.makeBlock(n.ch.id, n.address, t.fork, h, x.b.transaction.header.timestamp, prev, 8 + r.range(0, 9));
        if (b.id === x.b.id) return false;
        acted(w, n, 'doubleLate'); broadcast(w, n, rpc('onSignedBlock', signed(n.wallet, b))); mute(n);
        return true;
    },
    // an accomplice takes the blame so that a dispute can reset the channel to an old state
    rollback(w, n, t, r, it) {
        const own = t.F.blocks.map((x, h) => ({ x, h })).filter((y) => (w.sigs.get(y.x.b.id) || new Map()).has(n.address));
        if (own.length < (it.minOwn || 2)) return false;
        if (it.hideOne && !n.quietAt) { n.quietAt = w.sim.now; mute(n); } // signs nothing more, so that exactly one block is hidden
        if (it.hideOne && w.sim.now < n.quietAt + 3500) return false;
        const mate = n.ch.nodes[it.mate];
        if (!mate || !t.state.participants.includes(mate.address)) return false;
        const old = own.filter((y) => it.hideOne || y.x.t < w.sim.now - 3000).map((y) => y.h); // everybody has seen its signature on these
        if (!old.length) return false;
        const keep = it.keep !== undefined ? it.keep : it.hideOne ? old[old.length - 1] : r.range(0, old[old.length - 1]); // blocks admitted
        const votes = t.F.blocks.slice(0, keep).map((x) => [x.b.enc, [(w.sigs.get(x.b.id) || new Map()).get(x.b.transaction.header.participant)]]);
        if (votes.some((v) => !v[1][0])) return false;
        const latest = keep ? M.encodeState(t.F.blocks[keep - 1].state) : t.F.enc;
        acted(w, n, 'rollback'); mate.acted = mate.acted || 'mate'; mate.actedAt = w.sim.now; mute(mate);
        lib.dispute(w, n.address, n.ch, t.fork, t.F.enc, latest, votes, ethers.ZeroAddress, 0, [lib.futureProof(w, n.ch, mate.wallet, t.fork, t.height + 3, t.state)]);
        mute(n);
        return true;
    },
    // claims that an earlier author never moved, hiding the blocks after it
    falseTimeout(w, n, t, r, it) {
        for (let h = t.height - 1; h >= 0; h--) {
            const blk = t.F.blocks[h], prevTs = h ? t.F.blocks[h - 1].b.transaction.header.timestamp : t.F.ts;
            const victim = blk.b.transaction.header.participant;
            const s = w.sigs.get(blk.b.id) || new Map();
            if (victim === n.address || !t.F.state0.participants.every((p) => s.has(p))) continue;
            if (nowS(w) < prevTs + 17) continue;
            if ((n.ch.posted.get(t.fork) || []).some((p) => p.h <= h)) return false;
            const votes = t.F.blocks.slice(0, h).map((x) => [x.b.enc, [(w.sigs.get(x.b.id) || new Map()).get(x.b.transaction.header.participant)]]);
            const latest = h ? M.encodeState(t.F.blocks[h - 1].state) : t.F.enc;
            acted(w, n, 'falseTimeout');
            const vn = w.byAddr(n.ch, victim);
            if (it.cutVictim && vn && w.live(n.ch).length > 1) { vn.txDownUntil = w.sim.now + 5000; w.sim.count('fault.ledger.victimCutOff'); }
            lib.dispute(w, n.address, n.ch, t.fork, t.F.enc, latest, votes, victim, h, []);
            mute(n);
            return true;
        }
        return false;
    }
};

// ------------------------------------------------------------------ bytes and connections from anybody
const JUNK = ['', '{', 'null', '[]', '{"method":"onSignedBlock"}', '{"method":"onSignedBlock","params":[]}', '{"method":"onSignedBlock","params":[null]}', '{"method":"onSignedBlock","params":[{"encodedBlock":"0x","signature":"0x"}]}',
    '{"method":"onSignedBlock","params":[{"encodedBlock":"0x1234","signature":5}]}', '{"method":"onBlockConfirmation","params":[{"encodedBlock":"0x00","signature":"0x00"},"0x00"]}', '{"method":"constructor","params":[]}', '{"method":"__proto__","params":[]}', '{"method":"rpcProxy","params":[1]}',
    '{"method":"p2pManager","params":[]}', '{"method":"toString","params":{"length":1}}', '{"method":"onInitHandshakeResponse","params":["0x",0,0]}', '{"method":"onInitHandshakeResponse","params":[]}', '{"method":"onInitHandshakeRequest","params":["zz",1]}', '{"method":"onInitHandshakeRequest","params":[null,null]}',
    '{"method":"onOfferWebRTC","params":["x"]}', '{"method":"onAnswerWebRTC","params":["{}"]}', '{"method":"onIceCandidate","params":[null]}', '{"method":"onJoinChannelRequest","params":[null]}', '{"method":"onJoinChannelRequest","params":[{"encodedJoinChannel":"0x12","signature":"0x"}]}',
    '{"method":"onSignJoinChannelTEST","params":["0x","0x"]}', '{"method":"onCanJoinLeaderRequest","params":[]}', '{"method":"onCanJoinLeaderResponse","params":["0x00",[]]}', '{"method":"onCanJoinLeaderResponse","params":[null,null]}', '{"method":"valueOf","params":5}', '{"method":"onSignedBlock","params":"abc"}', '{"method":"onSignedBlock","params":{"0":1}}', '\u0000\u0001\u0002', '{"method":"hasOwnProperty","params":["x"]}'];
function scheduleInject(w, it) {
    const sim = w.sim, ch = w.channels[it.ch || 0];
    const go = () => {
        const from = ch.nodes[it.from], to = ch.nodes[it.to];
        const r = sim.rng('inject.' + it.what + '.' + it.t + '.' + it.from + '.' + it.to);
        const send = (data, d) => w.net.inject(from.name, to.name, data, d === undefined ? r.range(1, 30) : d);
        sim.count('inject.' + it.what); w.mark('inject.' + it.what);
        const t = tip(to) || tip(from);
        const old = w.net.messages.filter((m) => m.m && (m.m.method === 'onSignedBlock' || m.m.method === 'onBlockConfirmation') && m.m.params && m.m.params[0] && typeof m.m.params[0].encodedBlock === 'string');
        switch (it.what) {
            case 'junk': for (let i = 0; i < 6; i++) send(r.pick(JUNK)); break;
            case 'bytes': send(Buffer.from(r.bytes(r.range(1, 200))).toString('latin1')); break;
            case 'replay': for (let i = 0; i < 8 && old.length; i++) send(r.pick(old).data); break;
            case 'mutate': for (let i = 0; i < 6 && old.length; i++) { const d = r.pick(old).data; const p = r.range(20, d.length - 2); send(d.slice(0, p) + r.pick(['0', 'f', '"', '7', '{', ' ', 'A']) + d.slice(p + 1)); } break;
            case 'mutSig': for (let i = 0; i < 4 && old.length; i++) { const m = JSON.parse(r.pick(old).data); const sb = m.params[0]; sb.signature = mutSig(sb.signature, r); if (m.params[1]) m.params[1] = mutSig(m.params[1], r); send(JSON.stringify(m)); } break;
            case 'recode': for (let i = 0; i < 4 && old.length; i++) { const m = JSON.parse(r.pick(old).data); const sb = m.params[0]; sb.encodedBlock = r.pick([sb.encodedBlock + '00', sb.encodedBlock.toUpperCase().replace('0X', '0x'), sb.encodedBlock + '0'.repeat(64)]); send(JSON.stringify(m)); } break;
            case 'outsider': { // a block by somebody who is not a participant
                if (!t) break; const o = walletFor('outsider');
                const b = M.makeBlock(ch.id, o.address, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1, { stateHash: M.stateHash({ number: t.state.number + 1n, participants: t.state.participants }) });
                send(rpc('onSignedBlock', signed(o, b)));
                const last = t.F.blocks[t.F.blocks.length - 1];
                if (last) { const sb = { encodedBlock: last.b.enc, signature: (w.sigs.get(last.b.id) || new Map()).get(last.b.transaction.header.participant) }; if (sb.signature) send(rpc('onBlockConfirmation', sb, M.signEnc(o, last.b.enc))); }
                break;
            }
            case 'forged': { // a block in another participant's name with somebody else's signature
                if (!t) break; const o = walletFor('outsider'), v = M.next(t.state);
                const b = M.makeBlock(ch.id, v, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1);
                send(rpc('onSignedBlock', { encodedBlock: b.enc, signature: M.signEnc(o, b.enc) }));
                break;
            }
            case 'forgedByPeer': { // a block in the next author's name, signed by a cheating participant
                if (!t) break; const b0 = ch.nodes.find((x) => !x.honest && t.state.participants.includes(x.address)), v = M.next(t.state); if (!b0 || b0.address === v) break;
                const b = M.makeBlock(ch.id, v, t.fork, t.height, Math.max(t.ts, nowS(w)), t.state, 1 + r.int(5));
                send(rpc('onSignedBlock', { encodedBlock: b.enc, signature: M.signEnc(b0.wallet, b.enc) }));
                send(rpc('onBlockConfirmation', { encodedBlock: b.enc, signature: M.signEnc(b0.wallet, b.enc) }, M.signEnc(b0.wallet, b.enc)));
                break;
            }
            case 'futureFork': case 'farHeight': { // from the sender itself, if it is an adversary, else from an outsider
                if (!t) break; const s = from.honest ? walletFor('outsider') : from.wallet;
                const b = M.makeBlock(ch.id, s.address, t.fork + (it.what === 'futureFork' ? r.range(1, 50) : 0), t.height + (it.what === 'farHeight' ? r.range(5, 100000) : 0), nowS(w), t.state, 1);
                send(rpc('onSignedBlock', signed(s, b))); send(rpc('onBlockConfirmation', signed(s, b), M.signEnc(s, b.enc)));
                break;
            }
            case 'foreign': { // traffic of another channel
                const other = w.channels[(it.ch || 0) ? 0 : 1]; if (!other) break;
                const ms = w.net.messages.filter((m) => m.m && (m.m.method === 'onSignedBlock' || m.m.method === 'onBlockConfirmation') && (other.nodes.some((x) => x.name === m.from)));
                for (let i = 0; i < 12 && ms.length; i++) send(ms[Math.max(0, ms.length - 1 - r.range(0, 11))].data);
                break;
            }
            case 'blockHash': { // asks for the "handshake" signature of a block's hash
                if (!t) break;
                const author = M.next(t.state), F = t.F;
                const mine = F.blocks.length ? F.blocks[F.blocks.length - 1].b : null;
                const prev = F.blocks.length > 1 ? F.blocks[F.blocks.length - 2].state : F.state0;
                const alt = mine ? M.makeBlock(ch.id, mine.transaction.header.participant, t.fork, F.blocks.length - 1, mine.transaction.header.timestamp, prev, 100 + r.range(0, 50)) : M.makeBlock(ch.id, author, t.fork, 0, nowS(w), t.state, 100);
                w.challengeBlocks.push(alt);
                const raw = it.style === 'raw' ? alt.id : r.pick([alt.id, ethers.keccak256(ethers.solidityPacked(['string', 'bytes32'], ['\x19Ethereum Signed Message:\n32', alt.id]))]);
                send(rpc('onInitHandshakeRequest', raw, nowS(w)));
                break;
            }
            case 'staleHandshake': send(rpc('onInitHandshakeRequest', ethers.hexlify(r.bytes(32)), nowS(w) + r.pick([-6, -60, 6, 600, -1e9]))); break;
            case 'proto': send('{"method":"onSignedBlock","params":[{"__proto__":{"encodedBlock":"0x"}}]}'); send('{"method":"self","params":[]}'); send('{"method":"isPrototypeOf","params":[{}]}'); break;
        }
    };
    sim.at(it.t, 'inject ' + it.what, go, null);
}
function mutSig(s, r) {
    const o = ethers.Signature.from(s);
    return r.pick([o.compactSerialized, s.slice(0, 130) + (s.slice(130) === '1b' ? '00' : '01'), s.toUpperCase().replace('0X', '0x'), s.slice(0, 66) + ethers.toBeHex(0xFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFEBAAEDCE6AF48A03BBFD25E8CD0364141n - BigInt('0x' + s.slice(66, 130)), 32).slice(2) + (s.slice(130) === '1b' ? '1c' : '1b'), '0x' + '00'.repeat(65), s + '00']);
}
module.exports = { schedule, scheduleInject, lib, tip, rpc, signed, JUNK };
