'use strict';
// Plan generators: (profile, seed) -> plan. A plan is plain JSON; everything random in a run comes from plan.seed.
const { Rng } = require('./core');
const ONTURN = ['badState', 'badPeople', 'badTx', 'oldTs', 'futureTs', 'wrongPrev', 'wrongPlace', 'oddBytes', 'double', 'doubleTs', 'soonTs', 'lateTs', 'doublePost', 'badPost', 'brink', 'silent', 'withhold'];
const FRAUD = ['badState', 'badPeople', 'badTx', 'oldTs', 'futureTs', 'double', 'doubleTs', 'outOfTurn', 'intrude', 'doubleLate', 'rollback', 'falseTimeout', 'soonTs', 'lateTs', 'doublePost', 'badPost'];
const INJECTS = ['junk', 'bytes', 'replay', 'mutate', 'mutSig', 'recode', 'outsider', 'forged', 'futureFork', 'farHeight', 'blockHash', 'staleHandshake', 'proto'];

function timelyNet(r) { // any order and duplication, but prompt: a round trip with the worst reordering stays under the agreement time
    const max = r.pick([20, 80, 200, 400]);
    return { min: r.pick([1, 5, max >> 1]), max, loss: 0, dup: r.pick([0, 0, 0.1, 0.4]), reorder: r.pick([0, 0.1, 0.4]) };
}
const rpcLat = (r) => ({ min: 2, max: r.pick([10, 40, 150]) });
const evLat = (r) => ({ min: 5, max: r.pick([60, 400, 900]), dup: r.pick([0, 0, 0.3]) });
const base = (seed, r, n) => ({ seed, n, items: [], net: timelyNet(r), rpc: rpcLat(r), events: evLat(r), txDelay: r.pick([100, 600]), think: r.pick([[0, 50], [0, 1200], [300, 1500]]), xmax: r.pick([3, 7, 100]), chain: { blockMs: r.pick([1000, 1000, 500, 2000]) }, nodes: Array.from({ length: n }, () => ({ skew: 0 })) });
const horizonAfter = (p, ms) => { p.horizon = p.opsUntil + ms; return p; };

function slow(r, p, until) { // slow keys and slow machines widen the windows between two steps
    if (r.chance(0.35)) p.items.push({ k: 'slowsign', node: r.int(p.n), ms: r.pick([100, 600]), t0: 3000, t1: until });
    if (r.chance(0.35)) p.items.push({ k: 'slowvm', node: r.int(p.n), ms: r.pick([20, 60]), t0: 3000, t1: until });
}
function wires(r, p, n) { // somebody interferes with the wire besides
    if (!r.chance(0.3)) return;
    for (let i = r.range(2, 5); i > 0; i--) { const from = r.int(n); p.items.push({ k: 'inject', from, to: (from + 1 + r.int(n - 1)) % n, t: r.range(2500, p.opsUntil - 15000), what: r.pick(['mutSig', 'mutSig', 'recode', 'replay', 'forgedByPeer', 'forged', 'outsider']) }); }
}
const P = {};
// everyone honest and prompt; messages reordered and duplicated
P.calm = (seed) => {
    const r = new Rng(seed, 'plan.calm'), p = base(seed, r, r.pick([2, 3, 3, 3, 4, 5]));
    p.opsUntil = 16000;
    for (const nc of p.nodes) { nc.skew = r.pick([0, 0, r.range(-900, 900)]); nc.jitter = r.pick([0, 0, 1]); }
    for (let i = r.int(3); i > 0; i--) p.items.push({ k: 'rule', kind: r.pick(['delay', 'dup', 'reorder']), p: 0.5, ms: r.range(100, 600), from: 'n' + r.int(p.n), t0: r.range(3000, 12000), t1: r.range(12000, 16000) });
    if (r.chance(0.3)) p.items.push({ k: 'slowsign', node: r.int(p.n), ms: 250, t0: 3000, t1: 15000 });
    if (r.chance(0.3)) p.items.push({ k: 'slowvm', node: r.int(p.n), ms: 20, t0: 3000, t1: 15000 });
    if (r.chance(0.3)) p.items.push({ k: 'stall', node: r.int(p.n), t: r.range(3500, 12000), ms: r.range(50, 700) });
    p.expect = { converge: 'P06', allSigned: true, noLedger: 'P06', noDispute: 'P06', progress: { prop: 'P06', ms: 6500 } };
    return horizonAfter(p, 12000);
};
// the local user calls concurrently, out of turn, with bad arguments; the signer and the state machine are slow or fail
P.local = (seed) => {
    const r = new Rng(seed, 'plan.local'), p = base(seed, r, r.pick([2, 3, 3]));
    p.net = { min: 1, max: r.pick([20, 80]), dup: r.pick([0, 0.2]), reorder: r.pick([0, 0.2]) };
    p.opsUntil = 14000; p.rpc = { min: 1, max: 20 };
    for (let i = r.range(8, 30); i > 0; i--) {
        const bad = r.chance(0.2);
        p.items.push({ k: 'call', node: r.int(p.n), t: r.range(1500, 13500), times: r.pick([1, 1, 2, 3]), args: [bad ? '115792089237316195423570985008687907853269984665640564039457584007913129639935' : r.int(9)] });
    }
    if (r.chance(0.6)) p.items.push({ k: 'slowsign', node: r.int(p.n), ms: r.pick([40, 200, 600]), t0: 2500, t1: 13000 });
    if (r.chance(0.5)) p.items.push({ k: 'slowvm', node: r.int(p.n), ms: r.pick([10, 60, 150]), t0: 2500, t1: 13000 });
    if (r.chance(0.4)) p.items.push({ k: 'signerr', node: r.int(p.n), p: r.pick([0.05, 0.3]), t0: 3000, t1: 11000 });
    p.expect = { progressLocal: true };
    return horizonAfter(p, 12000);
};
// loss, partitions, severed connections; everyone honest and prompt, the ledger reachable
P.lossy = (seed) => {
    const r = new Rng(seed, 'plan.lossy'), n = r.pick([2, 3, 3, 4]), p = base(seed, r, n);
    p.think = r.pick([[0, 800], [300, 1500]]);
    p.opsUntil = 60000; p.chain.blockMs = r.pick([500, 1000, 2000]); p.events.max = Math.min(p.events.max, 900);
    const kinds = r.range(1, 3);
    for (let i = 0; i < kinds; i++) {
        const t0 = r.range(3000, 40000), t1 = t0 + r.pick([2000, 8000, 20000, 60000]);
        const w = r.pick(['part', 'loss', 'loss', 'confLoss', 'blockLoss', 'oneway', 'sever', 'throw', 'mute', 'shy']);
        const a = r.int(n), b = (a + 1 + r.int(n - 1)) % n;
        if (w === 'part') { const k = r.range(1, n - 1), sh = r.shuffle([...Array(n).keys()]); p.items.push({ k: 'part', t0, t1, groups: [sh.slice(0, k).map((x) => 'n' + x), sh.slice(k).map((x) => 'n' + x)] }); }
        else if (w === 'loss') p.items.push({ k: 'rule', kind: 'loss', p: r.pick([0.05, 0.2, 0.5, 1]), t0, t1 });
        else if (w === 'mute') p.items.push({ k: 'rule', kind: 'loss', from: 'n' + a, p: 1, t0: 3000, t1: 52000 });
        else if (w === 'shy') p.items.push({ k: 'rule', kind: 'loss', method: 'onBlockConfirmation', from: 'n' + a, p: 1, t0: 3000, t1: 52000 });
        else if (w === 'confLoss') p.items.push({ k: 'rule', kind: 'loss', method: 'onBlockConfirmation', p: r.pick([0.3, 1]), t0, t1 });
        else if (w === 'blockLoss') p.items.push({ k: 'rule', kind: 'loss', method: 'onSignedBlock', p: r.pick([0.3, 1]), t0, t1 });
        else if (w === 'oneway') p.items.push({ k: 'rule', kind: 'loss', from: 'n' + a, to: 'n' + b, p: 1, t0, t1 });
        else if (w === 'sever') p.items.push({ k: 'sever', a, b, t: t0, ms: r.pick([200, 5000, 20000, 1e6]) });
        else p.items.push({ k: 'throw', a, b, t: t0, ms: r.pick([500, 5000]) });
    }
    if (r.chance(0.25)) p.items.push({ k: 'evdelay', node: r.int(n), ms: r.range(500, 2500), t0: r.range(3000, 30000), t1: 52000 });
    p.expect = { converge: 'P07', noDispute: 'P07', progress: { prop: 'P07', ms: 21000 } };
    return horizonAfter(p, 12000);
};
// one or two participants stop for good
P.crash = (seed) => {
    const r = new Rng(seed, 'plan.crash'), n = r.pick([2, 3, 3, 4, 5]), p = base(seed, r, n);
    p.think = r.pick([[0, 800], [300, 1500]]); p.chain.blockMs = r.pick([500, 1000]);
    p.opsUntil = 62000;
    const a = r.int(n), t = r.range(2500, 16000);
    const style = r.pick(['crash', 'crash', 'silent', 'mute']);
    if (style === 'crash') p.items.push({ k: 'crash', node: a, t });
    else { p.nodes[a].byz = true; p.items.push({ k: 'byz', node: a, act: style === 'mute' ? 'muteAll' : 'silent', t }); }
    p.expect = { converge: 'P08', removed: [{ node: a, t, ms: 27000, prop: 'P08', why: style, unlessIdle: true }], progress: { prop: 'P08', ms: 30000 } };
    if (n > 3 && r.chance(0.5)) {
        const b = (a + 1 + r.int(n - 1)) % n, tb = t + r.pick([0, 500, 14000, r.range(0, 25000)]);
        p.items.push({ k: 'crash', node: b, t: tb });
        p.expect.removed.push({ node: b, t: tb, ms: 52000, prop: 'P08', why: 'crash', unlessIdle: true });
        p.expect.progress.ms = 55000; p.opsUntil = 90000;
    }
    if (r.chance(0.3)) {
        const t0 = r.range(2500, 30000), ms = r.pick([500, 4000, 9000]);
        p.items.push({ k: 'rpcerr', node: r.pick([r.int(n), undefined]), what: 'call', p: 1, t0, t1: t0 + ms });
        for (const e of p.expect.removed) e.ms += ms; // counted from the end of the outage
        p.expect.progress.ms += ms;
    }
    wires(r, p, n);
    return horizonAfter(p, 12000);
};
// programs stop and are started again with nothing but the key: before the channel opens, that changes nothing; later,
// the others do without them
P.restart = (seed) => {
    const r = new Rng(seed, 'plan.restart'), n = r.pick([2, 3, 3, 4]), p = base(seed, r, n), early = r.chance(0.6), late = !early || r.chance(0.7);
    p.think = r.pick([[0, 200], [0, 800], [300, 1500]]); p.chain.blockMs = r.pick([500, 1000, 2000]);
    if (r.chance(0.3)) p.items.push({ k: 'slowsign', node: r.int(n), ms: r.pick([100, 600]), t0: 0, t1: 30000 });
    if (r.chance(0.3)) p.items.push({ k: 'slowvm', node: r.int(n), ms: r.pick([20, 60]), t0: 0, t1: 30000 });
    p.openAt = 2000;
    if (early) for (let i = r.range(1, n); i > 0; i--) {
        const node = r.int(n), t = r.range(50, 4000), back = t + r.pick([1, 20, 60, 500, 2500]);
        p.items.push({ k: 'crash', node, t }, { k: 'restart', node, t: back });
        p.openAt = Math.max(p.openAt, back + 2500);
    }
    p.opsFrom = p.openAt + 1000; p.opsUntil = p.openAt + 14000;
    p.expect = { converge: 'P23', allSigned: true, noLedger: 'P23', noDispute: 'P23', progress: { prop: 'P23', ms: 6500 } };
    if (late) {
        const a = r.int(n), t = p.openAt + r.pick([r.range(0, 2500), r.range(500, 14000), r.range(500, 14000), r.range(14000, 32000)]);
        p.opsUntil = p.openAt + 60000;
        p.expect = { converge: 'P23', removed: [{ node: a, t, ms: 27000, prop: 'P23', why: 'restart', unlessIdle: true }], progress: { prop: 'P23', ms: 30000 } };
        let from = t;
        for (let i = r.pick([1, 1, 2, 3]); i > 0; i--) {
            const back = from + r.pick([1, 40, 300, 3000, 9000, 20000]);
            p.items.push({ k: 'crash', node: a, t: from }, { k: 'restart', node: a, t: back });
            for (let j = r.int(4); j > 0; j--) p.items.push({ k: 'call', node: a, t: back + r.range(100, 12000), times: r.pick([1, 2]), args: [r.int(9)] });
            from = back + r.pick([30, 700, 4000]);
        }
        if (n > 2 && r.chance(0.3)) {
            const b = (a + 1 + r.int(n - 1)) % n, tb = t + r.pick([0, 500, 14000, r.range(0, 25000)]);
            p.items.push({ k: 'crash', node: b, t: tb }, { k: 'restart', node: b, t: tb + r.pick([1, 300, 9000]) });
            p.expect.removed.push({ node: b, t: tb, ms: 52000, prop: 'P23', why: 'restart', unlessIdle: true });
            p.expect.removed[0].ms = 52000; p.expect.progress.ms = 55000; p.opsUntil += 30000;
        }
        if (r.chance(0.3)) { const t0 = p.openAt + r.range(500, 30000); p.items.push({ k: 'inject', from: a, to: (a + 1 + r.int(n - 1)) % n, t: t0, what: r.pick(['replay', 'mutSig', 'recode', 'futureFork']) }); }
    }
    return horizonAfter(p, 12000);
};
// participants are done and dispose of their instances at any moment; the others go on without them
P.dispose = (seed) => {
    const r = new Rng(seed, 'plan.dispose'), n = r.pick([2, 3, 3, 4]), p = base(seed, r, n);
    p.think = r.pick([[0, 200], [0, 800], [300, 1500]]); p.chain.blockMs = r.pick([500, 1000, 2000]);
    const style = r.pick(['one', 'one', 'one', 'all', 'other']);
    const gone = (ch, a, t) => {
        p.items.push({ k: 'dispose', ch, node: a, t });
        if (r.chance(0.2)) p.items.push({ k: 'dispose', ch, node: a, t: t + r.pick([1, 30, 5000]) });
        if (r.chance(0.5)) p.items.push({ k: 'sever', ch, a, b: (a + 1 + r.int(n - 1)) % n, t: t - r.range(40, 400), ms: r.range(1, 300) }); // connected, not identified yet
        for (let i = r.int(3); i > 0; i--) p.items.push({ k: 'reconnect', ch, a, b: (a + 1 + r.int(n - 1)) % n, t: t + r.pick([r.range(-30, 30), r.range(0, 12000)]) });
        for (let i = r.range(1, 3); i > 0; i--) p.items.push({ k: 'call', ch, node: a, t: t + r.range(1, 20000), times: r.pick([1, 2]), args: [r.int(9)] });
        for (let i = r.int(4); i > 0; i--) p.items.push({ k: 'inject', ch, from: (a + 1 + r.int(n - 1)) % n, to: a, t: t + r.range(-40, 3000), what: r.pick(['replay', 'mutSig', 'futureFork', 'outsider']) });
    };
    slow(r, p, 40000);
    if (style === 'all') { // everybody leaves, more or less at the same time
        p.opsUntil = 16000; const t = r.range(200, 14000), spread = r.pick([0, 200, 4000]);
        for (let a = 0; a < n; a++) gone(0, a, t + r.int(spread + 1));
        p.expect = { mayNotOpen: true };
        return horizonAfter(p, 45000);
    }
    if (style === 'other') { // one of two channels of a process
        p.channels = 2; p.oneProcess = true; p.opsUntil = 40000;
        const c = r.int(2), a = r.int(n);
        const t = r.range(3500, 12000);
        gone(c, a, t);
        p.expects = [0, 1].map((i) => (i === c ? { converge: 'P25', removed: [{ node: a, t, ms: 27000, prop: 'P25', why: 'dispose', unlessIdle: true }], progress: { prop: 'P25', ms: 30000 } } : { converge: 'P25', allSigned: true, noDispute: 'P25', progress: { prop: 'P25', ms: 6500 } }));
        return horizonAfter(p, 12000);
    }
    const a = r.int(n), t = r.pick([r.range(200, 2500), r.range(2500, 16000), r.range(2500, 16000)]);
    if (t < 2500) p.startAt = p.nodes.map(() => r.pick([0, 0, r.range(0, 1500)])); // while the participants find each other
    gone(0, a, t); p.opsUntil = 62000;
    if (t < 2500 && r.chance(0.4)) p.items.push({ k: 'rule', kind: 'loss', method: r.pick(['onInitHandshakeRequest', 'onInitHandshakeResponse']), p: r.pick([0.5, 1]), t0: 0, t1: t });
    else if (r.chance(0.5)) p.items.push({ k: 'rule', kind: r.pick(['loss', 'loss', 'delay']), method: r.pick(['onBlockConfirmation', 'onSignedBlock', 'onInitHandshakeRequest', 'onInitHandshakeResponse']), from: r.pick([undefined, 'n' + a]), ms: r.range(100, 2000), p: r.pick([0.5, 1]), t0: Math.max(0, t - r.range(0, 3000)), t1: t + r.range(0, 2000) });
    p.expect = { converge: 'P25', removed: [{ node: a, t, ms: 27000, prop: 'P25', why: 'dispose', unlessIdle: true }], progress: { prop: 'P25', ms: 30000 } };
    if (n > 2 && r.chance(0.55)) { // a second one leaves, or has crashed
        const b = (a + 1 + r.int(n - 1)) % n, tb = Math.max(2500, t + r.pick([0, 500, 14000, r.range(0, 25000)]));
        const how = r.pick(['leave', 'leave', 'crash', 'dispute', 'dispute']);
        if (how === 'leave') gone(0, b, tb); else if (how === 'crash') p.items.push({ k: 'crash', node: b, t: tb });
        else { // in the middle of the dispute about the first one
            if (r.chance(0.5)) p.events = { min: 300, max: 900, dup: 0 };
            p.items.push({ k: 'dispose', node: b, t, own: r.chance(0.6), dispute: r.pick([r.range(0, 300), r.range(0, 1000), r.range(0, 6000)]) });
        }
        p.expect.removed.push({ node: b, t: tb, ms: 52000, prop: 'P25', why: 'dispose', unlessIdle: true });
        p.expect.removed[0].ms = 52000; p.expect.progress.ms = 55000; p.opsUntil = 90000;
    }
    return horizonAfter(p, 12000);
};
// one participant cheats
P.byz = (seed, force) => {
    const r = new Rng(seed, 'plan.byz'), act = force || r.pick([...FRAUD, 'wrongPrev', 'withhold', 'brink']);
    const n = act === 'rollback' ? r.pick([3, 4, 5]) : act === 'falseTimeout' ? r.pick([2, 3, 3, 4]) : r.pick([2, 3, 3, 4]), p = base(seed, r, n);
    p.think = r.pick([[0, 800], [300, 1500]]); p.chain.blockMs = r.pick([500, 1000, 1000, 2000]);
    const a = r.int(n), t = r.range(3000, 12000);
    p.nodes[a].byz = true;
    const it = { k: 'byz', node: a, act, t, minHeight: act === 'rollback' || act === 'falseTimeout' ? 0 : r.pick([0, 0, 2, 5]) };
    if (act === 'falseTimeout' && n > 2 && r.chance(0.6)) it.cutVictim = true;
    if (r.chance(0.5)) { it.t = 2300; it.minHeight = r.pick([0, 1, 1, 2]); it.maxHeight = it.minHeight; it.steer = true; }
    if (act === 'rollback') { it.mate = (a + 1 + r.int(n - 1)) % n; p.nodes[it.mate].byz = true; if (r.chance(0.25)) it.keep = 0; else if (r.chance(0.4)) it.hideOne = true; }
    if (act === 'double' || act === 'doubleTs') it.style = r.pick([undefined, 'split', 'both', 'late']);
    p.items.push(it);
    const blame = ['wrongPrev', 'wrongPlace', 'oddBytes', 'withhold', 'brink'].includes(act) ? { unlessIdle: true, ms: 27000 } : { ms: 15000, slashed: true };
    p.opsUntil = 45000;
    p.expect = { converge: 'P10', removed: act === 'rollback' ? [{ node: it.mate, armed: true, prop: 'P10', why: 'accomplice', ms: 10000, slashed: true }, { node: a, armed: true, prop: 'P10', why: 'rollback', ms: 10000, slashed: true }] : [{ node: a, armed: true, prop: 'P10', why: act, ...blame }], progress: { prop: 'P10', ms: 30000 } };
    if (act === 'forge') p.expect.removed = [];
    if (act === 'falseTimeout') p.expect.removed = [{ node: a, armed: true, prop: 'P10', why: act, unlessIdle: true, ms: 27000 }];
    if (r.chance(0.4)) p.items.push({ k: 'rule', kind: r.pick(['delay', 'dup', 'reorder']), p: 0.5, ms: r.range(100, 900), t0: r.range(3000, 12000), t1: 40000 });
    if (r.chance(0.25) && !it.cutVictim && act !== 'rollback' && act !== 'falseTimeout') p.items.push({ k: 'rpcerr', node: r.int(n), what: 'sendTx', p: 0.2, t0: 3000, t1: 40000 });
    slow(r, p, 40000);
    wires(r, p, n);
    return horizonAfter(p, 12000);
};
// the same, with every key and machine slow, so that disputes arise in the middle of other steps
P.race = (seed, force) => {
    const r = new Rng(seed, 'plan.race'), p = P.byz(seed, force || r.pick(['doublePost', 'doublePost', 'brink', 'brink', 'double', 'badPost', 'falseTimeout', 'doubleLate', 'outOfTurn']));
    const ss = r.pick([0, 300, 700]), sv = r.pick([0, 30, 120]);
    p.items = p.items.filter((i) => i.k === 'byz');
    p.net = { min: 1, max: r.pick([10, 100, 300]), dup: r.pick([0, 0.2]), reorder: r.pick([0, 0.3]) };
    p.think = r.pick([[0, 100], [0, 800]]);
    if (ss) { p.items.push({ k: 'slowsign', ms: ss, t0: 3000, t1: 40000 }); if (r.chance(0.8)) p.items.push({ k: 'align', ms: 2500, t0: 3000, t1: 40000 }); }
    if (sv) p.items.push({ k: 'slowvm', ms: sv, t0: 3000, t1: 40000 });
    return p;
};
// connections come and go; somebody on the path or at the other end interferes with the identification of peers
P.auth = (seed) => {
    const r = new Rng(seed, 'plan.auth'), n = r.pick([2, 3, 3, 4]), p = base(seed, r, n);
    p.opsUntil = 9000; p.think = [300, 1500];
    p.startAt = p.nodes.map(() => r.pick([0, 0, 0, r.range(0, 1500), r.range(0, 6000)]));
    for (const nc of p.nodes) nc.skew = r.pick([0, 0, r.range(-900, 900), 1000 * r.range(-4000, 4000)]);
    const pair = () => { const from = r.int(n); return { from, to: (from + 1 + r.int(n - 1)) % n }; };
    for (let i = r.int(3); i > 0; i--) { const a = r.int(n); p.items.push({ k: 'sever', a, b: (a + 1 + r.int(n - 1)) % n, t: r.range(700, 9000), ms: r.pick([50, 400, 1500]) }); }
    for (let i = r.int(4); i > 0; i--) {
        const act = r.pick(['holdRequest', 'holdResponse', 'holdResponse', 'again', 'shift', 'shift']), t0 = r.pick([0, 0, r.range(0, 8000)]);
        p.items.push({ k: 'auth', id: i, act, ...pair(), t0, t1: t0 + r.pick([2000, 12000]), ms: r.pick([300, 3000, 4200, 5200, 6200, 6900, 8000]), dt: r.pick([1, -1, 3, -3, 4, -4, 5, -5, 6, -6, 7, -7, 8, -8, 1000]) });
    }
    for (let i = r.int(6); i > 0; i--) p.items.push({ k: 'auth', id: 10 + i, act: r.pick(['ask', 'tell', 'tell']), ...pair(), t: r.pick([r.range(300, 2500), r.range(300, 10000)]), times: r.pick([1, 2, 4]) });
    if (r.chance(0.5)) p.items.push({ k: 'slowsign', node: r.pick([undefined, r.int(n)]), ms: r.pick([100, 600]), t0: 0, t1: 14000 });
    if (r.chance(0.15)) p.items.push({ k: 'jump', node: r.int(n), t: r.range(200, 8000), ms: r.pick([-9000, -6000, -3000, 3000, 6000, 9000]) });
    if (r.chance(0.3)) { const x = r.int(n), t = r.range(100, 8000); p.items.push({ k: 'crash', node: x, t }, { k: 'restart', node: x, t: t + r.pick([10, 50, 300, 2000]) }); }
    return horizonAfter(p, 7000);
};
// machines whose clocks are wrong, by seconds or by years, on young and old ledgers
P.clock = (seed) => {
    const r = new Rng(seed, 'plan.clock'), p = P[r.pick(['calm', 'calm', 'lossy', 'crash'])](seed);
    p.chain.base = r.pick([0, 3, 60, 95, 99, 100, 101, 1000, 30000000]);
    p.chain.tsOffset = r.pick([0, 0, -40, 40, 3600, -3600, 86400 * 365 * r.pick([-3, 3])]);
    const young = p.chain.base < 101; // the average block time is taken from 100 blocks
    const far = () => r.pick([-1, 1]) * 1000 * r.pick([r.range(6, 15), r.range(6, 15), r.range(16, 900), r.range(3600, 40000), 86400 * 365 * 10]);
    for (const nc of p.nodes) nc.skew = 1000 * p.chain.tsOffset + r.pick([0, far(), far(), far()]);
    if (young && r.chance(0.5)) p.openAt = 2600;
    return p;
};
// at many moments of all kinds of runs it is tried whether the ledger would enforce what each participant holds
P.enforce = (seed) => {
    const r = new Rng(seed, 'plan.enforce'), p = P[r.pick(['calm', 'lossy', 'lossy', 'crash', 'local', 'hostile', 'byz'])](seed);
    for (let i = r.range(15, 40); i > 0; i--) p.items.push({ k: 'enforce', node: r.int(p.n), t: r.range(3500, p.horizon - 500), x: r.int(7) });
    return p;
};
// two participants cheat, one after the other or at the same time
P.twice = (seed, force) => {
    const r = new Rng(seed, 'plan.twice'), n = r.pick([4, 4, 5]), p = base(seed, r, n), together = r.chance(0.35);
    p.think = r.pick([[0, 800], [300, 1500]]); p.chain.blockMs = r.pick([500, 1000, 1000]);
    const a = r.int(n), b = (a + 1 + r.int(n - 1)) % n, acts = ['badState', 'badPeople', 'badTx', 'oldTs', 'futureTs', 'double', 'doubleTs', 'outOfTurn', 'intrude', 'doubleLate', 'soonTs', 'lateTs', 'doublePost', 'badPost', 'falseTimeout'];
    p.nodes[a].byz = p.nodes[b].byz = true; p.opsUntil = 60000;
    const ex = (node, act) => (act === 'falseTimeout' || act === 'wrongPlace' || act === 'oddBytes' ? { node, armed: true, prop: 'P10', why: act, unlessIdle: true, ms: 27000 } : { node, armed: true, prop: 'P10', why: act, ms: 36000, slashed: true });
    const x = r.pick(['badState', 'double', 'futureTs', 'outOfTurn', 'doubleLate', 'silent']), y = force || r.pick(acts), t = r.range(2300, 8000);
    p.items.push({ k: 'byz', node: a, act: x, t, minHeight: r.pick([0, 0, 1, 2]) });
    const late = r.pick([0, 1, 2, 4]);
    if (together && r.chance(0.7)) { // hot on its heels, with the same kind of offence
        const z = r.pick([['outOfTurn', 'intrude'], ['doubleLate', 'doubleLate'], ['intrude', 'intrude'], ['badState', 'intrude'], ['double', 'doubleLate'], ['futureTs', 'intrude']]);
        const apart = z[0] !== 'double' && r.chance(0.6); // each offence is seen by other participants only, before they hear of the other one
        if (apart) { p.rpc = { min: 2, max: 10 }; p.events = { min: 300, max: 900, dup: 0 }; }
        Object.assign(p.items[0], { act: z[0], style: 'both', t: r.range(4000, 8000), aud: apart ? 0 : undefined });
        p.items.push({ k: 'byz', node: b, act: z[1], t: 4000, follow: a, lag: r.pick(apart ? [0, 0, 40] : [0, 0, 100, 400, 900]), minHeight: 0, aud: apart ? 1 : undefined });
        const both = [ex(a, z[0]), ex(b, z[1])];
        if (!apart) both[0].slashed = both[1].slashed = false; // what happens on a fork that is disputed already need not be looked at
        p.expect = { converge: 'P10', removed: both, progress: { prop: 'P10', ms: 50000 } };
        if (!apart) slow(r, p, 50000);
        return horizonAfter(p, 12000);
    }
    p.items.push(together ? { k: 'byz', node: b, act: y, t: t + r.range(0, 4000), minHeight: 0 } : { k: 'byz', node: b, act: y, t: t + 300, minFork: 1, minHeight: late, maxHeight: late, steer: true });
    p.expect = { converge: 'P10', removed: [x === 'silent' ? { node: a, armed: true, prop: 'P10', why: x, unlessIdle: true, ms: 27000 } : ex(a, x), ex(b, y)], progress: { prop: 'P10', ms: 50000 } };
    if (together) p.expect.removed[1].slashed = p.expect.removed[0].slashed = false;
    slow(r, p, 50000);
    return horizonAfter(p, 12000);
};
// peers put anything on the wire
P.hostile = (seed) => {
    const r = new Rng(seed, 'plan.hostile'), n = r.pick([2, 3, 3, 4]), p = base(seed, r, n);
    p.opsUntil = 16000;
    const a = r.int(n), byz = r.chance(0.5);
    for (let i = r.range(4, 12); i > 0; i--) { const to = (a + 1 + r.int(n - 1)) % n; p.items.push({ k: 'inject', from: a, to, t: r.range(1200, 15000), what: r.pick(INJECTS), style: r.pick([undefined, 'raw']) }); }
    if (r.chance(0.3)) p.items.push({ k: 'throw', a: r.int(n), b: (a + 1) % n, t: r.range(3000, 12000), ms: 400 });
    if (r.chance(0.2)) { const x = r.int(n); p.items.push({ k: 'sever', a: x, b: (x + 1) % n, t: r.range(3000, 12000), ms: r.pick([50, 400]) }); }
    p.expect = { converge: 'P05', noDispute: 'P05', progress: { prop: 'P05', ms: 14000 } };
    return horizonAfter(p, 12000);
};
P.two = (seed) => {
    const r = new Rng(seed, 'plan.two'), n = r.pick([2, 3]), p = base(seed, r, n);
    p.channels = 2; p.opsUntil = 14000;
    for (let i = r.range(3, 8); i > 0; i--) { const a = r.int(n); p.items.push({ k: 'inject', ch: r.int(2), from: a, to: (a + 1 + r.int(n - 1)) % n, t: r.range(3500, 13000), what: 'foreign' }); }
    if (r.chance(0.4)) { // both channels of a person in one process
        p.oneProcess = true;
        for (const nc of p.nodes) nc.skew = r.pick([0, r.range(-900, 900), 1000 * r.range(-4000, 4000)]);
        if (r.chance(0.5)) p.openAt = 2000 + r.pick([0, 3000]);
    }
    const quiet = { converge: 'P18', allSigned: true, noLedger: 'P18', noDispute: 'P18', progress: { prop: 'P18', ms: 6500 } };
    p.expects = [quiet, quiet];
    const what = r.pick(['quiet', 'quiet', 'quiet', 'crash', 'crash', 'cheat']);
    if (what === 'crash') { // in one channel: it leaves the other one undisturbed, unless it is the same process
        const c = r.int(2), x = r.int(n), t = r.range(3500, 8000), hit = { converge: 'P18', removed: [{ node: x, t, ms: 27000, prop: 'P18', why: 'crash', unlessIdle: true }], progress: { prop: 'P18', ms: 30000 } };
        p.items.push({ k: 'crash', ch: c, node: x, t }); p.opsUntil = 40000;
        p.expects = [0, 1].map((i) => (p.oneProcess || i === c ? hit : { ...quiet, noLedger: undefined }));
    } else if (what === 'cheat') { // somebody cheats in both channels, or in one
        const a = r.int(n), both = r.chance(0.7);
        p.nodes[a].byz = true; p.opsUntil = 40000;
        if (!both) for (const nc of p.nodes) nc.skew = 0;
        for (const c of both ? [0, 1] : [r.int(2)]) {
            const act = r.pick(['badState', 'badTx', 'futureTs', 'double', 'doubleTs', 'outOfTurn', 'intrude', 'doubleLate', 'soonTs', 'doublePost']);
            p.items.push({ k: 'byz', ch: c, node: a, act, t: r.range(3000, 8000), minHeight: r.pick([0, 0, 1, 2]) });
            p.expects[c] = { converge: 'P18', removed: [{ node: a, armed: true, prop: 'P18', why: act, ms: 15000, slashed: true }], progress: { prop: 'P18', ms: 30000 } };
        }
        if (!both) { p.oneProcess = false; p.expects = p.expects.map((e) => (e === quiet ? { ...quiet, noLedger: undefined } : e)); }
    } else if (r.chance(0.4)) p.net.reorder = 0.6;
    return horizonAfter(p, 12000);
};
P.ledger = (seed, app) => { const a = app || 'math', r = new Rng(seed, 'plan.ledger.' + a); return require('./ledger').gen(seed, r, a); };
function gen(profile, seed) { const [name, arg] = profile.split(':'); if (!P[name]) throw new Error('no profile ' + profile); const p = P[name](seed, arg); p.profile = profile;
    const q = new Rng(seed, 'plan.app'), q2 = new Rng(seed, 'plan.skew');
    if (['lossy', 'crash', 'restart', 'dispose', 'byz', 'race', 'twice', 'hostile', 'local', 'calm', 'two', 'enforce'].includes(name) && q2.chance(0.4)) for (const nc of p.nodes) if (!nc.skew) nc.skew = q2.range(-900, 900);
    if (name !== 'ledger' && q.chance(0.35)) { // an application with more kinds of calls
        p.app = 'rich';
        for (const i of p.items) if (i.k === 'call' && q.chance(0.5)) { i.method = q.pick(['addMany', 'quiet', 'note', 'refuse', 'refuse']); i.args = [i.method === 'addMany' ? [i.args[0], q.int(5)] : i.method === 'note' ? 'c' + q.int(9) : i.method === 'refuse' ? q.int(6) : i.args[0]]; }
    }
    return p;
}
module.exports = { gen, FRAUD, INJECTS, ONTURN };
