'use strict';
// One simulated run: a plan (JSON) fully determines it. The plan holds the deployment (participants, network and
// ledger parameters, user think time) and a list of droppable items (faults, adversary acts, extra calls).
const { Sim } = require('./core');
const { SimChain, ethers } = require('./chain');
const { Net } = require('./net');
const { Node, walletFor } = require('./node');
const M = require('./model');
const { Auth } = require('./auth');

const P2P = 5, WAIT = 15, CHALLENGE = 5; // seconds; the example application's time configuration
// ms after dispose(): messages; steps already begun; postings to the ledger already due; new connections
const QUIET = { send: 50, step: 8000, ledger: 16000, link: 1500 };
const now_s = (sim) => sim.epochS();
const short = (x) => (typeof x === 'string' ? x.slice(0, 10) : String(x));
const structId = new WeakMap();
function idOf(struct) { // BlockStruct of the SDK -> canonical encoding + id
    let v = structId.get(struct);
    if (!v) { const enc = M.encodeBlock(struct); v = M.decodeBlock(enc); structId.set(struct, v); }
    return v;
}
const freshObs = () => ({ fork: -1, forks: [], accepted: [], lastProgress: null, maxGap: 0 });
const housemates = (w, n) => (w.plan.oneProcess ? w.channels.map((c) => c.nodes[n.index]) : [n]);
const honestName = (n) => n.honest;

class World {
    constructor(plan, opts) {
        this.plan = plan; this.opts = opts;
        this.violations = [];
        this.vkeys = new Set();
        this.channels = [];
        this.orphans = []; // votes on a block whose parent state has not been seen yet
        this.released = new Map(); // ch|fork|height|address -> Map(blockId -> how)
        this.blocks = new Map(); // id -> decoded block
        this.sigs = new Map(); // id -> Map(address -> signature)
        this.states = new Map(); // state hash -> state
        this.challengeBlocks = []; // blocks whose hash an adversary used as a handshake challenge
        this.marks = new Set();
    }
    ledgerS() { return this.sim.epochS() + (this.chain.cfg.tsOffset || 0); }
    mark(x) { this.marks.add(x); }
    violate(prop, rule, detail) {
        const k = prop + rule;
        if (this.vkeys.has(k)) return;
        this.vkeys.add(k);
        this.violations.push({ prop, rule, detail: String(detail).slice(0, 600), t: this.sim.now });
        this.sim.log('VIOLATION', prop + ' ' + rule + ' ' + String(detail).slice(0, 200));
        if (this.opts.stopOnFirst) this.sim.stopped = true;
    }
    active(it) { const t = this.sim.now; return t >= it.t0 && t < it.t1; }
    // ------------------------------------------------------------------ setup
    async init() {
        const plan = this.plan;
        this.sim = new Sim(plan.seed, { trace: this.opts.trace, maxEvents: plan.maxEvents || 60000 });
        const sim = this.sim;
        this.chain = await SimChain.create(sim, plan.chain || {}, this.opts.contracts);
        this.net = new Net(sim, plan.net || {});
        M.use(plan.app);
        this.app = this.chain.apps[plan.app || 'math'];
        this.scm = this.app.scm;
        this.iface = new ethers.Interface(this.app.scmAbi);
        this.items = plan.items || [];
        this.net.rules = this.items.filter((i) => i.k === 'rule');
        this.net.partitions = this.items.filter((i) => i.k === 'part');
        this.auth = new Auth(this);
        this.net.onSend = (rec) => { this.auth.onSend(rec); this.onSend(rec); const n = this.byName.get(rec.from); if (n && n.disposed && sim.now > n.disposedAt + QUIET.send) this.violate('P25', 'sends', n.name + ' sends ' + rec.method + ' ' + (sim.now - n.disposedAt) + ' ms after it was disposed'); };
        this.net.onDeliver = (...a) => this.auth.onDeliver(...a);
        this.net.onUp = (l, n) => this.auth.onUp(l, n);
        this.chain.onTx = (tx) => this.onTx(tx);
        this.nodes = [];
        for (let c = 0; c < (plan.channels || 1); c++) {
            const ch = { i: c, id: ethers.id('chan' + c), nodes: [], forks: [], disputes: [], posted: new Map(), openedAt: null };
            this.channels.push(ch);
            for (let i = 0; i < plan.n; i++) {
                const nc = (plan.nodes && plan.nodes[i]) || {};
                const name = (c ? 'd' : 'n') + i;
                const node = new Node(sim, this.chain, this.net, name, { key: 'p' + i, app: plan.app, honest: !nc.byz, skew: nc.skew || 0, rpc: nc.rpc || plan.rpc, events: nc.events || plan.events, timerJitter: nc.jitter });
                this.wire(node, i, ch);
                ch.nodes.push(node); this.nodes.push(node);
            }
        }
        this.byName = new Map(this.nodes.map((n) => [n.name, n]));
        this.byAddr = (ch, a) => ch.nodes.find((n) => n.address === a);
        for (const ch of this.channels) {
            for (const n of ch.nodes) sim.at(1 + (this.plan.startAt ? this.plan.startAt[n.index] || 0 : 0), 'start ' + n.name, () => this.bringUp(n, ch), n);
            sim.at((plan.openAt || 2000) + ch.i * 150, 'open', () => {
                const encs = [], sgs = [];
                for (const n of ch.nodes) { const e = M.coder.encode([M.JOIN], [[ch.id, n.address, 500, this.ledgerS() + 1000, '0x']]); encs.push(e); sgs.push(n.wallet.signMessageSync(ethers.getBytes(ethers.keccak256(e)))); }
                this.chain.submit(ch.nodes[0].address, this.scm, this.iface.encodeFunctionData('openChannel', [ch.id, encs, sgs]), 5000000, 10, 'openChannel');
            });
        }
        this.schedule();
        sim.afterEvent = (e) => this.after(e);
    }
    bringUp(n, ch) { return n.start(this.opts.sdk, { channelId: ch.id, userEvents: this.plan.app === 'rich' ? ['Addition', 'NextToPlay', 'Noted'] : ['Addition', 'NextToPlay'], host: this.plan.oneProcess && ch.i ? this.channels[0].nodes[n.index] : undefined }); }
    // the same person comes back with nothing but the key. Before the channel opened that is as good as new;
    // afterwards it has forgotten everything: it cannot take part, but it must not do any harm either
    async restart(n) {
        if (!n.crashed) return;
        this.sim.count('fault.restart');
        n.obs = freshObs(); n.userEvents = []; n.ops = []; n.pendingOp = false; n.amnesic = true;
        try { await this.bringUp(n, n.ch); } catch (e) { // the ledger is out of reach: it gives up and is started again
            n.crash(); n.crashedAt = n.crashedAt === undefined ? this.sim.now : n.crashedAt;
            this.sim.after(1000, 'fault.restart ' + n.name, () => this.restart(n), null);
            return;
        }
        this.sim.probe('restarted');
        if (!n.ch.openedAt) { n.amnesic = false; n.crashedAt = undefined; }
    }
    // the program is done with the channel
    dispose(n, it) { // it.dispute: that long after the first dispute
        if (n.crashed) return;
        if (it.dispute !== undefined && !(it.own ? n.hooks.some((x) => x.h === 'onInitiatingDispute') : n.ch.disputes.length)) { this.sim.after(100, 'dispose? ' + n.name, () => this.dispose(n, it), null); return; }
        if (!n.ready || it.dispute) { this.sim.after(it.dispute || 150, 'dispose ' + n.name, () => this.dispose(n, {}), null); return; }
        n.exec('dispose', 0, async () => {
            if (!n.disposed) { n.disposed = true; n.disposedAt = this.sim.now; this.sim.count('op.dispose'); if (n.crashedAt === undefined) n.crashedAt = this.sim.now; }
            try { await n.p2p.dispose(); } catch (e) { this.violate('P25', 'failed', n.name + ' cannot be disposed: ' + e.message); }
            for (const ms of [3500, 9000, 20000]) this.sim.after(ms, 'disposed? ' + n.name, () => this.checkDisposed(n), null);
        });
    }
    checkDisposed(n) {
        this.sim.probe('disposed');
        for (const l of this.net.linksOf(n.name)) {
            const side = l.a === n.swarm ? 'a' : 'b', s = l['s' + side];
            if (l['up_' + side] && this.sim.now > l['upAt_' + side] + QUIET.link && !s.closed) this.violate('P25', 'connected', n.name + ' is disposed for ' + (this.sim.now - n.disposedAt) + ' ms and keeps a connection');
        }
        if (n.swarm.topics.size) this.violate('P25', 'announced', n.name + ' is disposed and can still be found as a peer of the channel');
    }
    wire(node, i, ch) {
        const sim = this.sim, w = this, nm = node.name;
        node.index = i; node.ch = ch;
        node.obs = freshObs();
        const its = (k) => this.items.filter((it) => it.k === k && (it.node === undefined || it.node === i) && (it.ch === undefined || it.ch === ch.i));
        const ss = its('slowsign'), se = its('signerr'), sv = its('slowvm'), re = its('rpcerr'), ed = its('evdelay'), td = its('txdelay');
        if (ss.length) node.signDelay = () => Math.max(0, ...ss.map((it) => (w.active(it) ? sim.rng(nm + '.ss').range(0, it.ms) : 0)));
        if (se.length) node.signFault = () => se.some((it) => w.active(it) && sim.rng(nm + '.se').chance(it.p));
        node.vmDelay = () => (w.observing || !sv.length ? 0 : Math.max(0, ...sv.map((it) => (w.active(it) ? sim.rng(nm + '.sv').range(0, it.ms) : 0))));
        node.rpcFault = (what, r) => (what === 'sendTx' && sim.now < (node.txDownUntil || 0)) || re.some((it) => w.active(it) && (!it.what || it.what === what) && r.chance(it.p));
        if (ed.length) node.eventDelay = () => { const d = Math.max(0, ...ed.map((it) => (w.active(it) ? it.ms : 0))); if (d) sim.count('fault.ledger.lateEvent'); return d; };
        const al = its('align');
        if (al.length) node.alignEvents = () => Math.max(0, ...al.map((it) => (w.active(it) ? it.ms : 0)));
        node.txDelay = () => { let d = sim.rng(nm + '.tx').range(0, (w.plan.txDelay === undefined ? 600 : w.plan.txDelay)); for (const it of td) if (w.active(it)) { d += it.ms; sim.count('fault.ledger.slowInclusion'); } return d; };
        const late = (g) => node.disposed && sim.now > node.disposedAt + g;
        node.onSign = () => { if (node.honest && late(QUIET.step)) w.violate('P25', 'signs', nm + ' signs ' + (sim.now - node.disposedAt) + ' ms after it was disposed'); };
        node.onUserEvent = (ev) => { if (late(QUIET.step)) w.violate('P25', 'userEvent', nm + ' delivers ' + ev + ' ' + (sim.now - node.disposedAt) + ' ms after it was disposed'); };
        node.onClock = () => w.checkClock(node);
        node.onHook = (h, a) => { if (late(h === 'onPostingCalldata' ? QUIET.ledger : QUIET.step)) w.violate('P25', 'hook', nm + ' calls ' + h + ' ' + (sim.now - node.disposedAt) + ' ms after it was disposed'); if (h === 'onConnection') w.auth.onConnection(node, a[0]); if (h === 'onTurn' && a[0] === node.address) w.onTurn(node); };
        node.onFault = (rec) => { if (node.honest) w.violate('P05', 'unhandled', nm + ': ' + rec.msg + ' in ' + rec.label); };
    }
    // would the ledger take what this participant holds, right now, if it had to turn to it?
    async enforce(n, it) {
        const ch = n.ch, sim = this.sim;
        if (!n.honest || !n.ready || n.crashed || n.amnesic || n.disposed || !n.am || !n.am.hasFork() || (n.sm.mutex && n.sm.mutex.isLocked)) return;
        const F = n.obs.forks[n.obs.fork], d = ch.disputes[ch.disputes.length - 1];
        if (!F || n.am.getLatestForkCnt() !== n.obs.fork || n.am.getNextBlockHeight() !== F.blocks.length || ch.forks.length !== n.obs.fork + 1) return;
        if (d && d.deadline >= this.ledgerS() - 3) return; // one dispute at a time
        const tip = this.tipState(n), others = ch.nodes.filter((y) => y !== n && tip.participants.includes(y.address));
        if (!others.length || !F.state0.participants.includes(n.address)) return;
        const y = others[it.x % others.length];
        if (!F.state0.participants.includes(y.address)) return;
        const v = n.am.getFinalizedAndLatestWithVotes(n.obs.fork, n.address);
        const proof = require('./byz').lib.futureProof(this, ch, y.wallet, n.obs.fork, F.blocks.length, tip);
        const data = this.iface.encodeFunctionData('createDispute', [ch.id, n.obs.fork, v.encodedLatestFinalizedState, v.encodedLatestCorrectState, v.virtualVotingBlocks, ethers.ZeroAddress, 0, [proof]]);
        const [r] = await this.chain.whatIf([{ from: n.address, to: this.scm, data }]);
        sim.probe('enforced'); if (v.virtualVotingBlocks.length) sim.probe('enforcedVotes');
        const at = n.name + ' at ' + n.obs.fork + '/' + F.blocks.length;
        if (!r.ok) { this.violate('P22', 'refused', at + ': the ledger refuses what it holds: ' + r.error); return; }
        if (M.keccak(v.encodedLatestCorrectState) !== M.stateHash(tip)) { this.violate('P22', 'notLatest', at + ' would not enforce its latest state'); return; }
        let got = null;
        for (const l of r.logs) { let e = null; try { e = this.iface.parseLog(l); } catch (x) { e = null; } if (e && e.name === 'DisputeUpdated') got = e.args.dispute; }
        if (!got || ![...got.slashedParticipants].includes(y.address) || M.keccak(got.encodedLatestCorrectState) !== M.stateHash(M.remove(tip, y.address))) this.violate('P22', 'outcome', at + ': the outcome would not be its latest state and the removal');
    }
    // once set up, a participant's time is the ledger's, whatever its machine says
    checkClock(n) {
        if (!n.honest || n.skewJump) return;
        const avg = this.chain.baseNumber + this.chain.blockIndex() >= 100 ? this.chain.cfg.blockMs / 1000 : 0, d = n.sdk.Clock.getTimeInSeconds() - this.chain.latest().timestamp;
        this.sim.probe('clockChecked');
        if (Math.abs(n.skewMs() - 1000 * (this.chain.cfg.tsOffset || 0)) > 2500) this.sim.probe('clockCorrected');
        if (!(Math.abs(d) <= 2 * avg + this.chain.cfg.blockMs / 1000 + 1 + 4 * this.plan.rpc.max / 1000)) this.violate('P19', 'wrongTime', n.name + ' works with a time ' + d + ' s from the ledger\'s (its machine is off by ' + n.skewMs() + ' ms)');
    }
    schedule() {
        const sim = this.sim;
        for (const it of this.items) {
            const n = it.node === undefined ? null : this.channels[it.ch || 0].nodes[it.node];
            if (it.k === 'crash') sim.at(it.t, 'fault.crash ' + n.name, () => { for (const x of housemates(this, n)) { x.crash(); if (x.crashedAt === undefined) x.crashedAt = sim.now; } });
            else if (it.k === 'restart') sim.at(it.t, 'fault.restart ' + n.name, () => this.restart(n), null);
            else if (it.k === 'dispose') sim.at(it.t, 'dispose ' + n.name, () => this.dispose(n, it), null);
            else if (it.k === 'reconnect') sim.at(it.t, 'reconnect', () => {
                const ns = this.channels[it.ch || 0].nodes, a = this.net.peers.get(ns[it.a].name), b = this.net.peers.get(ns[it.b].name);
                if (a && b && a.listeners.length && b.listeners.length && !this.net.linkBetween(ns[it.a].name, ns[it.b].name)) this.net.connect(a, b);
            });
            else if (it.k === 'stall') sim.at(it.t, 'fault.stall ' + n.name, () => { n.stalledUntil = sim.now + it.ms; sim.count('fault.stall'); if (it.ms > 800) n.untimely = true; });
            else if (it.k === 'jump') sim.at(it.t, 'fault.clockjump ' + n.name, () => { n.skewJump = (n.skewJump || 0) + it.ms; sim.count('fault.clock.jump'); });
            else if (it.k === 'sever') sim.at(it.t, 'fault.sever', () => {
                const ns = this.channels[it.ch || 0].nodes, l = this.net.linkBetween(ns[it.a].name, ns[it.b].name);
                if (!l) return;
                this.net.sever(l);
                sim.after(it.ms, 'net.rediscover', () => { const a = this.net.peers.get(ns[it.a].name), b = this.net.peers.get(ns[it.b].name); if (a && b && !this.net.linkBetween(ns[it.a].name, ns[it.b].name)) this.net.connect(a, b); });
            });
            else if (it.k === 'throw') sim.at(it.t, 'fault.throw', () => {
                const ns = this.channels[it.ch || 0].nodes, l = this.net.linkBetween(ns[it.a].name, ns[it.b].name);
                if (!l) return;
                const s = l.a.node === ns[it.a] ? l.sa : l.sb;
                s.throwOnWrite = true;
                sim.after(it.ms, 'fault.throw.end', () => { s.throwOnWrite = false; });
            });
            else if (it.k === 'call') sim.at(it.t, 'call ' + n.name, () => { for (let j = 0; j < (it.times || 1); j++) this.invoke(n, it.method || 'add', it.args, it); }, n);
            else if (it.k === 'byz') require('./byz').schedule(this, it);
            else if (it.k === 'enforce') sim.at(it.t, 'enforce? ' + n.name, () => this.enforce(n, it), null);
            else if (it.k === 'auth') this.auth.schedule(it);
            else if (it.k === 'inject') require('./byz').scheduleInject(this, it);
        }
        // users retry their move while it is their turn
        for (const n of this.nodes) { const tick = () => { if (sim.now < this.plan.opsUntil) { this.onTurn(n); sim.after(1100, 'poll ' + n.name, tick, null); } }; sim.at(3000 + n.index * 97, 'poll ' + n.name, tick, null); }
    }
    // ------------------------------------------------------------------ users
    onTurn(n) {
        const sim = this.sim, plan = this.plan;
        if (!n.ready || n.crashed || n.disposed || n.muted || n.pendingOp || plan.noUsers) return;
        if (sim.now < (plan.opsFrom || 3000) || sim.now >= plan.opsUntil) return;
        const s = this.tipState(n);
        if (s && M.next(s) !== n.address) return;
        if (!n.am || !n.am.hasFork()) return;
        const f = n.am.getLatestForkCnt(), h = n.am.getNextBlockHeight();
        const key = f + '.' + h;
        const r = sim.rng('op.' + n.ch.i + '.' + n.index + '.' + key);
        const think = r.range(plan.think ? plan.think[0] : 0, plan.think ? plan.think[1] : 1200);
        const x = this.steer(n, s, f, h, r.range(0, plan.xmax === undefined ? 7 : plan.xmax));
        n.pendingOp = true;
        sim.after(n.lastTry === key ? 300 : think, 'user ' + n.name, async () => {
            n.lastTry = key;
            if (n.disposed) { n.pendingOp = false; return; }
            if (n.byzArmed && n.byzArmed()) { n.pendingOp = false; return; }
            const ok = await this.invoke(n, ...this.move(n, key, x), { user: true });
            n.pendingOp = false;
            if (ok && !n.crashed) sim.after(1, 'turn? ' + n.name, () => this.onTurn(n), null);
        }, n.life);
    }
    // what the user does when it is its turn
    move(n, key, x) {
        if (this.plan.app !== 'rich' || this.items.some((i) => i.k === 'byz' && i.steer)) return ['add', [x]];
        const r = this.sim.rng('move.' + n.ch.i + '.' + n.index + '.' + key);
        switch (r.pick(['add', 'add', 'addMany', 'quiet', 'note', 'refuse'])) {
            case 'addMany': return ['addMany', [Array.from({ length: r.int(4) }, () => r.int(9))]];
            case 'quiet': return ['quiet', [x]];
            case 'note': return r.chance(0.6) ? ['note', ['t' + r.int(9)]] : ['add', [x]];
            case 'refuse': return n.lastRefused === key ? ['add', [x]] : ((n.lastRefused = key), ['refuse', [r.int(6)]]);
        }
        return ['add', [x]];
    }
    // the amount decides who is next: when the plan says who shall cheat at which height, it becomes that one's turn
    steer(n, s, f, h, x) {
        const it = this.items.find((i) => i.k === 'byz' && i.steer && (i.ch || 0) === n.ch.i && i.maxHeight === h + 1 && f >= (i.minFork || 0) && !n.ch.nodes[i.node].acted);
        if (!it || !s) return x;
        const a = n.ch.nodes[it.node].address;
        for (let k = 0; k < s.participants.length; k++) if (M.next({ ...s, number: s.number + BigInt(x + k) }) === a) return x + k;
        return x;
    }
    async invoke(n, method, args, meta) {
        if (!n.ready) return false;
        const op = await n.invoke(method, args);
        op.meta = meta;
        if (n.disposed && op.t > n.disposedAt + QUIET.send) { this.sim.probe('calledWhenDisposed'); if (op.ok) this.violate('P25', 'plays', n.name + ' still makes moves ' + (op.t - n.disposedAt) + ' ms after it was disposed'); }
        this.sim.count('op.' + (op.ok ? 'ok' : 'failed'));
        return op.ok;
    }
    // ------------------------------------------------------------------ what goes over the wire
    onSend(rec) {
        const from = this.byName.get(rec.from);
        let m = null;
        try { m = JSON.parse(rec.data); } catch (e) { return; }
        rec.m = m;
        if (!m || !Array.isArray(m.params)) return;
        const p = m.params;
        if (m.method === 'onSignedBlock') this.seeSigned(from, p[0], null);
        else if (m.method === 'onBlockConfirmation') this.seeSigned(from, p[0], p[1]);
        else if (m.method === 'onInitHandshakeResponse' && from.honest) {
            for (const b of this.challengeBlocks) if (M.signerOf(b.enc, p[0]) === from.address) this.release(from, b, 'handshake response');
        }
    }
    seeSigned(from, sb, conf) {
        if (!sb || typeof sb.encodedBlock !== 'string') return;
        const b = M.decodeBlock(sb.encodedBlock);
        if (!b) return;
        for (const sig of [sb.signature, conf]) {
            if (typeof sig !== 'string') continue;
            const who = M.signerOf(b.enc, sig);
            if (!who) continue;
            this.noteSig(b, who, sig, from);
        }
    }
    noteSig(b, who, sig, from) {
        if (!this.blocks.has(b.id)) { this.blocks.set(b.id, b); const pv = this.states.get(b.previousStateHash), nx = pv && M.apply(pv, b.transaction); if (nx && M.stateHash(nx) === b.stateHash) this.states.set(b.stateHash, nx); }
        let s = this.sigs.get(b.id);
        if (!s) this.sigs.set(b.id, (s = new Map()));
        if (!s.has(who)) s.set(who, sig);
        const ch = this.channels.find((c) => c.id === b.transaction.header.channelId);
        const owner = ch && this.byAddr(ch, who);
        if (owner && owner.honest) this.release(owner, b, from === owner ? 'message' : 'relayed');
    }
    release(node, b, how) {
        const h = b.transaction.header;
        const k = h.channelId + '|' + h.forkCnt + '|' + h.transactionCnt + '|' + node.address;
        let m = this.released.get(k);
        if (!m) this.released.set(k, (m = new Map()));
        if (m.has(b.id)) return;
        m.set(b.id, how);
        this.sim.probe('released');
        if (m.size > 1) this.violate('P03', 'twoBlocks', node.name + ' released signatures on ' + m.size + ' blocks at fork ' + h.forkCnt + ' height ' + h.transactionCnt + ' (' + [...m.values()].join(', ') + ')');
        // a vote is only for a legal successor of what the voter has
        const ch = node.ch;
        if (h.channelId !== ch.id) { this.violate('P18', 'foreignVote', node.name + ' signed a block of another channel'); return; }
        const led = ch.forks[h.forkCnt];
        if (!led) { this.violate('P04', 'voteUnknownFork', node.name + ' signed for fork ' + h.forkCnt + ' which the ledger does not have'); return; }
        this.judgeVote(node, b, how, true);
        for (let again = this.orphans.length > 0; again;) {
            again = false;
            for (const o of this.orphans.splice(0)) { if (this.states.has(o[1].previousStateHash)) again = true; this.judgeVote(...o, true); }
        }
    }
    judgeVote(node, b, how, wait) {
        const h = b.transaction.header, prev = this.states.get(b.previousStateHash);
        // two posts of one author may be mined in either order: the block before this one may still turn up
        if (!prev && wait) { this.orphans.push([node, b, how]); return; }
        if (!prev) { this.violate('P04', 'voteUnknownParent', node.name + ' signed a block on an unknown state, fork ' + h.forkCnt + ' height ' + h.transactionCnt); return; }
        const nx = M.apply(prev, b.transaction);
        if (!nx) this.violate('P04', 'voteIllegal', node.name + ' signed a block that the application rejects, height ' + h.transactionCnt + ' (' + how + ')');
        else if (M.stateHash(nx) !== b.stateHash) this.violate('P04', 'voteWrongState', node.name + ' signed a block with a wrong result, height ' + h.transactionCnt);
        else this.states.set(b.stateHash, nx);
    }
    // ------------------------------------------------------------------ what the ledger does
    chOf(id) { return this.channels.find((c) => c.id === id); }
    async onTx(tx) {
        const sender = this.nodes.find((n) => n.address === tx.from && n.name === tx.node);
        if (sender && sender.honest && sender.disposed && tx.submittedAt > sender.disposedAt + QUIET.ledger) this.violate('P25', 'transacts', sender.name + ' sends ' + tx.fn + ' to the ledger ' + (tx.submittedAt - sender.disposedAt) + ' ms after it was disposed');
        if (sender && sender.honest) this.sim.count('ledger.honestTx.' + tx.fn + (tx.status ? '' : '.reverted'));
        if (tx.fn === 'createDispute' || tx.fn === 'challengeDispute' || tx.fn === 'postBlockCalldata') {
            let a = null;
            try { a = this.iface.parseTransaction({ data: tx.data }).args; } catch (e) { a = null; }
            if (a) {
                if (tx.fn === 'postBlockCalldata') { const b = M.decodeBlock(a[0][0]); if (b) { const who = M.signerOf(b.enc, a[0][1]); if (who) this.noteSig(b, who, a[0][1], sender); } }
                else for (const v of tx.fn === 'createDispute' ? a[4] : a[4]) { const b = M.decodeBlock(v[0]); if (b) for (const s of v[1]) { const who = M.signerOf(b.enc, s); if (who) this.noteSig(b, who, s, sender); } }
            }
        }
        for (const l of tx.logs) {
            let e = null;
            try { e = this.iface.parseLog(l); } catch (x) { e = null; }
            if (!e) continue;
            if (e.name === 'SetState') {
                const ch = this.chOf(e.args.channelId); if (!ch) continue;
                const st = M.decodeState(e.args.encodedState);
                ch.forks[Number(e.args.forkCnt)] = { fork: Number(e.args.forkCnt), enc: e.args.encodedState, state: st, ts: Number(e.args.timestamp), t: this.sim.now, tx };
                this.states.set(M.keccak(e.args.encodedState), st);
                ch.lastForkAt = this.sim.now;
                if (Number(e.args.forkCnt) === 0) ch.openedAt = this.sim.now;
            } else if (e.name === 'DisputeUpdated') {
                const ch = this.chOf(e.args.channelId); if (!ch) continue;
                const d = e.args.dispute;
                const rec = { fork: Number(d.forkCnt), challengeCnt: Number(d.challengeCnt), votes: [...d.virtualVotingBlocks].map((v) => M.decodeBlock(v.encodedBlock)), slashed: [...d.slashedParticipants], timedout: d.timedoutParticipant, folded: Number(d.foldedTransactionCnt), deadline: Number(d.deadlineTimestamp), poster: d.postedStateDisputer, t: this.sim.now, ts: tx.timestamp, from: tx.from, latest: d.encodedLatestCorrectState, final: d.encodedLatestFinalizedState, raw: [...d.virtualVotingBlocks].map((v) => [v.encodedBlock, [...v.signatures]]) };
                ch.disputes.push(rec);
                this.sim.count('ledger.dispute' + (rec.challengeCnt ? 'Challenged' : 'Created'));
                if (rec.challengeCnt === 0) rec.known = this.fullySigned(ch, rec.fork);
            } else if (e.name === 'BlockCalldataPosted') {
                const ch = this.chOf(e.args.channelId); if (!ch) continue;
                const b = M.decodeBlock(e.args.signedBlock.encodedBlock); if (!b) continue;
                const f = b.transaction.header.forkCnt;
                if (!ch.posted.has(f)) ch.posted.set(f, []);
                ch.posted.get(f).push({ h: b.transaction.header.transactionCnt, a: b.transaction.header.participant, ts: Number(e.args.timestamp), id: b.id });
                this.sim.count('ledger.calldata');
            }
        }
    }
    // highest block of a fork that some running honest participant holds with everyone's signature
    fullySigned(ch, fork) {
        let best = null;
        for (const n of ch.nodes) {
            if (!n.honest || n.crashed || n.amnesic || n.disposed || !n.am) continue;
            const f = n.obs.forks[fork]; if (!f) continue;
            for (let h = f.blocks.length - 1; h >= 0; h--) {
                if (best && h <= best.h) break;
                let ok = false;
                try { ok = n.am.didEveryoneSignBlock(n.am.getBlock(fork, h)); } catch (e) { ok = false; }
                if (ok && this.reallySigned(f, f.blocks[h].b)) { best = { h, id: f.blocks[h].b.id, node: n.name }; break; }
            }
        }
        return best;
    }
    reallySigned(f, b) { const s = this.sigs.get(b.id); return !!s && f.state0.participants.every((p) => s.has(p)); }
    // ------------------------------------------------------------------ observation after every event
    async after(e) {
        const o = e.owner;
        if (!o) return;
        const n = this.byName.get(o.name);
        if (!n) return;
        for (const x of housemates(this, n)) if (x.ready && !x.crashed && x.am) await this.observe(x);
    }
    tipState(n) { const f = n.obs.forks[n.obs.fork]; if (!f) return null; return f.blocks.length ? f.blocks[f.blocks.length - 1].state : f.state0; }
    async observe(n) {
        const am = n.am, o = n.obs, sim = this.sim, ch = n.ch;
        if (!am.hasFork()) return;
        const lf = am.getLatestForkCnt();
        let changed = false;
        if (lf < o.fork) { this.violate('P02', 'forkWentBack', n.name + ' went from fork ' + o.fork + ' to ' + lf); return; }
        if (lf === o.fork && am.getNextBlockHeight() < o.forks[lf].blocks.length) { this.violate('P02', 'blocksDropped', n.name + ' has ' + am.getNextBlockHeight() + ' blocks, had ' + o.forks[lf].blocks.length); return; }
        for (let f = Math.max(0, o.fork); f <= lf; f++) {
            if (!o.forks[f]) {
                const enc = am.getForkGenesisStateEncoded(f);
                const led = ch.forks[f];
                if (!led || led.enc !== enc) { if (n.honest) this.violate('P02', 'forkNotOnLedger', n.name + ' runs fork ' + f + ' from a state the ledger did not set'); return; }
                o.forks[f] = { state0: led.state, enc, ts: led.ts, blocks: [], t: sim.now };
                changed = true; sim.probe('fork' + Math.min(f, 9));
                o.fork = f;
            }
            const F = o.forks[f];
            for (;;) {
                const st = am.getBlock(f, F.blocks.length);
                if (!st) break;
                const b = idOf(st);
                if (!this.blocks.has(b.id)) this.blocks.set(b.id, b);
                const prev = F.blocks.length ? F.blocks[F.blocks.length - 1].state : F.state0;
                const state = this.checkAccepted(n, f, F, prev, b, st);
                if (M.stateHash(state) === b.stateHash) this.states.set(b.stateHash, state);
                F.blocks.push({ b, state, t: sim.now, st });
                if (n.honest) { const x = M.exec(prev, b.transaction) || { events: [], call: '?' }; o.accepted.push({ f, h: F.blocks.length - 1, call: x.call, events: x.events, author: b.transaction.header.participant }); }
                changed = true; sim.probe('blockAccepted');
                this.agree(n, f, F.blocks.length - 1, b);
            }
            if (F.blocks.length) { const h = F.blocks.length - 1, st = am.getBlock(f, h); if (st !== F.blocks[h].st && idOf(st).id !== F.blocks[h].b.id) this.violate('P02', 'blockReplaced', n.name + ' replaced its block at height ' + h); }
        }
        if (changed) { if (o.lastProgress !== null && sim.now <= this.plan.opsUntil) o.maxGap = Math.max(o.maxGap, sim.now - o.lastProgress); o.lastProgress = sim.now; o.dirty = true; }
        if (o.dirty && n.honest && n.sm.mutex && n.sm.mutex.isLocked === false) {
            o.dirty = false;
            const want = M.stateHash(this.tipState(n));
            this.observing = true;
            let got = null;
            try { got = ethers.keccak256(await n.sm.getEncodedState()); } catch (e) { got = 'error ' + e.message; } finally { this.observing = false; }
            sim.probe('stateChecked');
            if (n.sm.mutex.isLocked === false && n.am.getLatestForkCnt() === o.fork && n.am.getNextBlockHeight() === o.forks[o.fork].blocks.length && got !== want) {
                this.violate('P02', 'stateDiverged', n.name + ' holds a state that is not the replay of its blocks, fork ' + o.fork + ' height ' + o.forks[o.fork].blocks.length);
            }
        }
    }
    // what the user reads from the application is the state this participant is in
    async checkView(n) {
        if (n.obs.fork < 0 || (n.sm.mutex && n.sm.mutex.isLocked)) return;
        this.observing = true;
        let got;
        try { got = await n.p2p.p2pContractInstance.getSum(); } catch (e) { got = 'error ' + e.message; } finally { this.observing = false; }
        this.sim.probe('viewChecked');
        if (got !== this.tipState(n).number) this.violate('P02', 'view', n.name + ' reads ' + got + ' from an application whose state is ' + this.tipState(n).number);
    }
    checkAccepted(n, f, F, prev, b, st) {
        const h = b.transaction.header, height = F.blocks.length, who = n.name + ' accepted block ' + f + '/' + height + ' by ' + short(h.participant) + ': ';
        const bad = (r) => { if (n.honest) this.violate('P04', r, who + r); };
        const st2 = M.apply(prev, b.transaction);
        if (h.channelId !== n.ch.id) { bad('wrongChannel'); if (n.honest) this.violate('P18', 'wrongChannel', who); }
        if (h.forkCnt !== f || h.transactionCnt !== height) bad('wrongPosition');
        if (!prev.participants.includes(h.participant)) bad('notParticipant');
        else if (M.next(prev) !== h.participant) bad('notTheirTurn');
        if (b.previousStateHash !== M.stateHash(prev)) bad('wrongPrevious');
        if (!st2) bad('rejectedByApplication');
        else if (M.stateHash(st2) !== b.stateHash) bad('wrongResult');
        let sig = null;
        try { sig = n.am.getOriginalSignature(st); } catch (e) { sig = null; }
        if (!sig || M.signerOf(b.enc, String(sig)) !== h.participant) bad('notSignedByAuthor');
        else this.noteSigLocal(b, h.participant, String(sig));
        const prevTs = Math.max(F.ts, height ? F.blocks[height - 1].b.transaction.header.timestamp : 0);
        if (h.timestamp < prevTs) bad('olderThanPrevious');
        let ref = prevTs;
        for (const p of n.ch.posted.get(f) || []) if (p.h <= height && p.ts > ref) ref = p.ts;
        if (h.timestamp > ref + P2P) {
            if (h.participant === n.address) { n.untimely = true; this.sim.count('lateAuthor'); } else bad('tooLate');
        }
        return st2 || prev;
    }
    noteSigLocal(b, who, sig) { let s = this.sigs.get(b.id); if (!s) this.sigs.set(b.id, (s = new Map())); if (!s.has(who)) s.set(who, sig); }
    // honest participants that accepted a block fully signed at a height agree on it
    agree(n, f, h, b) {
        if (!n.honest) return;
        const ch = n.ch;
        ch.fin = ch.fin || new Map();
        for (const o of ch.nodes) {
            if (o === n || !o.honest) continue;
            const F = o.obs.forks[f]; if (!F || !F.blocks[h] || F.blocks[h].b.id === b.id) continue;
            const s1 = this.reallySigned(F, F.blocks[h].b), s2 = this.reallySigned(F, b);
            if (s1 && s2) this.violate('P01', 'twoAgreed', 'two different blocks with everyone\'s signature at fork ' + f + ' height ' + h + ' (' + n.name + ', ' + o.name + ')');
        }
    }
    // ------------------------------------------------------------------ the run and its end
    async run() {
        await this.init();
        await this.sim.run(this.plan.horizon);
        for (const o of this.orphans) this.judgeVote(...o, false);
        await this.finish();
        const sim = this.sim;
        const r = { violations: this.violations, digest: sim.digest(), shape: sim.shapeDigest(), events: sim.events, simMs: sim.now, counts: sim.counts, probes: sim.probes, marks: [...this.marks].sort(), truncated: !!sim.truncated, trace: sim.trace };
        sim.close();
        return r;
    }
    live(ch) { return ch.nodes.filter((n) => n.honest && !n.crashed && !n.amnesic && !n.disposed); }
    finalDisputes(ch) { // the last word on each fork whose challenge window is over
        const out = [];
        for (let i = 0; i < ch.disputes.length; i++) {
            const d = ch.disputes[i], nx = ch.disputes[i + 1];
            if (nx && nx.fork === d.fork) continue;
            if (!nx && d.deadline >= this.ledgerS() - 1) continue;
            let j = i; while (ch.disputes[j].challengeCnt > 0 && j > 0) j--;
            out.push({ ...d, known: ch.disputes[j].known, createdAt: ch.disputes[j].t, by: ch.disputes[j].from, index: i });
        }
        return out;
    }
    async finish() {
        const sim = this.sim, plan = this.plan;
        if (sim.truncated) { this.violate('P05', 'runaway', 'the system kept producing events without end (' + sim.events + ')'); return; }
        for (const ch of this.channels) {
            const live = this.live(ch);
            for (const n of live) if (n.ready) await this.observe(n);
            for (const n of live) if (n.ready) await this.checkView(n);
            // P01: what everyone signed stays
            for (const d of this.finalDisputes(ch)) {
                sim.probe('disputeFinal');
                if (d.known) {
                    const top = d.votes.length ? d.votes[d.votes.length - 1].transaction.header.transactionCnt : -1;
                    const at = d.votes.find((v) => v && v.transaction.header.transactionCnt === d.known.h);
                    const holder = this.byName.get(d.known.node);
                    if (holder && !holder.crashed && !holder.amnesic && !holder.disposed && !holder.untimely) {
                        if (top < d.known.h) this.violate('P01', 'undone', 'fork ' + d.fork + ': block ' + d.known.h + ' had everyone\'s signature (' + d.known.node + ') but the ledger settled on block ' + top);
                        else if (at && at.id !== d.known.id) this.violate('P01', 'replaced', 'fork ' + d.fork + ': the ledger settled on a different block ' + d.known.h);
                    }
                }
                for (const a of [...d.slashed, d.timedout]) {
                    const n = this.byAddr(ch, a);
                    if (n && n.honest && !n.crashedBefore(d.t) && !n.untimely && !plan.untimelyUsers)
                        this.violate('P09', d.slashed.includes(a) ? 'slashed' : 'timedOut', n.name + ' was honest and in time but is removed from fork ' + d.fork + ' (dispute by ' + short(d.by) + ', challenges ' + d.challengeCnt + ')');
                }
            }
            this.expectations(ch, live);
        }
    }
    expectations(ch, live) {
        const sim = this.sim, plan = this.plan, ex = (plan.expects && plan.expects[ch.i]) || plan.expect || {};
        if (!ch.openedAt) { if (!ex.mayNotOpen) this.violate('P20', 'notOpened', 'the channel did not open'); return; }
        const part = live.filter((n) => n.ready && n.am && !n.untimely);
        const led = ch.forks[ch.forks.length - 1];
        const inFork = part.filter((n) => led.state.participants.includes(n.address));
        // nobody is wedged
        for (const n of part) if (n.sm.mutex && n.sm.mutex.isLocked) this.violate('P05', 'stuck', n.name + ' never finished a step it started');
        for (const n of ch.nodes) if (n.honest && n.disposed && !n.crashed && n.sm && n.sm.mutex && n.sm.mutex.isLocked) this.violate('P25', 'stuck', n.name + ' never finished a step it started (disposed)');
        for (const n of ch.nodes) if (n.honest && n.amnesic && n.ready && n.sm && n.sm.mutex && n.sm.mutex.isLocked) this.violate('P05', 'stuck', n.name + ' never finished a step it started (after its restart)');
        // application events: exactly once, in order (the run ends in a quiet period)
        for (const n of part) {
            const want = n.obs.accepted.flatMap((a) => a.events.map((e) => e.join(','))), got = n.userEvents.map((e) => [e.ev, ...e.a].join(','));
            if (want.join(' ') !== got.join(' ')) {
                let i = 0; while (i < want.length && want[i] === got[i]) i++;
                this.violate('P17', got.length < want.length ? 'missing' : got.length > want.length ? 'extra' : 'order', n.name + ' event ' + i + ': expected ' + want[i] + ' got ' + got[i] + ' (' + n.obs.accepted.length + ' blocks, ' + want.length + ' events, ' + got.length + ' delivered)');
            }
            sim.probe('eventsChecked', want.length);
        }
        // calls: every successful call is exactly one block with its argument
        for (const n of part) {
            const mine = n.obs.accepted.filter((a) => a.author === n.address).map((a) => a.call);
            const ok = n.ops.filter((o) => o.ok).map((o) => M.callText(o.method, o.raw));
            const a1 = mine.slice().sort().join(), a2 = ok.slice().sort().join();
            if (a1 !== a2) this.violate('P16', 'callsVsBlocks', n.name + ' made ' + ok.length + ' successful calls but authored ' + mine.length + ' blocks');
            for (const o of n.ops) if (o.ok === undefined) this.violate('P16', 'callNeverReturned', n.name + ' call at ' + o.t);
        }
        const quietFrom = plan.opsUntil - 3000;
        const calm = !ch.disputes.some((d) => d.t > quietFrom - 12000) && ch.lastForkAt < quietFrom;
        const cp = ex.converge || null;
        if (cp && (calm || ex.convergeAlways) && !plan.permanentPartition) {
            const key = (n) => n.obs.fork + '/' + n.obs.forks[n.obs.fork].blocks.length + '/' + short(n.obs.forks[n.obs.fork].blocks.length ? n.obs.forks[n.obs.fork].blocks.at(-1).b.id : n.obs.forks[n.obs.fork].enc.slice(-20));
            for (const n of inFork) {
                if (n.obs.fork < 0) { this.violate(cp, 'neverJoined', n.name + ' never saw the channel'); continue; }
                if (n.obs.fork !== ch.forks.length - 1) this.violate(cp, 'oldFork', n.name + ' is on fork ' + n.obs.fork + ', the ledger on ' + (ch.forks.length - 1));
            }
            const ks = new Set(inFork.filter((n) => n.obs.fork >= 0).map(key));
            if (ks.size > 1) this.violate(cp, 'diverged', inFork.map((n) => n.name + ':' + (n.obs.fork >= 0 ? key(n) : '-')).join(' '));
            sim.probe('converged');
            if (ex.allSigned) for (const n of inFork) {
                const F = n.obs.forks[n.obs.fork];
                F.blocks.forEach((x, h) => { if (!n.am.didEveryoneSignBlock(x.st)) this.violate(cp, 'notAgreed', n.name + ' lacks signatures on block ' + n.obs.fork + '/' + h + ' at the end'); });
            }
        }
        if (ex.noLedger) { const c = Object.keys(sim.counts).filter((k) => k.startsWith('ledger.honestTx.')); if (c.length) this.violate(ex.noLedger, 'ledgerUsed', c.map((k) => k + '=' + sim.counts[k]).join(' ')); }
        if (ex.noDispute && !ch.disputes.length) for (const n of ch.nodes) if (n.honest && n.hooks.some((x) => x.h === 'onInitiatingDispute')) { this.violate(ex.noDispute, 'disputeStarted', n.name + ' starts a dispute although everybody follows the rules'); break; }
        if (ex.noDispute && ch.disputes.length) { const d = ch.disputes[0]; this.violate(ex.noDispute, 'dispute', 'dispute on fork ' + d.fork + ' by ' + short(d.from) + ', timed out ' + short(d.timedout) + ', slashed ' + d.slashed.map(short)); }
        if (ex.progress) for (const n of inFork) {
            if (n.obs.lastProgress === null) continue;
            const gap = Math.max(n.obs.maxGap, plan.opsUntil - n.obs.lastProgress);
            if (gap > ex.progress.ms) this.violate(ex.progress.prop, 'noProgress', n.name + ' made no progress for ' + Math.round(gap / 1000) + ' s (bound ' + ex.progress.ms / 1000 + ' s)');
        }
        if (ex.minBlocks) for (const n of inFork) { const c = n.obs.accepted.length; if (c < ex.minBlocks.n) this.violate(ex.minBlocks.prop, 'tooFewBlocks', n.name + ' accepted only ' + c + ' blocks'); }
        if (ex.removed) for (const r of ex.removed) {
            const n = ch.nodes[r.node];
            if (r.armed && !n.acted) continue; // the adversary found no opportunity
            const since = r.armed ? n.actedAt : r.t;
            if (r.unlessIdle) { // bounded from the moment the others wait for it
                sim.probe('removalExpected');
                if (this.itsTurnReached(ch, n, since, r.ms)) this.violate(r.prop, 'notRemoved', 'the others waited more than ' + r.ms / 1000 + ' s for ' + n.name + ' (' + (r.why || '') + ')');
                continue;
            }
            const gone = ch.forks.filter((f) => f.t <= since + r.ms && !f.state.participants.includes(n.address)).length > 0;
            sim.probe('removalExpected');
            if (!gone && sim.now > since + r.ms) this.violate(r.prop, 'notRemoved', n.name + ' (' + (r.why || '') + ') is still a participant ' + r.ms / 1000 + ' s later');
            else if (r.slashed && gone && !ch.disputes.some((d) => d.slashed.includes(n.address))) this.violate(r.prop, 'notSlashed', n.name + ' (' + (r.why || '') + ') was removed, but not for what it did');
            else if (led.state.participants.includes(n.address) && gone) this.violate(r.prop, 'cameBack', n.name + ' was removed but is a participant again');
        }
    }
    // did the others ever wait for this participant long enough?
    itsTurnReached(ch, n, since, ms) {
        const live = this.live(ch).filter((x) => !x.untimely && x.obs.fork >= 0);
        for (const x of live) {
            for (const F of x.obs.forks) {
                if (!F) continue;
                for (let i = -1; i < F.blocks.length; i++) {
                    const s = i < 0 ? F.state0 : F.blocks[i].state, t = i < 0 ? F.t : F.blocks[i].t, until = i + 1 < F.blocks.length ? F.blocks[i + 1].t : (x.obs.forks[x.obs.forks.indexOf(F) + 1] || { t: this.sim.now }).t;
                    if (M.next(s) === n.address && until - Math.max(t, since) > ms) return true;
                }
            }
        }
        return false;
    }
}
Node.prototype.crashedBefore = function (t) { return this.crashedAt !== undefined && this.crashedAt <= t; };

async function runPlan(plan, opts) {
    const w = new World(plan, opts);
    try { return await w.run(); } catch (e) { if (w.sim) w.sim.close(); throw e; }
}
module.exports = { World, runPlan, walletFor, M, P2P, WAIT, CHALLENGE, idOf, short };
