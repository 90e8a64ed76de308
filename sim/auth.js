'use strict';
// Identification of peers: an independent judgement of every handshake message that leaves or reaches an honest participant.
const { ethers } = require('./chain');
const LIMIT = 5; // seconds, the agreement time
const GRACE = 1500; // ms a participant may take to react
const okHash = (c) => typeof c === 'string' && /^0x[0-9a-fA-F]{64}$/.test(c);
const digest = (c) => ethers.getBytes(ethers.solidityPackedKeccak256(['string', 'bytes32'], ['InitHandshake', c]));
const recover = (c, sig) => { try { return ethers.verifyMessage(digest(c), sig); } catch (e) { return null; } };
const parse = (data) => { try { const m = JSON.parse(data); return m && Array.isArray(m.params) ? m : null; } catch (e) { return null; } };

class Auth {
    constructor(w) { this.w = w; this.seen = new Map(); this.responses = []; }
    machine(n) { return Math.floor((this.w.sim.epochMs() + n.skewMs()) / 1000); }
    of(link, n) { const k = 'auth_' + n.name; return link[k] || (link[k] = { asked: null, owed: [], awaited: [], dropped: null }); }
    // a connection came up at a participant: it must challenge the peer
    onUp(link, n) {
        const w = this.w;
        if (!n.honest || n.crashed) return;
        w.sim.after(GRACE, 'auth.up', () => { if (link.open && !n.crashed && !n.disposed && !n.stalledUntil && !this.of(link, n).asked) w.violate('P15', 'noChallenge', n.name + ' did not challenge the peer of a new connection'); }, null);
    }
    onSend(rec) {
        const w = this.w, n = w.byName.get(rec.from), link = rec.link;
        if (!n || !n.honest || !link) return;
        const s = this.of(link, n);
        if (rec.method === 'onSignedBlock' || rec.method === 'onBlockConfirmation') {
            if (s.dropped !== null && w.sim.now > s.dropped + GRACE) w.violate('P15', 'stillTalking', n.name + ' goes on sending over a connection whose peer failed to identify itself');
            return;
        }
        const m = parse(rec.data); if (!m) return;
        if (rec.method === 'onInitHandshakeRequest') {
            const [c, t] = m.params;
            w.sim.probe('auth.challenged');
            if (!okHash(c)) { w.violate('P15', 'badChallenge', n.name + ' sent a malformed challenge'); return; }
            if (this.seen.has(c)) w.violate('P15', 'staleChallenge', n.name + ' used a challenge twice');
            this.seen.set(c, n.name);
            s.asked = { c, t, machine: this.machine(n) };
        } else if (rec.method === 'onInitHandshakeResponse') {
            this.responses.push(rec);
            const sig = m.params[0], i = s.owed.findIndex((o) => recover(o.c, sig) === n.address);
            if (i < 0) { w.violate('P15', 'answeredWrong', n.name + ' sent an answer that no timely challenge of that connection asked for'); return; }
            w.sim.probe('auth.answered');
            if (typeof m.params[1] !== 'number' || Math.abs(m.params[1] - s.owed[i].clock) > 1) w.violate('P15', 'answeredTime', n.name + ' answered with a time that is not its own');
            s.owed.splice(i, 1);
        }
    }
    onDeliver(method, data, link, n, sock) {
        const w = this.w, sim = w.sim;
        if (!n || !n.honest || n.crashed || !n.ready || sock.closed || (method !== 'onInitHandshakeRequest' && method !== 'onInitHandshakeResponse')) return;
        const m = parse(data); if (!m || m.method !== method) return;
        const s = this.of(link, n);
        if (method === 'onInitHandshakeRequest') {
            const [c, t] = m.params;
            if (!okHash(c) || typeof t !== 'number') return;
            const clock = n.sdk.Clock.getTimeInSeconds();
            if (Math.abs(t - clock) > LIMIT) { sim.probe('auth.staleRequest'); return; }
            const o = { c, clock };
            s.owed.push(o);
            const check = () => {
                if (n.crashed || !link.open || sock.closed || !s.owed.includes(o)) return;
                if (n.stalledUntil > sim.now) { sim.after(n.stalledUntil - sim.now + GRACE, 'auth.owed', check, null); return; }
                if (!n.signFault && !n.disposed) w.violate('P15', 'unanswered', n.name + ' did not answer a timely challenge');
            };
            sim.after(GRACE + (n.signDelay ? 2500 : 0), 'auth.owed', check, null);
            return;
        }
        const [sig, rt] = m.params, q = s.asked;
        if (typeof rt !== 'number' || typeof sig !== 'string') return;
        if (!q) { s.dropped = s.dropped === null ? sim.now : s.dropped; return; }
        if (this.machine(n) - q.machine > LIMIT || Math.abs(rt - q.t) > LIMIT) { s.dropped = s.dropped === null ? sim.now : s.dropped; sim.probe('auth.refused'); return; }
        const who = recover(q.c, sig);
        if (!who) { sim.probe('auth.malformed'); return; }
        const x = { who, t: sim.now };
        s.awaited.push(x);
        (n.proven = n.proven || []).push(x);
        sim.after(GRACE, 'auth.awaited', () => { if (!x.done && !n.crashed && !n.disposed && n.stalledUntil <= x.t) w.violate('P15', 'notRecognised', n.name + ' did not recognise a peer that answered its challenge in time'); }, null);
    }
    onConnection(n, a) {
        if (!n.honest) return;
        const x = (n.proven || []).find((y) => !y.done && y.who === String(a));
        if (!x) { this.w.violate('P15', 'notProven', n.name + ' reports a connection with ' + String(a).slice(0, 10) + ', which did not answer this connection\'s challenge in time'); return; }
        x.done = true;
        this.w.sim.probe('auth.recognised');
        if (this.w.nodes.some((y) => y.address === x.who && y !== n)) this.w.sim.probe('auth.participant');
    }
    // ------------------------------------------------------------------ somebody on the path, or a peer that cheats
    schedule(it) {
        const w = this.w, sim = w.sim, r = sim.rng('auth.' + it.id);
        if (it.act === 'ask') { // a peer asks again and again, with challenges and times of its choice
            sim.at(it.t, 'auth.ask', () => {
                for (let i = 0; i < it.times; i++) {
                    const c = ethers.hexlify(r.bytes(32)), dt = r.pick([0, 0, 0, 1, -1, 4, -4, 5, -5, 6, -6, 7, -7, 60, -60, 100000]);
                    w.net.inject(w.nodes[it.from].name, w.nodes[it.to].name, JSON.stringify({ method: 'onInitHandshakeRequest', params: [c, sim.epochS() + dt] }), r.range(1, 60));
                    sim.count('inject.auth.ask');
                }
            }, null);
            return;
        }
        if (it.act === 'tell') { // answers nobody asked for: of other connections, other keys, other messages
            sim.at(it.t, 'auth.tell', () => {
                const from = w.nodes[it.from], to = w.nodes[it.to], l = w.net.linkBetween(from.name, to.name);
                if (!l) return;
                const q = this.of(l, to).asked, old = this.responses.length ? parse(r.pick(this.responses).data) : null;
                const key = new ethers.Wallet(ethers.id('stranger' + r.int(3))), kind = r.pick(['old', 'old', 'stranger', 'raw', 'junk', 'flip', 'again']);
                let sig = null;
                if (kind === 'old' && old) sig = old.params[0];
                else if (kind === 'raw' && q) sig = from.wallet.signMessageSync(ethers.getBytes(q.c));
                else if (kind === 'junk') sig = r.pick(['0x', '', 'junk', '0x' + 'ff'.repeat(65), ethers.hexlify(r.bytes(64))]);
                else if (q) { sig = (kind === 'stranger' ? key : from.wallet).signMessageSync(digest(q.c)); if (kind === 'flip') sig = sig.slice(0, -2) + (sig.endsWith('1b') ? '1c' : '1b'); }
                if (sig === null) return;
                const t = (q ? q.t : sim.epochS()) + r.pick([0, 0, 0, 1, 4, 5, 6, -4, -5, -6, 60]);
                w.net.inject(from.name, to.name, JSON.stringify({ method: 'onInitHandshakeResponse', params: [sig, t, 0] }), r.range(1, 60));
                sim.count('inject.auth.' + kind);
            }, null);
            return;
        }
        // on the path: handshake messages of a pair are held back or altered
        (this.path = this.path || []).push(it);
        if (!w.net.wire) w.net.wire = (rec, link, side) => this.onWire(rec, link, side);
    }
    onWire(rec, link, side) {
        if (rec.method !== 'onInitHandshakeRequest' && rec.method !== 'onInitHandshakeResponse') return undefined;
        const w = this.w, sim = w.sim;
        for (const it of this.path) {
            if (sim.now < it.t0 || sim.now >= it.t1 || w.nodes[it.from].name !== rec.from || (it.to !== undefined && w.nodes[it.to].name !== rec.to)) continue;
            if ((it.act === 'holdRequest') !== (rec.method === 'onInitHandshakeRequest') && it.act !== 'shift') continue;
            sim.count('fault.auth.' + it.act);
            const m = parse(rec.data);
            if (it.act === 'shift') { m.params[1] += it.dt; return [JSON.stringify(m)]; }
            w.net._deliverAt(link, side, rec.data, rec.method, sim.now + it.ms, rec);
            return it.act === 'again' ? [rec.data] : null; // 'again': the answer comes twice, the second time late
        }
        return undefined;
    }
}
module.exports = { Auth };
