'use strict';
// The simulated peer-to-peer network: stands in for Hyperswarm. Every delivery is an event of the simulator.
// A link is one connection between two peers; each direction delivers in order unless a fault says otherwise.
class Swarm { // what a node sees as global.Hyperswarm
    constructor(net, node) {
        this.net = net; this.node = node; this.listeners = []; this.topics = new Set(); this.banned = new Set();
        this.key = node.name + '#' + (node.swarms = (node.swarms || 0) + 1); // every start of a process makes itself a new key pair
    }
    on(ev, fn) { if (ev === 'connection') this.listeners.push(fn); return this; }
    removeAllListeners() { this.listeners = []; return this; }
    join(topic) { this.topics.add(Buffer.from(topic).toString('hex')); this.net._discover(this); return { flushed: async () => {} }; }
    leave(topic) { this.topics.delete(Buffer.from(topic).toString('hex')); return Promise.resolve(); }
}
class Socket {
    constructor(link, side) { this.link = link; this.side = side; this.h = { data: [], close: [], error: [] }; this.closed = false; }
    on(ev, fn) { (this.h[ev] = this.h[ev] || []).push(fn); return this; }
    write(data) {
        if (this.throwOnWrite) { this.link.net.sim.count('fault.net.sendThrows'); throw new Error('write after end'); }
        if (this.closed) return false; // hyperswarm's streams drop writes after end
        this.link.net._send(this.link, this.side, String(data));
        return true;
    }
    end() { this.link.net._close(this.link, this.side); }
    emit(ev, ...a) { for (const f of this.h[ev] || []) f(...a); }
}
class Net {
    constructor(sim, cfg) {
        this.sim = sim;
        this.cfg = Object.assign({ min: 5, max: 60, loss: 0, dup: 0, reorder: 0 }, cfg);
        this.peers = new Map(); // node name -> Swarm
        this.links = [];
        this.partitions = []; // {from,to,groups:[[names],[names]]}
        this.rules = []; // targeted faults: {from, to, t0, t1, kind, p, ms, method}
        this.messages = []; // every message given to the network, in order
        this.onSend = null;
        this.onDeliver = null;
        this.filter = null; // (link, from, to, data) -> data | null | [data...]
    }
    attach(node) { const s = new Swarm(this, node); this.peers.set(node.name, s); node.swarm = s; return s; }
    _discover(s) {
        for (const o of this.peers.values()) {
            if (o === s || o.node.crashed) continue;
            if (![...s.topics].some((t) => o.topics.has(t))) continue;
            if (this.links.some((l) => l.open && ((l.a === s && l.b === o) || (l.a === o && l.b === s)))) continue;
            if (s.banned.has(o.key) || o.banned.has(s.key)) continue;
            this.connect(s, o);
        }
    }
    connect(a, b) {
        const link = { net: this, a, b, id: this.links.length, open: true, last: { a: 0, b: 0 }, n: 0 };
        link.sa = new Socket(link, 'a'); link.sb = new Socket(link, 'b');
        this.links.push(link);
        const r = this.sim.rng('net.connect.' + link.id);
        for (const [side, sw, other] of [['a', a, b], ['b', b, a]]) {
            const info = { publicKey: other.key, ban: (v) => { if (v) sw.banned.add(other.key); else sw.banned.delete(other.key); } };
            this.sim.after(r.range(1, this.cfg.max), 'net.connect ' + sw.node.name + '<>' + other.node.name, () => {
                if (!link.open) return;
                link['up_' + side] = true; link['upAt_' + side] = this.sim.now;
                for (const f of sw.listeners) f(side === 'a' ? link.sa : link.sb, info);
                if (this.onUp) this.onUp(link, sw.node);
                const w = link['wait_' + side]; link['wait_' + side] = null;
                if (w) this.sim.after(1, 'net.flush ' + sw.node.name, () => { for (const f of w) f(); }, sw.node);
            }, sw.node);
        }
        return link;
    }
    linksOf(name) { return this.links.filter((l) => l.open && (l.a.node.name === name || l.b.node.name === name)); }
    linkBetween(x, y) { return this.links.find((l) => l.open && ((l.a.node.name === x && l.b.node.name === y) || (l.a.node.name === y && l.b.node.name === x))); }
    cut(x, y, t) { return this.partitions.some((p) => t >= p.t0 && t < p.t1 && p.groups.some((g) => g.includes(x)) && p.groups.some((g) => g.includes(y)) && !p.groups.some((g) => g.includes(x) && g.includes(y))); }
    _send(link, side, data) {
        if (!link.open) return;
        const from = side === 'a' ? link.a : link.b, to = side === 'a' ? link.b : link.a;
        let method = '';
        const m = /^\{"method":"(\w+)"/.exec(data); if (m) method = m[1];
        const rec = { i: this.messages.length, t: this.sim.now, from: from.node.name, to: to.node.name, method, data, link, side };
        this.messages.push(rec);
        this.sim.count('net.sent');
        if (this.onSend) this.onSend(rec);
        let datas = [data];
        if (this.wire) { const x = this.wire(rec, link, side); if (x !== undefined) datas = x === null ? [] : x; }
        if (from.node.tamper) { const x = from.node.tamper(rec); if (x !== undefined) datas = x === null ? [] : Array.isArray(x) ? x : [x]; }
        for (const d of datas) this.post(link, side, d, method, rec);
    }
    // schedule one delivery over a link, subject to the faults in force
    post(link, side, data, method = '', rec = null) {
        const from = side === 'a' ? link.a : link.b, to = side === 'a' ? link.b : link.a;
        const fn = from.node.name, tn = to.node.name;
        // one stream per (from,to,method,k-th message): dropping one plan item does not shift the others
        const k = (link['k_' + side + method] = (link['k_' + side + method] || 0) + 1);
        const r = this.sim.rng('net.' + fn + '>' + tn + '.' + method + '.' + k);
        const now = this.sim.now;
        if (this.cut(fn, tn, now)) { this.sim.count('fault.net.partition'); return; }
        let delay = r.range(this.cfg.min, this.cfg.max), lost = r.float() < this.cfg.loss, dup = r.float() < this.cfg.dup ? 1 : 0, reorder = r.float() < this.cfg.reorder;
        const extra = r.range(1, 4 * this.cfg.max);
        // the transports are reliable ordered streams: what is reordered and duplicated is the gossip, which takes many paths
        const gossip = method === 'onSignedBlock' || method === 'onBlockConfirmation';
        if (!gossip) { dup = 0; reorder = false; }
        for (const u of this.rules) {
            if (now < u.t0 || now >= u.t1) continue;
            if (u.from && u.from !== fn) continue;
            if (u.to && u.to !== tn) continue;
            if (u.method && u.method !== method) continue;
            const hit = r.float() < (u.p === undefined ? 1 : u.p);
            if (!hit || (!gossip && (u.kind === 'dup' || u.kind === 'reorder'))) continue;
            if (u.kind === 'loss') lost = true;
            else if (u.kind === 'dup') dup++;
            else if (u.kind === 'delay') { delay += u.ms; this.sim.count('fault.net.delay'); }
            else if (u.kind === 'reorder') reorder = true;
        }
        if (lost) { this.sim.count('fault.net.loss'); this.sim.log('net.lost', fn + '>' + tn + ' ' + method); return; }
        let at = now + delay;
        if (reorder) { this.sim.count('fault.net.reorder'); at += extra; }
        else { at = Math.max(at, link.last[side]); link.last[side] = at; }
        this._deliverAt(link, side, data, method, at, rec);
        for (let i = 0; i < dup; i++) { this.sim.count('fault.net.dup'); this._deliverAt(link, side, data, method, at + r.range(0, 6 * this.cfg.max), rec); }
    }
    _deliverAt(link, side, data, method, at, rec) {
        const from = side === 'a' ? link.a : link.b, to = side === 'a' ? link.b : link.a;
        const deliver = () => {
            if (!link.open) return;
            const sock = side === 'a' ? link.sb : link.sa;
            const rs = side === 'a' ? 'b' : 'a';
            if (!link['up_' + rs]) { (link['wait_' + rs] = link['wait_' + rs] || []).push(deliver); return; } // not accepted yet
            if (this.cut(from.node.name, to.node.name, this.sim.now)) { this.sim.count('fault.net.partition'); return; }
            this.sim.count('net.delivered');
            if (this.onDeliver) this.onDeliver(method, data, link, to.node, sock);
            sock.emit('data', Buffer.from(data));
        };
        this.sim.at(at, 'net ' + from.node.name + '>' + to.node.name + ' ' + method, deliver, to.node);
    }
    // bytes that no honest stack produced, put on the wire by a peer
    inject(fromName, toName, data, delay = 1) {
        const l = this.linkBetween(fromName, toName);
        if (!l) return false;
        const side = l.a.node.name === fromName ? 'a' : 'b';
        const m = /^\{"method":"(\w+)"/.exec(data);
        this.sim.count('fault.net.injected');
        this._deliverAt(l, side, data, m ? m[1] : 'raw', this.sim.now + delay, null);
        return true;
    }
    _close(link, side) {
        if (!link.open) return;
        (side === 'a' ? link.sa : link.sb).closed = true;
        const other = side === 'a' ? link.b : link.a;
        this.sim.count('net.closed');
        this.sim.after(2, 'net.close ' + other.node.name, () => {
            if (!link.open) return;
            link.open = false;
            (side === 'a' ? link.sb : link.sa).closed = true;
            (side === 'a' ? link.sb : link.sa).emit('close');
        }, other.node);
    }
    // the connection drops under both ends
    sever(link) {
        if (!link || !link.open) return;
        link.open = false;
        this.sim.count('fault.net.sever');
        for (const [s, sw] of [[link.sa, link.a], [link.sb, link.b]]) { s.closed = true; this.sim.after(1, 'net.severed ' + sw.node.name, () => s.emit('close'), sw.node); }
    }
    detach(name) {
        const s = this.peers.get(name);
        if (!s) return;
        this.peers.delete(name);
        for (const l of this.linksOf(name)) {
            l.open = false;
            const other = l.a === s ? l.b : l.a, sock = l.a === s ? l.sb : l.sa;
            this.sim.after(30, 'net.gone ' + other.node.name, () => sock.emit('close'), other.node);
        }
    }
}
module.exports = { Net };
