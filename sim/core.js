'use strict';
// Deterministic discrete-event core: keyed PRNG streams, virtual time, one total order of events.
const crypto = require('crypto');

// ---- PRNG: xoshiro128** seeded from sha256(seed,label); one independent stream per label, so that
// dropping one planned operation or fault does not shift the draws of the others (needed to minimise).
class Rng {
    constructor(seed, label = '') {
        const d = crypto.createHash('sha256').update(String(seed) + '|' + label).digest();
        this.s = new Uint32Array([d.readUInt32LE(0), d.readUInt32LE(4), d.readUInt32LE(8), d.readUInt32LE(12) | 1]);
        this.seed = seed;
        this.label = label;
    }
    u32() {
        const s = this.s;
        const x = Math.imul(s[1], 5);
        const r = Math.imul((x << 7) | (x >>> 25), 9) >>> 0;
        const t = s[1] << 9;
        s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t;
        s[3] = (s[3] << 11) | (s[3] >>> 21);
        return r;
    }
    float() { return this.u32() / 4294967296; }
    int(n) { return Math.floor(this.float() * n); } // [0,n)
    range(a, b) { return a + this.int(b - a + 1); } // [a,b]
    chance(p) { return this.float() < p; }
    pick(arr) { return arr[this.int(arr.length)]; }
    weighted(pairs) {
        let t = 0;
        for (const [, w] of pairs) t += w;
        let x = this.float() * t;
        for (const [v, w] of pairs) { x -= w; if (x < 0) return v; }
        return pairs[pairs.length - 1][0];
    }
    shuffle(arr) {
        const a = arr.slice();
        for (let i = a.length - 1; i > 0; i--) { const j = this.int(i + 1); [a[i], a[j]] = [a[j], a[i]]; }
        return a;
    }
    bytes(n) { const b = new Uint8Array(n); for (let i = 0; i < n; i++) b[i] = this.u32() & 255; return b; }
}
class Streams {
    constructor(seed) { this.seed = seed; this.m = new Map(); }
    get(label) {
        let r = this.m.get(label);
        if (!r) this.m.set(label, (r = new Rng(this.seed, label)));
        return r;
    }
}

class Heap {
    constructor() { this.a = []; }
    get size() { return this.a.length; }
    static lt(x, y) { return x.at < y.at || (x.at === y.at && x.seq < y.seq); }
    push(e) {
        const a = this.a; let i = a.length; a.push(e);
        while (i > 0) { const p = (i - 1) >> 1; if (!Heap.lt(a[i], a[p])) break; [a[i], a[p]] = [a[p], a[i]]; i = p; }
    }
    pop() {
        const a = this.a; const top = a[0]; const last = a.pop();
        if (a.length) {
            a[0] = last; let i = 0;
            for (;;) {
                const l = 2 * i + 1, r = l + 1; let m = i;
                if (l < a.length && Heap.lt(a[l], a[m])) m = l;
                if (r < a.length && Heap.lt(a[r], a[m])) m = r;
                if (m === i) break; [a[i], a[m]] = [a[m], a[i]]; i = m;
            }
        }
        return top;
    }
}
const realSetImmediate = setImmediate;
const drain = () => new Promise((r) => realSetImmediate(r));

const EPOCH_MS = 1800000000000; // simulated wall clock at simulation time 0

let CURRENT = null; // the simulation that is running in this process (one at a time)
process.on('unhandledRejection', (err) => {
    if (CURRENT) CURRENT.onUnhandled(err);
    else { console.error('unhandled rejection outside a simulation', err); process.exit(2); }
});

class Sim {
    constructor(seed, opts = {}) {
        this.seed = seed;
        this.streams = new Streams(seed);
        this.now = 0;
        this.seq = 0;
        this.heap = new Heap();
        this.events = 0;
        this.maxEvents = opts.maxEvents || 60000;
        this.hash = crypto.createHash('sha256');
        this.trace = opts.trace ? [] : null;
        this.counts = Object.create(null);
        this.probes = Object.create(null);
        this.owner = null; // whose code runs right now
        this.unhandled = [];
        this.stopped = false;
        this.afterEvent = null;
        this.inflight = 0;
        this.shape = crypto.createHash('sha256'); // order of event kinds, without times: the interleaving
        CURRENT = this;
    }
    rng(label) { return this.streams.get(label); }
    epochMs() { return EPOCH_MS + this.now; }
    epochS() { return Math.floor(this.epochMs() / 1000); }
    log(kind, data) {
        const line = this.now + ' ' + kind + (data === undefined ? '' : ' ' + (typeof data === 'string' ? data : JSON.stringify(data)));
        this.hash.update(line + '\n');
        this.shape.update(kind + '\n');
        if (this.trace) this.trace.push(line);
    }
    count(k, n = 1) { this.counts[k] = (this.counts[k] || 0) + n; }
    probe(k, n = 1) { this.probes[k] = (this.probes[k] || 0) + n; }
    at(t, label, fn, owner = null) {
        const e = { at: Math.max(this.now, Math.round(t)), seq: this.seq++, label, fn, owner, dead: false };
        this.heap.push(e);
        return e;
    }
    after(d, label, fn, owner) { return this.at(this.now + d, label, fn, owner); }
    onUnhandled(err) {
        const o = this.owner;
        const rec = { owner: o ? o.name : null, t: this.now, msg: String((err && err.message) || err).split('\n')[0].slice(0, 200), label: this.currentLabel, stack: err && err.stack };
        this.unhandled.push(rec);
        this.log('unhandledRejection', rec.owner + ' ' + rec.msg);
        if (o && o.onUnhandled) o.onUnhandled(rec);
    }
    async run(untilMs) {
        while (this.heap.size && !this.stopped) {
            if (this.heap.a[0].at > untilMs) break;
            const e = this.heap.pop();
            if (e.dead) continue;
            const o = e.owner;
            if (o) {
                if (o.crashed) continue;
                if (o.stalledUntil > e.at) { // a stalled process: everything it would do waits, in order
                    e.at = o.stalledUntil; e.seq = this.seq++; this.heap.push(e); this.count('fault.stall.deferred'); continue;
                }
            }
            if (++this.events > this.maxEvents) { this.truncated = true; break; }
            this.now = Math.max(this.now, e.at);
            this.owner = o;
            this.currentLabel = e.label;
            this.log(e.label);
            try { const r = e.fn(); if (r && typeof r.then === 'function') r.then(undefined, (err) => this.onUncaught(err, o)); } catch (err) { this.onUncaught(err, o); }
            await drain();
            if (this.inflight !== 0) throw new Error('simulator: work still running after a drain (' + this.inflight + ') label=' + e.label);
            this.owner = null;
            if (this.afterEvent) { const r = this.afterEvent(e); if (r && typeof r.then === 'function') { await r; await drain(); } }
        }
        if (!this.stopped && !this.truncated) this.now = Math.max(this.now, untilMs);
    }
    onUncaught(err, o) {
        const rec = { owner: o ? o.name : null, t: this.now, msg: 'uncaught: ' + String((err && err.message) || err).split('\n')[0].slice(0, 200), label: this.currentLabel, stack: err && err.stack };
        this.log('uncaught', rec.owner + ' ' + rec.msg);
        if (o && o.onUnhandled) { this.unhandled.push(rec); o.onUnhandled(rec); } else throw err;
    }
    digest() { return this.hash.copy().digest('hex'); }
    shapeDigest() { return this.shape.copy().digest('hex').slice(0, 16); }
    static current() { return CURRENT; }
    close() { if (CURRENT === this) CURRENT = null; }
}
module.exports = { Sim, Rng, drain, EPOCH_MS };
