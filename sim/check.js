'use strict';
// check.js --property Pxx [--tier quick|thorough]    decides one property by seeded simulation
// check.js --replay FILE                             re-executes one recorded violation exactly
const fs = require('fs');
const path = require('path');
const os = require('os');
const { fork } = require('child_process');
const { build, prune, VERIF } = require('./build');
const { SPECS, concerns } = require('./specs');
const { gen } = require('./run');

const JOBS = Math.max(2, Math.min(8, os.cpus().length));
const RUN_LIMIT_MS = 90000;

class Pool {
    constructor(b, n = JOBS) { this.b = b; this.n = n; this.all = new Set(); this.idle = []; this.waiting = []; this.seq = 0; for (let i = 0; i < n; i++) this.spawn(); }
    spawn() {
        const c = fork(path.join(__dirname, 'worker.js'), [], { stdio: ['ignore', 'ignore', 'inherit', 'ipc'], execArgv: ['--max-old-space-size=2600'] });
        c.runs = 0; c.job = null;
        this.all.add(c);
        c.on('message', (m) => {
            if (m.ready) return this.free(c);
            const j = c.job; c.job = null; clearTimeout(j.timer);
            c.runs++;
            j.resolve({ ...m.r, ms: m.ms });
            if (c.runs >= 60) { this.all.delete(c); c.removeAllListeners('exit'); c.kill('SIGKILL'); if (!this.closed) this.spawn(); } else this.free(c);
        });
        c.on('exit', (code, sig) => {
            this.all.delete(c);
            const j = c.job; c.job = null;
            if (j) { clearTimeout(j.timer); j.resolve({ error: j.hung ? 'hung' : 'worker ended: ' + (sig || code), hung: j.hung, violations: [], counts: {}, probes: {}, marks: [], ms: 0 }); }
            if (!this.closed) this.spawn();
        });
        c.send({ build: this.b });
    }
    free(c) { const w = this.waiting.shift(); if (w) this.give(c, w); else this.idle.push(c); }
    give(c, job) {
        c.job = job;
        job.timer = setTimeout(() => { job.hung = true; c.kill('SIGKILL'); }, RUN_LIMIT_MS);
        c.send({ id: ++this.seq, plan: job.plan, trace: job.trace });
    }
    run(plan, trace) {
        return new Promise((resolve) => {
            const job = { plan, trace, resolve };
            let c; do { c = this.idle.pop(); } while (c && !this.all.has(c));
            if (c) this.give(c, job); else this.waiting.push(job);
        });
    }
    close() { this.closed = true; for (const c of this.all) { c.removeAllListeners('exit'); c.kill('SIGKILL'); } }
}
function hungViolation(r) { if (r.hung) r.violations = [{ prop: 'P05', rule: 'hang', detail: 'a simulated run never yields: some code spins forever', t: 0 }]; return r; }
const sameV = (r, prop, rule) => r.violations.find((v) => v.prop + '/' + v.rule === rule);

// ------------------------------------------------------------------ minimisation: drop what the violation does not need
async function minimise(pool, plan, rule, budgetMs) {
    const end = Date.now() + budgetMs;
    let cur = plan, tried = 0;
    const test = async (p) => { tried++; return !!sameV(hungViolation(await pool.run(p)), null, rule); };
    for (let chunk = Math.max(1, Math.ceil(cur.items.length / 2)); chunk >= 1 && cur.items.length; ) {
        const cands = [];
        for (let i = 0; i < cur.items.length; i += chunk) cands.push({ ...cur, items: cur.items.filter((_, j) => j < i || j >= i + chunk) });
        let hit = null;
        for (let i = 0; i < cands.length && !hit && Date.now() < end; i += JOBS) {
            const part = cands.slice(i, i + JOBS), rs = await Promise.all(part.map(test));
            const k = rs.findIndex((x) => x);
            if (k >= 0) hit = part[k];
        }
        if (hit) { cur = hit; chunk = Math.max(1, Math.min(chunk, Math.ceil(cur.items.length / 2))); if (!cur.items.length) break; continue; }
        if (chunk === 1 || Date.now() >= end) break;
        chunk = Math.ceil(chunk / 2);
    }
    // simpler environment and shorter run
    for (const f of [(p) => (p.net ? { ...p, net: { min: 1, max: 20 } } : p), (p) => (p.events ? { ...p, events: { min: 5, max: 60 } } : p), (p) => (p.nodes ? { ...p, nodes: p.nodes.map((x) => (x.byz ? { byz: true } : {})) } : p), (p) => (p.channels > 1 ? { ...p, channels: 1, items: p.items.filter((i) => !i.ch) } : p),
        ...[0.3, 0.5, 0.7].map((k) => (p) => (p.opsUntil ? { ...p, opsUntil: Math.round(p.opsUntil * k), horizon: p.horizon - (p.opsUntil - Math.round(p.opsUntil * k)) } : p))]) {
        if (Date.now() >= end) break;
        const q = f(cur);
        if (q !== cur && JSON.stringify(q) !== JSON.stringify(cur) && (await test(q))) cur = q;
    }
    return { plan: cur, tried };
}
function writeReplay(prop, seedTag, rec) {
    const dir = path.join(VERIF, 'replays');
    fs.mkdirSync(dir, { recursive: true });
    const f = path.join(dir, prop + '-' + seedTag + '.json');
    fs.writeFileSync(f, JSON.stringify(rec, null, 1) + '\n');
    return path.relative(VERIF, f);
}
function findings() {
    const f = path.join(VERIF, 'known-findings.json');
    return fs.existsSync(f) ? JSON.parse(fs.readFileSync(f, 'utf8')).known || [] : [];
}
const isKnown = (prop, v, list) => list.some((k) => k.property === prop && k.rule === v.prop + '/' + v.rule && k.marks.every((m) => (v.marks || []).includes(m)));

async function decide(prop, tier) {
    const T0 = Date.now(), spec = SPECS[prop];
    if (!spec) throw new Error('unknown property ' + prop);
    const seed0 = Number.isInteger(Number(process.env.VERIF_SEED)) && process.env.VERIF_SEED ? Number(process.env.VERIF_SEED) : 1;
    const b = await build();
    prune();
    const pool = new Pool({ sdk: b.sdk, contracts: b.contracts });
    const known = findings().filter((k) => k.property === prop);
    const jobs = [];
    const scale = tier === 'thorough' ? spec.thorough || 12 : 1;
    for (const [profile, n, off] of spec.profiles) for (let i = 0; i < Math.ceil(n * scale); i++) jobs.push({ profile, i, seed: seed0 === 1 ? (off || 0) + 1 + i : seed0 * 1000003 + (off || 0) + i });
    // mix the profiles so that an early stop has seen something of each
    jobs.sort((x, y) => x.i / Math.max(1, spec.profiles.find((p) => p[0] === x.profile)[1]) - y.i / Math.max(1, spec.profiles.find((p) => p[0] === y.profile)[1]) || (x.profile < y.profile ? -1 : x.profile > y.profile ? 1 : 0));
    const budget = Number(process.env.VERIF_BUDGET_S || (tier === 'thorough' ? 3600 : 400)) * 1000;
    const agg = { counts: {}, probes: {}, shapes: new Set(), simMs: 0, events: 0, runMs: 0, perProfile: {}, relevant: 0, marks: {}, other: {} };
    const errors = [], found = [];
    let next = 0, done = 0;
    const samples = [];
    const one = async () => {
        while (next < jobs.length && !found.length && Date.now() - T0 < budget) {
            const j = jobs[next++];
            const plan = gen(j.profile, j.seed);
            let r = await pool.run(plan);
            if (r.error) r = await pool.run(plan); // once more: the machine may have been short of memory or time
            hungViolation(r);
            done++;
            agg.perProfile[j.profile] = (agg.perProfile[j.profile] || 0) + 1;
            if (r.error && !r.hung) { errors.push(j.profile + '#' + j.seed + ': ' + r.error); continue; }
            for (const [k, v] of Object.entries(r.counts)) agg.counts[k] = (agg.counts[k] || 0) + v;
            for (const [k, v] of Object.entries(r.probes)) agg.probes[k] = (agg.probes[k] || 0) + v;
            for (const k of r.marks || []) agg.marks[k] = (agg.marks[k] || 0) + 1;
            agg.simMs += r.simMs || 0; agg.events += r.events || 0; agg.runMs += r.ms || 0;
            const nontrivial = !spec.probes || spec.probes.some((k) => (r.probes[k] || 0) + (r.counts[k] || 0) > 0);
            if (nontrivial) { agg.relevant++; agg.shapes.add(r.shape); }
            if (samples.length < 3 && nontrivial) samples.push({ profile: j.profile, seed: j.seed, participants: plan.n, items: plan.items.slice(0, 4), events: r.events, simulated_s: Math.round(r.simMs / 1000), digest: String(r.digest).slice(0, 16) });
            j.digest = r.digest;
            for (const v of r.violations) {
                const mv = { ...v, marks: r.marks || [] };
                if (concerns(prop, v, j.profile)) { if (!isKnown(prop, mv, known)) found.push({ job: j, plan, v: mv, digest: r.digest, r }); }
                else agg.other[v.prop + '/' + v.rule] = (agg.other[v.prop + '/' + v.rule] || 0) + 1;
            }
        }
    };
    await Promise.all(Array.from({ length: JOBS }, one));
    // the simulator checks itself: the same plans once more, in other processes, must give the same history
    const det = { reruns: 0, mismatches: [] };
    if (!found.length) {
        const again = jobs.filter((j) => j.digest).slice(0, tier === 'thorough' ? 16 : 2);
        await Promise.all(again.map(async (j) => { const r = await pool.run(gen(j.profile, j.seed)); det.reruns++; if (r.digest !== j.digest) det.mismatches.push(j.profile + '#' + j.seed); }));
    }
    // recorded findings: each is one history, executed again
    const knownSeen = [];
    if (!found.length) for (const k of known) {
        const r = hungViolation(await pool.run(k.plan));
        if (r.error) errors.push('finding ' + k.id + ': ' + r.error);
        const hit = sameV(r, prop, k.rule);
        if (hit) { knownSeen.push(k.id); console.log('KNOWN-FINDING: property=' + prop + ' ' + k.what); } else console.log('note: the recorded finding ' + k.id + ' does not show on this tree');
        for (const v of r.violations) if (concerns(prop, v) && !isKnown(prop, { ...v, marks: r.marks }, known)) found.push({ job: { profile: 'finding.' + k.id, seed: k.plan.seed }, plan: k.plan, v: { ...v, marks: r.marks }, digest: r.digest, r });
    }
    let replay = null, minimised = null;
    if (found.length) {
        found.sort((x, y) => (x.job.i || 0) - (y.job.i || 0));
        const f = found[0], rule = f.v.prop + '/' + f.v.rule;
        minimised = f.r.hung ? { plan: f.plan, tried: 0 } : await minimise(pool, f.plan, rule, process.env.VERIF_MIN_S ? Number(process.env.VERIF_MIN_S) * 1000 : tier === 'thorough' ? 240000 : 75000);
        let r = hungViolation(await pool.run(minimised.plan, 400)), v = sameV(r, prop, rule);
        if (!v) { minimised.plan = f.plan; r = hungViolation(await pool.run(f.plan, 400)); v = sameV(r, prop, rule); }
        const r2 = await pool.run(minimised.plan);
        replay = writeReplay(prop, f.job.profile.replace(/[^\w]/g, '_') + '-' + f.job.seed, {
            property: prop, rule, violation: v || f.v, digest: r.digest, reproduced: !!v && (r.hung || r2.digest === r.digest), found_in: { profile: f.job.profile, seed: f.job.seed, items: f.plan.items.length }, minimised: { items: minimised.plan.items.length, runs: minimised.tried },
            all: r.violations, plan: minimised.plan, replay_with: 'node sim/check.js --replay <this file>', trace_tail: r.trace
        });
        console.log('violated rule ' + rule + ' in ' + f.job.profile + '#' + f.job.seed + ' at ' + f.v.t + ' ms: ' + f.v.detail);
    }
    pool.close();
    const wall = (Date.now() - T0) / 1000, searchH = Math.max(1e-9, wall / 3600);
    const faults = {}; for (const [k, v] of Object.entries(agg.counts)) if (/^(fault|byz|inject)\./.test(k)) faults[k] = v;
    const ev = {
        property: prop, tier, seed: seed0, level: spec.level || 'exploration',
        coverage: {
            evaluations: done, distinct_nontrivial: agg.shapes.size,
            rule: 'One evaluation is one simulated run of a plan generated from (profile, seed). ' + (spec.rule || '') + ' Distinct: different order of event kinds (hash of the sequence of event labels, without times and payloads).',
            samples,
            nontrivial_runs: agg.relevant, runs_per_hour: Math.round(done / searchH), seeds_per_hour: Math.round(done / searchH), simulated_seconds: Math.round(agg.simMs / 1000), simulator_events: agg.events,
            runs_per_profile: agg.perProfile, fault_kinds_injected: faults, adversary_marks: agg.marks, observations: agg.probes, operations: Object.fromEntries(Object.entries(agg.counts).filter(([k]) => !/^(fault|byz|inject)\./.test(k))),
            determinism: det, harness_errors: errors.length, other_rules_seen: agg.other, known_findings_seen: knownSeen, planned_runs: jobs.length, build_ms: b.ms,
            real_components: spec.real || ['/repo/src (bundled, one instance per participant)', '/repo/contracts compiled with solc and executed in @ethereumjs/evm, both as the ledger and inside each participant', 'ethers contract, ABI and signature code'],
            stub_components: spec.stub || ['ledger block production, mempool and JSON-RPC provider', 'Hyperswarm and sockets', 'timers, wall clock, randomness', 'signing latency and failures']
        },
        wall_s: Math.round(wall * 10) / 10, violations: found.length,
        assumptions: spec.assumptions || []
    };
    if (replay) ev.coverage.replay = replay;
    fs.mkdirSync(path.join(VERIF, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(VERIF, 'evidence', prop + '.json'), JSON.stringify(ev, null, 1) + '\n');
    if (det.mismatches.length) console.log('warning: not reproducible: ' + det.mismatches.join(' '));
    for (const e of errors.slice(0, 3)) console.log('harness error: ' + e);
    console.log(prop + ' ' + tier + ': ' + done + ' runs, ' + agg.shapes.size + ' distinct, ' + Math.round(agg.simMs / 1000) + ' simulated s, ' + wall.toFixed(1) + ' s');
    if (replay) { console.log('VIOLATION property=' + prop + ' replay=' + replay); return 1; }
    if (errors.length > 0 && (errors.length > done / 2 || done - errors.length < 1)) return 2;
    return errors.length ? 2 : 0;
}
async function replayFile(file) {
    const rec = JSON.parse(fs.readFileSync(file, 'utf8'));
    const b = await build();
    const pool = new Pool({ sdk: b.sdk, contracts: b.contracts }, 1);
    const r = hungViolation(await pool.run(rec.plan, 100000));
    pool.close();
    if (process.env.TRACE) for (const l of r.trace || []) console.log(l);
    if (r.error && !r.hung) { console.log('harness error: ' + r.error); return 2; }
    for (const v of r.violations) console.log(v.prop + '/' + v.rule + ' @' + v.t + ' ' + v.detail);
    const v = sameV(r, rec.property, rec.rule);
    console.log('history ' + (r.digest === rec.digest ? 'identical' : 'differs') + ' (' + String(r.digest).slice(0, 16) + ')');
    if (v) { console.log('VIOLATION property=' + rec.property + ' replay=' + file); return 1; }
    console.log('not violated on this tree');
    return 0;
}
(async () => {
    const a = process.argv.slice(2), opt = (n) => { const i = a.indexOf(n); return i < 0 ? undefined : a[i + 1]; };
    let rc = 2;
    try {
        if (opt('--replay')) rc = await replayFile(opt('--replay'));
        else rc = await decide(opt('--property'), opt('--tier') || process.env.VERIF_TIER || 'quick');
    } catch (e) { console.log('error: ' + (e.stack || e)); rc = 2; }
    process.exit(rc);
})();
