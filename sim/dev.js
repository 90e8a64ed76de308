'use strict';
// dev.js PROFILE FROM-TO [JOBS]: runs plans in parallel and prints what they violate (development aid; not a check)
const { fork } = require('child_process');
if (process.argv[2] === '--worker') {
    const { build } = require('./build'); const { run: runPlan, gen } = require('./run');
    (async () => {
        const b = await build();
        process.on('message', async ([pf, s]) => { const t0 = Date.now(); let r; try { r = await runPlan(gen(pf, s), b); } catch (e) { r = { violations: [{ prop: 'CRASH', rule: String(e.stack).slice(0, 900) }], counts: {}, probes: {} }; } r.ms = Date.now() - t0; process.send({ s, r: { violations: r.violations, digest: r.digest, events: r.events, counts: r.counts, probes: r.probes, ms: r.ms } }); });
        process.send({ ready: 1 });
    })();
} else {
    const [pf, range, jobs] = process.argv.slice(2); const [a, b] = range.split('-').map(Number);
    let next = a, live = 0; const agg = {}, counts = {}, probes = {}; let ms = 0, nrun = 0; const T0 = Date.now();
    for (let j = 0; j < (jobs || 8); j++) {
        const c = fork(__filename, ['--worker'], { stdio: ['ignore', 'ignore', 'inherit', 'ipc'] }); live++;
        const more = () => { if (next <= b) c.send([pf, next++]); else { c.disconnect(); c.kill(); if (--live === 0) done(); } };
        c.on('message', (m) => { if (m.ready) return more(); nrun++; ms += m.r.ms; for (const v of m.r.violations) { const k = v.prop + ' ' + v.rule; (agg[k] = agg[k] || []).push([m.s, v.detail, v.t]); } for (const [k, v] of Object.entries(m.r.counts)) counts[k] = (counts[k] || 0) + v; for (const [k, v] of Object.entries(m.r.probes)) probes[k] = (probes[k] || 0) + v; more(); });
    }
    function done() {
        console.log(pf, nrun, 'runs', ((Date.now() - T0) / 1000).toFixed(1) + 's', 'avg ms', Math.round(ms / nrun));
        for (const [k, v] of Object.entries(agg)) { console.log(' !', k, v.length, 'seeds', v.slice(0, 8).map((x) => x[0]).join(',')); for (const x of v.slice(0, 2)) console.log('     ', x[0], '@' + x[2], x[1]); }
        if (process.env.C) console.log(JSON.stringify(counts), JSON.stringify(probes));
    }
}
