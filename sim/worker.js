'use strict';
// Worker process: runs plans sent by check.js and reports what happened.
const { run } = require('./run');
let b = null;
process.on('disconnect', () => process.exit(0));
process.on('message', async (m) => {
    if (m.build) { b = m.build; process.send({ ready: 1 }); return; }
    const t0 = Date.now();
    let r;
    try { r = await run(m.plan, { ...b, trace: m.trace }); } catch (e) { r = { error: String((e && e.stack) || e).slice(0, 1500), violations: [], counts: {}, probes: {}, marks: [] }; }
    process.send({ id: m.id, ms: Date.now() - t0, r: { ...r, trace: m.trace && r.trace ? r.trace.slice(-m.trace) : undefined } });
});
