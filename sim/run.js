'use strict';
// One entry for every kind of simulated run.
const { gen } = require('./plans');
function kinds(plan) {
    switch (plan.kind) {
        case 'ledger': return require('./ledger').runPlan;
        default: return require('./world').runPlan;
    }
}
async function run(plan, opts) { return kinds(plan)(plan, opts); }
module.exports = { run, gen };
