'use strict';
// What each check runs: [profile, number of seeds in the quick tier, first-seed offset]. The offsets make different
// checks look at different seeds of the same profile.
const W = 'Runs are whole deployments (2 to 5 participants, the ledger and the network) driven by a seeded plan.';
const LW = 'Runs are sequences of 15 to 60 transactions of participants and outsiders on the real contracts, valid ones and near misses, at times around every deadline; every answer, event and stored field is compared with a reference model.';
const LREAL = ['/repo/contracts compiled with solc and executed in @ethereumjs/evm, with two applications: the repository\'s own example and one that keeps balances, joins and leaves'], LSTUB = ['ledger block production and mempool', 'the participants\' off-ledger software (a generator of transactions with real signatures)'];
const L = (p, off, probes, what, more = []) => ({ profiles: [['ledger:math', 110, off], ['ledger:vault', 110, off], ...more], probes, rule: LW + ' Non-trivial: ' + what + '.', real: LREAL, stub: LSTUB });
const SPECS = {
    P01: { profiles: [['byz:rollback', 45], ['byz:falseTimeout', 20], ['byz:double', 15, 300], ['race', 10, 300], ['crash', 20, 300], ['lossy', 15, 300]], probes: ['disputeFinal'], rule: W + ' Non-trivial: the ledger settled at least one dispute.' },
    P02: { profiles: [['local', 50, 400], ['hostile', 25, 400], ['crash', 25, 400], ['byz', 15, 400], ['byz:badState', 12, 400], ['byz:wrongPrev', 6, 400], ['byz:wrongPlace', 6, 400], ['race', 25, 400]], probes: ['stateChecked'], rule: W + ' Non-trivial: at least one participant\'s live state was compared with the replay of its blocks.' },
    P03: { profiles: [['byz:double', 40], ['hostile', 40, 500], ['local', 25, 500], ['byz:doubleTs', 15], ['lossy', 10, 500], ['race', 12, 500], ['restart', 12, 1600]], probes: ['released'], rule: W + ' Non-trivial: an honest participant released at least one signature on a block.' },
    P04: { profiles: [['hostile', 50, 600], ['byz:badState', 10], ['byz:badPeople', 8], ['byz:badTx', 10], ['byz:oldTs', 10], ['byz:futureTs', 10], ['byz:wrongPrev', 10], ['byz:outOfTurn', 15], ['byz:soonTs', 6, 600], ['byz:lateTs', 8, 600], ['byz:forge', 20, 600], ['byz:wrongPlace', 15, 600], ['byz:oddBytes', 15, 600]], probes: ['blockAccepted'], rule: W + ' Non-trivial: an honest participant accepted at least one block.' },
    P05: { profiles: [['hostile', 80], ['local', 20, 700], ['lossy', 12, 700], ['byz', 20, 700]], probes: ['blockAccepted'], rule: W + ' Non-trivial: an honest participant accepted at least one block although hostile input, failing calls or faults were injected.' },
    P06: { profiles: [['calm', 130]], probes: ['converged'], rule: W + ' Non-trivial: the final agreement of all participants was compared.' },
    P07: { profiles: [['lossy', 75]], probes: ['ledger.calldata', 'fault.net.loss', 'fault.net.partition', 'fault.net.sever', 'fault.net.sendThrows'], rule: W + ' Non-trivial: messages were lost, cut off or a connection was severed.' },
    P08: { profiles: [['crash', 70]], probes: ['removalExpected'], rule: W + ' Non-trivial: a participant stopped for good and its removal was expected.' },
    P09: { profiles: [['lossy', 30, 900], ['crash', 20, 900], ['hostile', 25, 900], ['byz', 40, 900], ['race', 30], ['byz:falseTimeout', 15, 900], ['twice', 10, 2900]], probes: ['blockAccepted'], rule: W + ' Non-trivial: honest participants progressed, so somebody could have been blamed wrongly.' },
    P10: { profiles: [['byz', 70], ['race', 15], ['byz:badState', 12, 1700], ['byz:badTx', 6, 1700], ['byz:soonTs', 6], ['byz:lateTs', 6], ['byz:rollback', 12, 1700], ['twice', 10, 2000], ['byz:wrongPlace', 6, 1700], ['byz:oddBytes', 6, 1700], ['twice:wrongPlace', 6, 2000]], probes: ['removalExpected'], rule: W + ' Non-trivial: the cheat happened and its removal was expected.' },
    P15: { profiles: [['auth', 160], ['calm', 15, 1800], ['two', 8, 1800]], probes: ['auth.participant'], rule: W + ' Non-trivial: a participant recognised another one by its answer.' },
    P16: { profiles: [['local', 150]], probes: ['op.failed'], rule: W + ' Non-trivial: at least one local call failed or was refused.' },
    P17: { profiles: [['local', 40, 1200], ['calm', 40, 1200], ['crash', 20, 1200], ['lossy', 15, 1200], ['byz', 20, 1200]], probes: ['eventsChecked'], rule: W + ' Non-trivial: at least one application event was compared.' },
    P18: { profiles: [['two', 110]], probes: ['inject.foreign', 'blockAccepted'], rule: W + ' Two channels share the ledger contract, the participants\' keys and the network. Non-trivial: traffic of one channel reached the other.' },
    P19: { profiles: [['clock', 75]], probes: ['clockCorrected'], rule: W + ' Non-trivial: a machine clock was off by more than 2.5 seconds from the ledger.' },
    P22: { profiles: [['enforce', 90]], probes: ['enforcedVotes'], rule: W + ' Non-trivial: a state that rests on blocks not signed by everybody was tried on the ledger.' },
    P23: { profiles: [['restart', 110]], probes: ['restarted'], rule: W + ' Non-trivial: a participant was stopped and started again.' },
    P25: { profiles: [['dispose', 105]], probes: ['disposed'], rule: W + ' Non-trivial: a participant was disposed of and looked at afterwards.' },
    P11: L('P11', 0, ['ref.P11', 'disputeCompared'], 'evidence was judged by the ledger', [['byz', 12, 1500]]),
    P12: L('P12', 500, ['ref.P12', 'disputeCompared'], 'a chain of blocks was submitted to the ledger'),
    P13: L('P13', 1000, ['ref.P13', 'disputeCompared'], 'a dispute was created, challenged or refused'),
    P14: L('P14', 1500, ['ref.P14', 'disputeCompared'], 'a timeout was claimed or contested'),
    P20: L('P20', 2000, ['accepted.openChannel', 'ref.P20'], 'an opening was accepted or refused'),
    P21: L('P21', 2500, ['accepted.postBlockCalldata', 'ref.P21'], 'a block was posted to the ledger or refused'),
    P24: L('P24', 3000, ['ref.P24', 'accepted.joinChannelWithAgreement', 'accepted.leaveChannelWithAgreement'], 'a change of membership was accepted or refused')
};
// Rules that several properties promise: the property a profile exists for is broken too when one of them fails there.
const HOME = { calm: 'P06', lossy: 'P07', crash: 'P08', byz: 'P10', race: 'P10', twice: 'P10', hostile: 'P05', local: 'P16', two: 'P18', enforce: 'P22', dispose: 'P25' };
const SHARED = /^(P05\/(stuck|hang|runaway|unhandled)|P16\/callsVsBlocks|P02\/.*|P09\/.*|P01\/.*)$/;
function concerns(prop, v, profile) {
    if (v.prop === prop || (v.also && v.also.includes(prop))) return true;
    if (prop === 'P19' && /^clock/.test(profile)) return true; // these runs differ from undisturbed ones only in their clocks
    if (prop === 'P23' && profile === 'restart') return true; // and these only in restarts
    if (prop === 'P04' && profile === 'byz:forge' && v.rule === 'callsVsBlocks') return true; // it took a block in its own name that it never made
    return SHARED.test(v.prop + '/' + v.rule) && HOME[String(profile || '').split(':')[0]] === prop;
}
module.exports = { SPECS, concerns };
