'use strict';
// The properties and what is said about their checks. `node sim/props.js` writes properties.jsonl and MANIFEST.json from it.
const fs = require('fs');
const path = require('path');
const SDK = { am: 'src/agreementManager/AgreementManager.ts', bv: 'src/agreementManager/BlockValidator.ts', fs: 'src/agreementManager/ForkService.ts', qs: 'src/agreementManager/QueueService.ts', oc: 'src/agreementManager/OnChainTracker.ts', sg: 'src/agreementManager/SignatureService.ts', sm: 'src/stateManager/StateManager.ts', vs: 'src/stateManager/ValidationService.ts', ed: 'src/stateManager/processExecutionDecisionHandlers.ts', cd: 'src/stateManager/processConfirmationDecisionHandlers.ts', dh: 'src/DisputeHandler.ts', el: 'src/StateChannelEventListener.ts', pm: 'src/P2PManager.ts', hs: 'src/rpc/services/InitHandshakeService.ts', st: 'src/rpc/services/StateTransitionService.ts', mr: 'src/rpc/MainRpcService.ts', rh: 'src/rpc/RpcHandler.ts', rp: 'src/rpc/RpcProxy.ts', ht: 'src/transport/HolepunchTransport.ts', hp: 'src/Holepunch.ts', es: 'src/evm/EvmStateMachine.ts', ps: 'src/evm/P2pSigner.ts', ck: 'src/Clock.ts', pf: 'src/ProfileManager.ts', pr: 'src/ProofManager.ts', eu: 'src/utils/EvmUtils.ts', rt: 'src/utils/retry.ts', mx: 'src/utils/Mutex.ts', as: 'src/AStateMachine.ts' };
const SOL = { df: 'contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', px: 'contracts/V1/StateChannelDiamondProxy/AStateChannelManagerProxy.sol', cm: 'contracts/V1/StateChannelDiamondProxy/StateChannelCommon.sol', ul: 'contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol', st: 'contracts/V1/StateChannelDiamondProxy/StateChannelManagerStorage.sol', as: 'contracts/V1/AStateMachine.sol', mm: 'contracts/V1/examples/MathStateMachine/MathStateMachine.sol', mp: 'contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol' };
const P = [];
const p = (id, title, statement, over, text, why, files, mechanism, observe, note, extra = {}) => P.push({ id, title, statement, quantifier: { over, text }, why_tests_cant: why, anchors: { files, mechanism: mechanism.map(([name, where]) => ({ name, where })), observe_at: observe, hook_needed: null, ...(extra.state ? { state: extra.state } : {}) }, note, ...extra.level ? { level: extra.level } : {} });

p('P01', 'What everyone signed is final: agreement and permanence',
    'Two honest participants never hold two different blocks that both carry every participant\'s signature for the same position. Once a running honest participant holds a block with everyone\'s signature, no dispute that participant can answer in time ends with the ledger enforcing a state that leaves that block out or replaces it.',
    ['schedules', 'histories', 'fault_sequences'], 'every schedule of messages, ledger events and timers, every cheating participant (roll-back disputes, false timeouts, double proposals), crashes and lost messages; 2 to 5 participants',
    'The tests run one or two fixed exchanges between cooperating nodes and check disputes one call at a time; the guarantee is about every interleaving of a dispute with the exchange, and about an adversary who chooses its moment.',
    [SDK.am, SDK.dh, SDK.sm, SOL.df], [['signature collection per block and position', SDK.am], ['challenge with the newer state', SDK.dh], ['a later finalized block is required to challenge', SOL.df]], ['blocks and signatures held by each honest participant', 'dispute and state events of the ledger'],
    'Whole deployments are simulated; the fully signed frontier is read from the participants and verified against signatures seen, and compared with what the ledger settled.');
p('P02', 'Local state is always the replay of the accepted blocks',
    'Whenever a participant is between two steps, the application state it serves equals the replay, from the state the ledger recorded for the current fork, of exactly the blocks it has accepted. Accepted blocks and forks are never dropped or replaced, whatever fails in between.',
    ['schedules', 'histories', 'fault_sequences', 'inputs'], 'every interleaving of local calls, received blocks, confirmations and ledger events, with failing signing, failing ledger reads, reverting transactions and hostile messages',
    'Unit tests check the result of single calls without concurrency or failure in the middle; the replay equality must survive every interleaving of asynchronous steps.',
    [SDK.sm, SDK.es, SDK.fs, SDK.am], [['one step at a time under a lock', SDK.sm], ['state rolled back when a transaction does not become a block', SDK.sm]], ['live application state vs. replay by an independent model after every event'],
    'An independent model replays every accepted block; the live state is compared after every simulator event at which the participant is at rest.');
p('P03', 'No equivocation: one position, one signed block',
    'An honest participant never lets a signature leave it for two different blocks of the same channel, fork and height, not even when signing, sending or the ledger fails, calls overlap, or others send it conflicting blocks. What it signs during connection setup cannot be used as a signature on a block.',
    ['schedules', 'histories', 'fault_sequences', 'inputs'], 'all overlaps of own calls with received blocks, failing and slow signing, conflicting proposals, adversarial handshake challenges',
    'Tests sign each block once in a fixed order; equivocation comes from overlaps, retries after a failure, and chosen challenges.',
    [SDK.sm, SDK.am, SDK.hs, SDK.ed], [['lock around creating and accepting blocks', SDK.sm], ['position already taken check', SDK.am], ['handshake challenge has its own domain', SDK.hs]], ['every message and transaction leaving an honest participant'],
    'Everything that leaves an honest participant is inspected and signatures are recovered, so equivocation is seen wherever it escapes.');
p('P04', 'Only legal blocks are accepted or signed',
    'A block an honest participant accepts or signs is for its channel, current fork and next height, signed by the participant whose turn it is, linked to the previous state, allowed by the application with exactly the claimed result, not older than its predecessor and not further ahead in time than allowed. No message, local failure or ledger event makes it accept or sign anything else.',
    ['inputs', 'schedules', 'fault_sequences'], 'all malformed, forged, stale, replayed, reordered and cross-channel messages at any moment; all cheating proposals',
    'The tests try a few invalid blocks against isolated validators; acceptance depends on all validations in combination with the state at that moment.',
    [SDK.bv, SDK.vs, SDK.sm, SDK.am, SDK.ed], [['block validation', SDK.bv], ['validation decisions', SDK.vs], ['execution in the participant\'s own EVM', SDK.es]], ['every newly accepted block and every released signature, judged by an independent model'],
    'Each accepted block and each released signature is judged by an independent model of legality.');
p('P05', 'No message, event or failure wedges or crashes a participant',
    'Whatever a peer, an outsider, the ledger or a failing service delivers (malformed or hostile messages, failing broadcasts to one peer, rejected transactions, late or repeated events), an honest participant neither dies of an unhandled error nor remains stuck in a step, and it keeps processing later valid traffic. The amount of work it does in response stays bounded.',
    ['inputs', 'schedules', 'fault_sequences'], 'arbitrary bytes and structured hostile messages at any time, failing signing, ledger calls and sends, severed connections, concurrent local calls',
    'Tests send well-formed messages over a local transport; a missing catch or a lock left behind shows only for particular input at a particular moment.',
    [SDK.rh, SDK.mr, SDK.sm, SDK.pm, SDK.ht, SDK.dh, SDK.mx], [['message dispatch', SDK.rh], ['step lock released in every outcome', SDK.sm], ['per-connection error isolation', SDK.ht]], ['unhandled errors', 'locks held at the end of a run', 'event count'],
    'Unhandled errors, locks held at the end and event storms are checked in every run; hostile messages are injected at random moments.');
p('P06', 'Timely delivery in any order converges without the ledger',
    'When every participant is live and messages arrive in time, all participants end with the same chain and every block carries everyone\'s signature, whatever the order in which messages of different peers, duplicates and ledger events arrive. No transaction on the ledger is used for it, and each participant keeps making progress within a bounded time.',
    ['schedules', 'histories'], 'all delivery orders across links, duplicates and delays within the agreement time; early confirmations and future blocks; 2 to 5 participants',
    'Tests deliver in one order over an in-process transport; convergence must hold for every order, including confirmations that overtake blocks.',
    [SDK.am, SDK.qs, SDK.sm, SDK.cd, SDK.ed, SDK.st], [['queues for future blocks and early confirmations', SDK.qs], ['confirmations counted per block', SDK.sg]], ['final chains and signature sets of all participants', 'transactions sent'],
    'Bounded-delay networks with reordering and duplicates; final agreement, absence of ledger use and bounded gaps are required.');
p('P07', 'Lost messages are repaired through the ledger',
    'When messages are lost, peers are cut off from each other or connections break while the ledger stays reachable, honest participants that act in time still make progress within a bounded time by posting the missing block on the ledger. They agree on the resulting chain, and nobody who acted in time is removed for the network\'s fault.',
    ['schedules', 'fault_sequences'], 'loss, partitions (partial, one-way and complete), severed and failing connections, slow inclusion and late ledger events within the stated bounds',
    'Tests have no lossy network; the fallback depends on timers racing with late messages and ledger events.',
    [SDK.sm, SDK.am, SDK.oc, SDK.dh, SDK.el], [['posting a block when confirmations are missing', SDK.sm], ['blocks taken from the ledger', SDK.el]], ['progress gaps', 'final chains', 'disputes'],
    'Losses, partitions and severed links are injected; progress gaps are bounded and the final chains compared.');
p('P08', 'A silent participant is removed and the channel continues',
    'When a participant stops for good while it is its turn, the others get it removed through the ledger within a bounded time and continue among themselves from the latest state; this also holds when several stop. A participant that stopped when it was not its turn does not hold up the others before its turn comes.',
    ['crash_points', 'schedules', 'fault_sequences'], 'crash of any participants at any event, before, during and after authoring or confirming a block, also combined with slow nodes and late ledger events',
    'Tests check one timeout on the contract and never let a node vanish in the middle of an exchange.',
    [SDK.dh, SDK.sm, SDK.oc, SDK.el, SOL.df], [['timeout timers and disputes', SDK.dh], ['timeout rule on the ledger', SOL.df]], ['participants on the ledger', 'waiting times of the live participants'],
    'Participants are crashed at arbitrary events; the wait of the others for a silent participant and the following progress are bounded.');
p('P09', 'Whoever is honest and in time is never removed or slashed',
    'A participant that runs the software unmodified, stays up and makes its moves in time is never slashed or removed as timed out, whatever other participants claim, post or withhold and however messages and ledger events are delayed within the bounds.',
    ['schedules', 'fault_sequences', 'histories', 'inputs'], 'all cheating behaviours implemented (false timeouts, roll-backs, forged and stale proofs, withheld blocks), loss and delay within the bounds',
    'Tests never combine an adversarial dispute with live honest nodes that must defend themselves in time.',
    [SDK.dh, SDK.sm, SDK.el, SOL.df], [['challenging false claims', SDK.dh], ['posting blocks to the ledger in time', SDK.sm], ['proof rules', SOL.df]], ['final disputes and states on the ledger'],
    'Every final dispute of a run is inspected: no participant that was honest, up and timely may be in it.');
p('P10', 'Provable fraud costs the cheater its place',
    'A participant that publishes something provably wrong (two blocks for one position, an illegal block, an impossible timestamp, a dispute that hides a newer agreed state, a false timeout) is removed through the ledger within a bounded time as soon as one honest participant has the evidence about the fork in use (a fork under dispute is given up anyway). The honest participants then continue from the state that the legal blocks lead to.',
    ['histories', 'schedules', 'inputs'], 'each implemented fraud at any position and moment, towards some or all participants',
    'Tests check single proofs on the contract with prepared data; here the software must notice, build the proof, get it accepted and go on.',
    [SDK.dh, SDK.pr, SDK.vs, SDK.ed, SOL.df], [['building proofs', SDK.dh], ['judging proofs', SOL.df]], ['participants on the ledger', 'progress and agreement of honest participants'],
    'A participant cheats at a random moment; its removal and the convergence of the others are bounded.');
p('P11', 'The ledger punishes only those the evidence convicts',
    'The ledger slashes a participant only on evidence it carries itself: two signed blocks for one position, a signed block that breaks the rules given its predecessor, a signed newer block behind its own dispute, a signed block from the future, or a disproved timeout claim. Evidence that is forged, from another channel or fork, by outsiders, incomplete or inconsistent convicts nobody, valid evidence always convicts, and a convicted participant cannot dispute.',
    ['inputs', 'histories'], 'all sequences of transactions, valid and nearly valid, by participants and outsiders, with every kind of evidence, alone and combined',
    'The tests submit a handful of prepared proofs; the rule is about every near miss of every proof in every dispute state.',
    [SOL.df, SOL.cm, SOL.ul], [['proof handlers', SOL.df], ['signature recovery', SOL.ul]], ['stored dispute, events and outcome of every transaction'],
    'Differential comparison of every transaction with a reference model of the rules of evidence.');
p('P12', 'The ledger enforces only states backed by an unbroken signed chain',
    'The state a dispute enforces is the fork\'s first state or the result of an unbroken chain of blocks of that channel and fork, each signed by its author, starting from a state that everyone signed, minus the removed participants and plus the agreed joiners. A challenge never moves behind the position already shown to be agreed by everyone, and everything else is refused.',
    ['inputs', 'histories'], 'all chains with missing, foreign, swapped, repeated, unsigned or partially signed blocks and wrong end states; sequences of disputes and challenges',
    'Tests use one or two correct chains; soundness is about all broken ones.',
    [SOL.df, SOL.cm, SOL.ul], [['checking the chain of blocks', SOL.df]], ['stored states, forks and disputes after every transaction'],
    'Differential comparison of every transaction and of the stored states with a reference model.');
p('P13', 'Disputes follow their life cycle',
    'Per channel at most one dispute is open; it can be challenged only by its participants who are not convicted, only until its deadline, only against its current round, and every successful challenge opens a new full challenge period. After the deadline the outcome stands, a new dispute must be about the current fork, and it inherits nothing from the earlier one; every accepted dispute or challenge yields exactly one new fork with its start time.',
    ['histories', 'schedules', 'inputs'], 'all sequences and same-block orders of disputes and challenges, at and around every deadline, from any sender',
    'Tests create and challenge one dispute; life-cycle errors need sequences of disputes and exact times.',
    [SOL.df, SOL.cm, SOL.st], [['deadline and round checks', SOL.df], ['dispute storage', SOL.st]], ['stored dispute, fork counter and fork times after every transaction'],
    'Differential comparison after every transaction, with times chosen around every deadline.');
p('P14', 'Timeouts on the ledger are sound and complete',
    'The ledger times a participant out only if, by the blocks shown and posted, it was that participant\'s turn for the full waiting time after the last relevant block, start of the fork or posted block, and it had not posted its block; then it always accepts the claim of another participant. A claim is undone when a block everyone signed, or guilt that undermines the claimed position, is shown, and a skipped earlier author can be put in its place only under the same conditions.',
    ['inputs', 'histories', 'schedules'], 'all times around the boundaries, postings before and after, all claims and rechallenges, valid and nearly valid',
    'Tests try one time on each side of one boundary; the rule combines several clocks and the history of postings.',
    [SOL.df, SOL.cm], [['timeout conditions', SOL.df], ['latest posted time', SOL.cm]], ['outcome and stored dispute of every transaction'],
    'Differential comparison with a reference model, with times chosen around each boundary.');
p('P15', 'A peer is identified only by answering this connection\'s fresh challenge',
    'A participant challenges every new connection with a fresh challenge. It reports and registers a peer under an address only when that address\'s key signed the challenge of this very connection and the answer came over it in time, with a clock within the agreement time. Old, foreign, altered, malformed and late answers identify nobody and late ones end the connection. Timely challenges of others are answered, over the connection they came from only; others are not. Honest peers on an undisturbed connection recognise each other.',
    ['inputs', 'schedules', 'fault_sequences'], 'all delays, alterations, repetitions and cross-connection replays of challenges and answers, several handshakes at once with slow signing, connections that break and come back, wrong and jumping clocks',
    'Tests run a single undisturbed handshake; mix-ups need several connections in the middle of their handshakes at the same time, and answers at the edge of the time limit.',
    [SDK.hs, SDK.pm, SDK.mr, SDK.pf], [['challenge per connection', SDK.hs], ['answer sent to the asker', SDK.hs], ['registration of the peer', SDK.pf]], ['handshake messages leaving and reaching each participant', 'onConnection events'],
    'Every handshake message is judged by an independent model of the rules; what a participant reports and answers must match.');
p('P16', 'Local calls are all-or-nothing and one at a time',
    'A call by the application that succeeds is exactly one block with its arguments, in the author\'s name and turn; a call that fails or is refused leaves no block, no message and no change of state. Overlapping calls, failing signing and failing or reverting execution never lose, duplicate or mix up calls, and every call returns.',
    ['schedules', 'fault_sequences', 'inputs'], 'overlapping calls on one participant, calls overlapping received blocks and ledger events, failing and slow signing and execution',
    'Tests make one call at a time and wait for it; atomicity shows only under overlap and failure.',
    [SDK.sm, SDK.ps, SDK.es, SDK.mx], [['lock around a transaction', SDK.sm], ['roll-back on failure', SDK.sm], ['signer that turns calls into blocks', SDK.ps]], ['results of calls vs. blocks authored', 'live state'],
    'The successful calls of every participant are matched with its authored blocks, and its state with the replay.');
p('P17', 'Application events come exactly once, in the order of the blocks',
    'The application of each participant sees the events of every accepted block exactly once, with the right values and in the order of the blocks, and none of transactions that did not become part of its chain. This holds for blocks from peers, from the ledger and its own, and across forks.',
    ['schedules', 'histories', 'fault_sequences'], 'all orders of blocks, confirmations, ledger events and failing local calls',
    'Tests look at single emitted events; order and uniqueness depend on the interleaving of execution, roll-back and forks.',
    [SDK.es, SDK.sm, SDK.el], [['event emission after a block is accepted', SDK.sm]], ['event stream seen by the application vs. accepted blocks'],
    'The event stream of each participant is compared with its accepted blocks at the end of every run.');
p('P18', 'Channels do not influence each other',
    'Traffic, blocks, confirmations, ledger events and disputes of one channel have no effect on another channel, even when the same people use both over the same contract, network and keys. A participant never accepts, signs or reports something of another channel.',
    ['inputs', 'schedules', 'histories'], 'two channels of the same participants running side by side, with messages of one replayed into the other at any moment and disputes in one',
    'Tests run a single channel.',
    [SDK.el, SDK.sm, SDK.bv, SDK.es, SOL.st], [['channel filter on ledger events', SDK.el], ['channel check on blocks', SDK.bv], ['storage per channel', SOL.st]], ['accepted blocks, signatures and application events of both channels'],
    'Two channels with the same keys run side by side; replayed traffic of one is fed to the other; every rule of the other properties is checked in each.');
p('P19', 'Every participant works with the ledger\'s time',
    'Once set up, the time a participant works with differs from the ledger\'s by no more than the ledger\'s own granularity (two average block times, one block and the time a read takes), however far and in whichever direction its machine\'s clock is off and however young the ledger is. All other guarantees hold under such clocks: participants with wrong machine clocks recognise each other, accept each other\'s blocks, and nobody is timed out or convicted because of them.',
    ['inputs', 'schedules', 'histories'], 'machine clocks off by seconds to years in both directions, ledgers with few and many blocks and different block times, ledger time far from everybody\'s',
    'Tests run all participants and the ledger on one machine with one clock.',
    [SDK.ck, SDK.vs, SDK.ps, SDK.sm], [['clock correction at start', SDK.ck], ['block times', SDK.ps], ['timeouts', SDK.sm]], ['the participant\'s time vs. the ledger\'s', 'progress, removals and transactions'],
    'Participants start with wrong clocks; their time is compared with the ledger\'s, and whole runs with the bounds of undisturbed ones.');
p('P20', 'A channel opens once, with everyone\'s consent',
    'The ledger opens a channel only if every listed participant signed its own entry for exactly this channel, with a deposit, and no entry is past its deadline; the first state lists exactly those participants. A channel that is open cannot be opened again, and its first state is recorded with the time of opening.',
    ['inputs', 'histories'], 'all openings with missing, foreign, swapped, malformed, expired or repeated consents, by any sender, before and after the channel was opened or used',
    'Tests open a channel with correct consents.',
    [SOL.px, SOL.cm, SOL.ul, SOL.mp], [['opening', SOL.px], ['consent checks of the application', SOL.mp]], ['outcome, events and stored state of every transaction'],
    'Differential comparison with a reference model.');
p('P21', 'Blocks posted on the ledger are authentic and timely',
    'The ledger records a posted block only if its author sent and signed it and its time is neither in the future nor older than the waiting time; it keeps for each position and author exactly what was posted and when. The latest posting time it reports for a chain up to a position is the latest of exactly the postings of that fork up to that position, and what is recorded for one channel, fork or author never shows for another.',
    ['inputs', 'histories', 'schedules'], 'all posts with wrong sender, signer, channel, fork, height and times at every boundary, in any sequence',
    'Tests post one block.',
    [SOL.cm, SOL.df, SOL.px], [['posting', SOL.px], ['posting times', SOL.cm]], ['outcome, events and stored postings after every transaction'],
    'Differential comparison with a reference model, including the reported times for all relevant positions.');
p('P22', 'What a participant holds can be enforced on the ledger at any time',
    'At any moment at rest, whatever signatures are missing and whatever was lost or disputed before, what an honest participant would send to the ledger (its newest agreed state, its latest state and the signed blocks in between) is accepted by the ledger if there is a ground for a dispute, within the limits of a transaction, and the outcome is its latest state without those removed.',
    ['histories', 'schedules', 'fault_sequences'], 'all moments of all runs: undisturbed, lossy, with crashes, hostile messages, failing calls and cheating participants, on first and later forks',
    'The software builds what it sends from its history and the contract judges it by its own rules; tests check each side with prepared data.',
    [SDK.am, SDK.fs, SDK.dh, SOL.df], [['collecting the signed blocks', SDK.am], ['checking them', SOL.df]], ['the ledger\'s verdict on a trial transaction and its outcome'],
    'At random moments the transaction is tried on a copy of the ledger and the outcome compared with the participant\'s state.');
p('P23', 'Restarts never contradict the past and harm nobody',
    'A participant whose program stops at any point and is started again has nothing but its key and the ledger. It never signs a second block for a position it signed before, starts no fork other than the ledger\'s, fails on nothing it meets, and does not disturb the others, who recognise it again or remove it like anybody silent and go on. If it was back before the channel opened, it takes part like everybody else.',
    ['crash_points', 'schedules', 'fault_sequences'], 'stops and restarts of one or several participants, repeatedly, at any event: during set-up and the handshakes, around the opening, while authoring, confirming, posting, timing out and disputing; short and long absences, with calls of the user right afterwards',
    'No test ever restarts a participant; what a program without memory does depends on where exactly the old one stopped and what reaches the new one.',
    [SDK.sm, SDK.am, SDK.fs, SDK.el, SDK.pm, SDK.hs, SDK.dh], [['forks are taken up in the ledger\'s order only', SDK.fs], ['blocks of unknown forks are kept and not signed', SDK.bv], ['a peer that comes back is a new connection', SDK.pm]], ['signatures over all lives of a participant', 'unhandled errors', 'progress, removals and chains of the others'],
    'Participants are stopped and restarted at arbitrary events; what they sign is compared across their lives and the others are held to the bounds of a silent participant, or, after a restart before the opening, of an undisturbed run.');
p('P24', 'Membership and money change only with everyone\'s agreement, exactly once',
    'Participants join or leave an open channel, and exits are paid, only as everyone agreed on the current state of the current fork before the deadline, or through a settled dispute; each exit and deposit is processed exactly once and with the right amount. Nothing else changes membership, and the steps of settling are not callable from outside.',
    ['inputs', 'histories', 'schedules'], 'all joins, leaves and disputes with joins, valid and nearly valid, interleaved with disputes whose exits are pending, and direct calls of inner steps by anybody',
    'Tests do not cover agreed joins and leaves; the example application refuses them.',
    [SOL.px, SOL.df, SOL.cm, SOL.as], [['agreed join and leave', SOL.px], ['pending exits', SOL.df]], ['outcome, payouts and deposits, stored state and dispute'],
    'Differential comparison with a reference model, using an application that keeps balances.');
p('P25', 'Disposing of a participant ends everything it does',
    'Once a participant\'s instance is disposed of, at whatever moment, and the steps already begun have ended, it sends nothing to peers and signs nothing, closes every connection (also those whose peer has not identified itself yet and those made afterwards), can no longer be found as a peer of the channel, makes no move for its user, calls no hooks, reports no events and sends nothing to the ledger. Disposing twice is harmless. The other participants are not disturbed: they remove it like anybody silent and go on, and other channels of the same program go on as before.',
    ['schedules', 'histories', 'fault_sequences'], 'disposing of one, several or all participants at any moment (while connecting, identifying peers, authoring, confirming, posting, disputing), with slow keys and machines, lost messages, connections made before, during and after, messages and ledger events still on their way, calls of the user afterwards',
    'The tests dispose of everything at their end and look at nothing afterwards; what stays alive depends on what was under way.',
    [SDK.sm, SDK.pm, SDK.hp, SDK.ht, SDK.el, 'src/evm/P2pInstance.ts', 'src/ProfileManager.ts'], [['disposed state of a participant', SDK.sm], ['closing connections', SDK.pm], ['leaving topics', SDK.hp], ['unsubscribing from the ledger', SDK.el]], ['messages, signatures, transactions, hooks and events after disposing', 'open connections and announced topics', 'progress, removals and chains of the others'],
    'Participants are disposed of at arbitrary moments; everything they still do afterwards is a violation, and the others are held to the bounds of a silent participant.');
module.exports = { P };
if (require.main === module) {
    const V = path.join(__dirname, '..');
    const { SPECS } = require('./specs');
    fs.writeFileSync(path.join(V, 'properties.jsonl'), P.map(({ note, level, ...x }) => JSON.stringify(x)).join('\n') + '\n');
    const scope = ' Seeded search, not exhaustive: what it did not reach it does not exclude. Trusts the simulator, the models and @ethereumjs/evm.';
    const m = {
        version: 1, setup_cmd: 'node sim/build.js',
        checks: P.filter((x) => SPECS[x.id]).map((x) => ({ property: x.id, quick_cmd: 'node sim/check.js --property ' + x.id, thorough_cmd: 'node sim/check.js --property ' + x.id + ' --tier thorough', evidence_file: 'evidence/' + x.id + '.json', technique: 'deterministic simulation with fault injection' + (/ledger/.test(SPECS[x.id].profiles[0][0]) ? ', compared with a reference model' : ''), level: x.level || 'exploration', level_note: x.note + scope })),
        not_applicable: P.filter((x) => !SPECS[x.id]).map((x) => ({ property: x.id, reason: x.note })),
        notes: 'No hooks in /repo: clocks, timers, randomness, network and ledger are replaced around the unmodified sources when they are bundled. Defects found are repaired in fix: commits; see known-findings.json and DESIGN.md.'
    };
    fs.writeFileSync(path.join(V, 'MANIFEST.json'), JSON.stringify(m, null, 1) + '\n');
    console.log(P.length, 'properties', m.checks.length, 'checks');
}
