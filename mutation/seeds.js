'use strict';
// The planted bugs kept in /verif/seeded: id -> { property, needs, breaks, edits: [file, old, new, ...], lib }
const D = 'contracts/V1/StateChannelDiamondProxy/DisputeManagerFacet.sol', C = 'contracts/V1/StateChannelDiamondProxy/StateChannelCommon.sol', U = 'contracts/V1/StateChannelDiamondProxy/StateChannelUtilLibrary.sol', X = 'contracts/V1/examples/MathStateMachine/MathStateChannelManagerProxy.sol';
const S = (x) => 'src/' + x + '.ts';
module.exports = {
    'queue-drop': { property: 'P06', lib: 'sdk', needs: 'two blocks of the same fork received ahead of their turn, at different heights', breaks: 'taking the blocks of one height out of the queue throws away the queued blocks of every other height of that fork, so a block that arrived early is lost for good', edits: [S('agreementManager/QueueService'), '        const signedBlocks = Array.from(txMap.values());\n        heightMap.delete(height);', '        const signedBlocks = Array.from(txMap.values());\n        this.blockQ.delete(forkCnt);'] },
    'same-result': { property: 'P10', lib: 'sdk', needs: 'a participant signs two different blocks at one height that lead to the same state (same move, another timestamp)', breaks: 'two conflicting blocks with the same resulting state are not recognised as a double signature, so no proof of the fraud can be made', edits: [S('agreementManager/AgreementManager'), 'BlockUtils.areBlocksEqual(agreement.block, block) ||\n            BlockUtils.getBlockAuthor(agreement.block) !==', 'agreement.block.stateHash === block.stateHash ||\n            BlockUtils.getBlockAuthor(agreement.block) !=='] },
    'second-as-first': { property: 'P10', lib: 'sdk', needs: 'the incorrect block is the second block of a fork', breaks: 'the evidence against an incorrect second block is built on the genesis state and is rejected by the ledger, so the cheater is never removed', edits: [S('ProofManager'), 'const isGenesisBlock = transactionCnt <= 0;', 'const isGenesisBlock = transactionCnt <= 1;'] },
    'fold-defence': { property: 'P09', lib: 'sdk', needs: 'a dispute claims a timeout of a participant whose block everybody has signed', breaks: 'only the accused itself defends against a false timeout, and it cannot when it is offline or its challenge comes late; everybody else holding the proof stays silent', edits: [S('DisputeHandler'), 'if (dispute.timedoutParticipant !== ethers.ZeroAddress) {', 'if (dispute.timedoutParticipant === this.signerAddress) {'] },
    'post-threshold': { property: 'P07', lib: 'sdk', needs: 'three or more participants, a block signed by some of them but not by all', breaks: 'the author of a block that one participant has not confirmed does not post it to the ledger, so it can be blamed for a timeout although it moved in time', edits: [S('stateManager/StateManager'), 'if (!this.agreementManager.didEveryoneSignBlock(block)) {', 'if (this.agreementManager.getSigantures(block).length < 2) {'] },
    'all-channels': { property: 'P18', lib: 'sdk', needs: 'two channels on one ledger contract', breaks: 'a participant takes the state updates of every channel for updates of its own', edits: [S('StateChannelEventListener'), 'this.stateChannelManagerContract.filters.SetState(channelId);', 'this.stateChannelManagerContract.filters.SetState();'] },
    'early-posting': { property: 'P07', lib: 'sdk', needs: 'a block is posted to the ledger before the receiver has its predecessor', breaks: 'a block read from the ledger ahead of its turn is dropped and, as it is never sent again, the channel stops', edits: [S('agreementManager/OnChainTracker'), 'if (flag === AgreementFlag.READY || flag === AgreementFlag.NOT_READY) {', 'if (flag === AgreementFlag.READY) {'] },
    'mutex-gap': { property: 'P16', lib: 'sdk', needs: 'three calls at the same time: one holds the lock, one waits, a third asks right after the hand-over', breaks: 'the lock is free for a moment while it is handed over, so two steps run at the same time', edits: [S('utils/Mutex'), 'if (this.queue.length > 0) {', 'this.isLocked = false;\n        if (this.queue.length > 0) {'] },
    'late-block': { property: 'P04', lib: 'sdk', needs: 'a block whose time is a few seconds past the time its author had', breaks: 'blocks that come up to five seconds after the time allowed are accepted and signed', edits: [S('stateManager/ValidationService'), 'if (blockTimestamp > updatedReferenceTime + this.timeCfg.p2pTime)', 'if (\n                blockTimestamp >\n                updatedReferenceTime +\n                    this.timeCfg.p2pTime +\n                    this.timeCfg.agreementTime\n            )'] },
    'rejected-events': { property: 'P17', lib: 'sdk', needs: 'a block with a valid move and a wrong resulting state', breaks: 'the application is told about the move of a block that is refused', edits: [S('stateManager/ValidationService'), '        const encodedState = await this.stateMachine.getState();\n        const stateHash', '        if (txOK)\n            scheduleTask(successCallback, 0, "stateTransitionSuccessCallback");\n        const encodedState = await this.stateMachine.getState();\n        const stateHash', '        scheduleTask(successCallback, 0, "stateTransitionSuccessCallback");\n        return success();', '        return success();'] },
    'swapped-author': { property: 'P04', lib: 'sdk', needs: 'a block in the name of one participant signed by another one', breaks: 'a block is accepted with the signature of any participant, not only of the author it names', edits: [S('stateManager/ValidationService'), 'return signer === BlockUtils.getBlockAuthor(block);', 'return (\n            signer === BlockUtils.getBlockAuthor(block) ||\n            this.agreementManager.isParticipantInLatestFork(signer)\n        );'] },
    'one-proof': { property: 'P10', lib: 'sdk', needs: 'two participants cheat on the same fork and somebody else opens the dispute first', breaks: 'only the last piece of evidence about a fork is kept, so the first cheater stays', edits: [S('DisputeHandler'), 'const proofs = this.localProofs.get(forkCnt) || [];', 'const proofs: ProofStruct[] = [];'] },
    'shared-forks': { property: 'P18', lib: 'sdk', needs: 'one program that takes part in two channels, and a dispute in one of them', breaks: 'forks under dispute are noted for all channels of a program together, so a dispute in one channel stops the other', edits: [S('DisputeHandler'), '    disputedForks: Map<ForkCnt, boolean> = new Map();', '    private static noted: Map<ForkCnt, boolean> = new Map();\n    disputedForks: Map<ForkCnt, boolean> = DisputeHandler.noted;'] },
    'late-answer': { property: 'P15', lib: 'sdk', needs: 'an answer to the challenge that carries a time well before the challenge', breaks: 'an answer with a time in the past is taken for a fresh one', edits: [S('rpc/services/InitHandshakeService'), 'Math.abs(responseTime - challenge.initTime) >', 'responseTime - challenge.initTime >'] },
    'unlocked-signing': { property: 'P16', lib: 'sdk', needs: 'a second call while the signature of the first one takes time', breaks: 'the lock is let go while a block is being signed, so another call or block gets in between', edits: [S('stateManager/StateManager'), '            const signedBlock = await this.signBlock(block);\n', '            this.mutex.unlock();\n            const signedBlock = await this.signBlock(block);\n            await this.mutex.lock();\n'] },
    'one-vote-kept': { property: 'P06', lib: 'sdk', needs: 'three or more participants, two confirmations that arrive before their block', breaks: 'of the confirmations that arrive before their block only one is kept', edits: [S('agreementManager/QueueService'), '        const confirmationSigner = EvmUtils.retrieveSignerAddressBlock(\n            block,\n            blockConfirmation.confirmationSignature\n        );', '        const confirmationSigner = BlockUtils.getBlockAuthor(block);'] },
    'first-dispute-only': { property: 'P08', lib: 'sdk', needs: 'two disputes one after the other, on two forks', breaks: 'after its first dispute a participant never opens another one', edits: [S('DisputeHandler'), 'const _dispute = this.disputes.get(forkCntNumber);', 'const _dispute = this.disputes.size > 0;'] },
    'stuck-lock': { property: 'P05', lib: 'sdk', needs: 'a failing ledger call, or a malformed block, while a block is checked', breaks: 'the lock is kept when the check of a block fails, and the participant does nothing any more', edits: [S('stateManager/StateManager'), '        try {\n            const result = await this.validationService.validateSignedBlock(\n                signedBlock,\n                decodedBlock\n            );\n', '        const result = await this.validationService.validateSignedBlock(\n            signedBlock,\n            decodedBlock\n        );\n        try {'] },
    'busy-clock': { property: 'P19', lib: 'sdk', needs: 'a ledger with a hundred blocks or more', breaks: 'the time between blocks is not divided by their number, so a large error of the machine\'s clock is not corrected', edits: [S('Clock'), '(latestTimestamp - pastTimestamp) / blockCnt', 'blockCnt && latestTimestamp - pastTimestamp'] },
    'dup-votes': { property: 'P12', lib: 'ledger', needs: 'a chain of blocks in which a participant\'s signature occurs again after somebody else\'s', breaks: 'the same signer is counted several times, so a state is taken as final without everybody\'s signature', edits: [U, 'if (set[i] == adr) return currentSetLength;', 'if (i + 1 == currentSetLength && set[i] == adr)\n                return currentSetLength;'] },
    'cancel-same': { property: 'P14', lib: 'ledger', needs: 'a dispute with a timeout is challenged with a double signature at the very height that timed out', breaks: 'evidence at the height of the timeout, not only before it, cancels the timeout', edits: [D, 'if (successfulProofTransactionCnt < dispute.foldedTransactionCnt) {', 'if (successfulProofTransactionCnt <= dispute.foldedTransactionCnt) {'] },
    'old-genesis': { property: 'P14', lib: 'ledger', needs: 'a second fork (after a dispute) and a timeout claimed on its first block', breaks: 'the waiting time of a new fork is counted from the start of the fork before it, so a participant is removed before it had time to move', edits: [C, 'genesisTimestamps[channelId][newForkCnt] = block.timestamp;', 'genesisTimestamps[channelId][newForkCnt] = newForkCnt > 1\n            ? genesisTimestamps[channelId][newForkCnt - 1]\n            : block.timestamp;'] },
    'first-too-old': { property: 'P11', lib: 'ledger', needs: 'the first block of a fork carries a time before the fork began', breaks: 'a first block from before the start of its fork is not judged incorrect', edits: [D, 'previousTimestamp = getGenesisTimestamp(\n                dispute.channelId,\n                dispute.forkCnt\n            );', 'previousTimestamp = block2.transaction.header.timestamp <\n                getGenesisTimestamp(dispute.channelId, dispute.forkCnt)\n                ? block2.transaction.header.timestamp\n                : getGenesisTimestamp(dispute.channelId, dispute.forkCnt);'] },
    'any-fold': { property: 'P14', lib: 'ledger', needs: 'a timeout is challenged with a block that everybody signed, but of another height', breaks: 'any earlier agreed block cancels a justified timeout and gets the honest disputer punished', edits: [D, '            _block.transaction.header.transactionCnt ==\n                dispute.foldedTransactionCnt,\n            ErrorTransactionCountMismatch()', '            _block.transaction.header.transactionCnt <=\n                dispute.foldedTransactionCnt,\n            ErrorTransactionCountMismatch()'] },
    'open-again': { property: 'P20', lib: 'ledger', needs: 'an opening of a channel that has already had a dispute', breaks: 'a channel in use can be opened again once it has left its first fork', edits: [X, '!isChannelOpen(channelId),', '!isChannelOpen(channelId) || latestFork[channelId] != 0,'] },
    'short-challenge': { property: 'P13', lib: 'ledger', needs: 'a challenge close to the end of the challenge period, followed by another one', breaks: 'a challenge does not open a new period, so a last-moment lie cannot be challenged any more', edits: [D, 'dispute.deadlineTimestamp = block.timestamp + getChallengeTime();\n        dispute.challengeCnt++;', 'if (dispute.challengeCnt > 0)\n            dispute.deadlineTimestamp = block.timestamp + getChallengeTime();\n        dispute.challengeCnt++;'] },
    'last-posting': { property: 'P21', lib: 'ledger', needs: 'several postings of which the last concerns a higher block than asked for', breaks: 'the time of the latest relevant posting is lost when a later posting concerns a higher block', edits: [C, '                key.transactionCnt <= maxTransactionCnt\n            ) {', '                key.transactionCnt <= maxTransactionCnt &&\n                forkDataAvailability\n                    .keys[forkDataAvailability.keys.length - 1]\n                    .transactionCnt <=\n                maxTransactionCnt\n            ) {'] },
    'lost-exit': { property: 'P24', lib: 'ledger', needs: 'a dispute that slashes one participant and times another out', breaks: 'the exit of a slashed participant is overwritten by the one of the participant that timed out', edits: [D, '            for (uint i = 0; i < successCnt; i++)\n                dispute.processExits.push(processExits[i]);\n        }\n        dispute.encodedLatestCorrectState', '            if (successCnt > 0) delete dispute.processExits;\n            for (uint i = 0; i < successCnt; i++)\n                dispute.processExits.push(processExits[i]);\n        }\n        dispute.encodedLatestCorrectState'] },
    'known-stranger': { property: 'P23', lib: 'sdk', needs: 'a peer whose connection was lost, or whose program was started again, connects a second time', breaks: 'a peer that was known before is taken for a duplicate and turned away when it comes back', edits: [S('rpc/services/InitHandshakeService'), '            this.mainRpcService.p2pManager.profileManager.updateTransport(\n                profile.getEvmAddress().toString(),\n                senderTransport\n            );', '            this.mainRpcService.p2pManager.removeConnection(senderTransport);\n            return;'] },
    'hidden-one': { property: 'P01', lib: 'sdk', needs: 'a dispute that leaves out exactly the last block its author has signed', breaks: 'the evidence of a newer state is only given if more than one block is left out, so the last agreed block can be undone', edits: [S('ProofManager'), 'if (currentTransactionCnt >= blockTransactionCnt) return undefined;', 'if (currentTransactionCnt + 1 >= blockTransactionCnt) return undefined;'] },
    'kept-result': { property: 'P02', lib: 'sdk', needs: 'a block with a valid move and the right result that names a wrong previous state', breaks: 'the result of a refused block is kept as the state', edits: [S('stateManager/ValidationService'), '            stateHash === block.stateHash &&\n            previousStateHash === block.previousStateHash;', '            stateHash === block.stateHash;', '        this.agreementManager.addBlock(\n            block,\n            signed.signature as SignatureLike,\n            encodedState', '        if (previousStateHash !== block.previousStateHash)\n            return dispute(AgreementFlag.INCORRECT_DATA);\n\n        this.agreementManager.addBlock(\n            block,\n            signed.signature as SignatureLike,\n            encodedState'] },
    'skipped-peer': { property: 'P25', lib: 'sdk', needs: 'two or more connections that are open when the participant is disposed of', breaks: 'every second connection stays open, because the list is changed while it is being walked through', edits: [S('P2PManager'), '        this.openConnections = this.openConnections.filter(\n            (t) => t !== transport\n        );', '        const index = this.openConnections.indexOf(transport);\n        if (index >= 0) this.openConnections.splice(index, 1);'] },
    'kept-watch': { property: 'P25', lib: 'sdk', needs: 'disposing in the middle of a dispute, and another dispute later', breaks: 'a participant disposed of during a dispute goes on listening to the disputes of the channel', edits: [S('StateChannelEventListener'), '        if (this.disputeUpdateFilter)\n            this.stateChannelManagerContract.off(this.disputeUpdateFilter);\n    }', '        if (\n            this.disputeUpdateFilter &&\n            !this.stateManager.disputeHandler.isForkDisputed(\n                this.stateManager.getForkCnt()\n            )\n        )\n            this.stateChannelManagerContract.off(this.disputeUpdateFilter);\n    }'] },
};
