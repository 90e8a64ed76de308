'use strict';
// Small changes that break a property and still compile: [id, property or properties, file, old text, new text]
const SM = 'src/stateManager/StateManager.ts', VS = 'src/stateManager/ValidationService.ts', AM = 'src/agreementManager/AgreementManager.ts', BV = 'src/agreementManager/BlockValidator.ts';
const DH = 'src/DisputeHandler.ts', PM = 'src/ProofManager.ts', OC = 'src/agreementManager/OnChainTracker.ts', QS = 'src/agreementManager/QueueService.ts', FS = 'src/agreementManager/ForkService.ts';
const PE = 'src/stateManager/processExecutionDecisionHandlers.ts', PC = 'src/stateManager/processConfirmationDecisionHandlers.ts', P2 = 'src/P2PManager.ts', SG = 'src/evm/P2pSigner.ts', EL = 'src/StateChannelEventListener.ts', CK = 'src/Clock.ts', IH = 'src/rpc/services/InitHandshakeService.ts';
module.exports = [
    ['M01', 'P01', AM, 'if (!encodedLatestCorrectState) continue;', ''],
    ['M02', 'P10', PM, 'if (currentTransactionCnt >= blockTransactionCnt) return undefined;', 'if (currentTransactionCnt + 1 >= blockTransactionCnt) return undefined;'],
    ['M03', 'P10', AM, `participantAdr: AddressLike
    ): { block: BlockStruct; signature: SignatureLike } | undefined {
        if (!this.forkService.isValidForkCnt(forkCnt)) return undefined;

        for (const agreement of this.forkService.agreementsIterator(
            forkCnt,
            Direction.BACKWARD`, `participantAdr: AddressLike
    ): { block: BlockStruct; signature: SignatureLike } | undefined {
        if (!this.forkService.isValidForkCnt(forkCnt)) return undefined;

        for (const agreement of this.forkService.agreementsIterator(
            forkCnt,
            Direction.FORWARD`],
    ['M04', 'P09', DH, 'if (dispute.timedoutParticipant !== ethers.ZeroAddress) {', 'if (dispute.timedoutParticipant === this.signerAddress) {'],
    ['M05', 'P02', SM, 'if (!this.agreementManager.isNextFork(Number(_forkCnt))) return;', ''],
    ['M06', 'P02', VS, `            await this.stateMachine.setState(previousState);
            return dispute`, `            if (!txOK) await this.stateMachine.setState(previousState);
            return dispute`],
    ['M07', 'P16', SM, `            if (rollbackState !== undefined)
                await this.stateMachine.setState(rollbackState);`, ''],
    ['M08', 'P16', SM, `            const signedBlock = await this.signBlock(block);
            // A`, `            this.mutex.unlock();
            const signedBlock = await this.signBlock(block);
            await this.mutex.lock();
            // A`],
    ['M09', 'P03', SG, `        if (
            this.p2pManager.stateManager.disputeHandler.isForkDisputed(
                Number(block.transaction.header.forkCnt)
            )
        )
            return;`, ''],
    ['M10', 'P03', SM, `            if (
                this.disputeHandler.isForkDisputed(Number(tx.header.forkCnt))
            ) {
                throw new Error("Fork is disputed");
            }`, ''],
    ['M11', 'P04', VS, 'if (blockTimestamp > updatedReferenceTime + this.timeCfg.p2pTime)', 'if (blockTimestamp > updatedReferenceTime + this.timeCfg.p2pTime + this.timeCfg.agreementTime)'],
    ['M11b', 'P04', VS, 'if (blockTimestamp < latestTxTs) return false;', 'if (blockTimestamp < latestTxTs - this.timeCfg.p2pTime) return false;'],
    ['M11c', 'P09', VS, `            const updatedReferenceTime = Math.max(
                initialReferenceTime,
                chainTs
            );`, `            const updatedReferenceTime = initialReferenceTime;`],
    ['M12', 'P04', VS, `            stateHash === block.stateHash &&
            previousStateHash === block.previousStateHash;`, 'stateHash === block.stateHash;'],
    ['M13', 'P04', VS, `        if (BlockUtils.getBlockAuthor(blk) !== nextToWrite)
            return dispute(AgreementFlag.INCORRECT_DATA);`, ''],
    ['M13b', 'P10', VS, `        if (BlockUtils.getBlockAuthor(blk) !== nextToWrite)
            return dispute(AgreementFlag.INCORRECT_DATA);`, `if (BlockUtils.getBlockAuthor(blk) !== nextToWrite)
            return disconnect();`],
    ['M14', 'P05', SM, `            return result.flag;
        } finally {
            this.mutex.unlock();
        }`, `            this.mutex.unlock();
            return result.flag;
        } finally {
        }`],
    ['M14b', 'P16', SM, `                await this.stateMachine.setState(rollbackState);
            throw e;
        } finally {
            this.mutex.unlock();
        }`, `                await this.stateMachine.setState(rollbackState);
            else this.mutex.unlock();
            throw e;
        }
        this.mutex.unlock(); return undefined as any;`, `            await this.onSuccessCommon();

            return signedBlock;
        } catch`, `            await this.onSuccessCommon();
            this.mutex.unlock();
            return signedBlock;
        } catch`],
    ['M15', 'P05,P07', P2, `            try {
                transport.send(serializedRPC);
            } catch (e) {
                console.error("broadcastRpc - send failed", e);
            }`, 'transport.send(serializedRPC);'],
    ['M17', 'P06,P07', QS, `        const confirmationSigner = EvmUtils.retrieveSignerAddressBlock(
            block,
            blockConfirmation.confirmationSignature
        );`, 'const confirmationSigner = BlockUtils.getBlockAuthor(block);'],
    ['M18', 'P06', QS, `        const signedBlocks = Array.from(txMap.values());
        heightMap.delete(height);`, `        const signedBlocks = Array.from(txMap.values());
        this.blockQ.delete(forkCnt);`],
    ['M19', 'P06', QS, `        const blockConfirmations = Array.from(txMap.values());
        heightMap.delete(height);`, `        const blockConfirmations = Array.from(txMap.values());
        this.confQ.delete(forkCnt);`],
    ['M20', 'P06', SM, 'for (let height = 0; height <= this.getNextBlockHeight(); height++)', 'for (let height = this.getNextBlockHeight(); height <= this.getNextBlockHeight(); height++)'],
    ['M21', 'P06', SM, 'for (let height = 0; height <= this.getNextBlockHeight(); height++)', 'for (let height = 0; height < this.getNextBlockHeight(); height++)'],
    ['M22', 'P07,P09', AM, 'return SetUtils.isSubset(addressesSet, signersSet);', 'return SetUtils.isSubset(signersSet, addressesSet);'],
    ['M23', 'P07', OC, 'if (flag === AgreementFlag.READY || flag === AgreementFlag.NOT_READY) {', 'if (flag === AgreementFlag.READY) {'],
    ['M24', 'P08', SM, `        if (delayTimeSeconds >= 0)
            return this.scheduleTimeout(
                forkCnt,
                transactionCnt,
                participantAdr,
                delayTimeSeconds + 1
            );`, 'if (delayTimeSeconds >= 0) return;'],
    ['M25', 'P08', SM, `            return this.scheduleTimeout(
                forkCnt,
                transactionCnt,
                participantAdr,
                this.timeConfig.agreementTime
            );
        }
        if (response.found)`, `            return;
        }
        if (response.found)`],
    ['M26', 'P10', SM, 'if (flag == AgreementFlag.DOUBLE_SIGN) {', 'if (flag == AgreementFlag.DOUBLE_SIGN && this.disputeHandler.isForkDisputed(this.getForkCnt())) {'],
    ['M27', 'P10', AM, `            !agreement ||
            BlockUtils.areBlocksEqual(agreement.block, block) ||`, `            !agreement ||
            agreement.block.stateHash === block.stateHash ||`],
    ['M28', 'P10', PM, 'const isGenesisBlock = transactionCnt <= 0;', 'const isGenesisBlock = transactionCnt <= 1;'],
    ['M29', 'P16,P03', SM, `        await this.mutex.lock();

        let rollbackState: string | undefined;
        try {
            console.log("Play Transaction", this.getForkCnt());`, `        const myTurn = await this.isMyTurn();
        await this.mutex.lock();

        let rollbackState: string | undefined;
        try {
            console.log("Play Transaction", this.getForkCnt());`, 'if (!(await this.isMyTurn())) {\n                throw new Error(\n                    `Not player', 'if (!myTurn) {\n                throw new Error(\n                    `Not player'],
    ['M30', 'P17', VS, 'scheduleTask(successCallback, 0, "stateTransitionSuccessCallback");', 'successCallback();'],
    ['M30b', 'P17', VS, 'scheduleTask(successCallback, 0, "stateTransitionSuccessCallback");', 'scheduleTask(successCallback, 5, "stateTransitionSuccessCallback");'],
    ['M30c', 'P17', 'src/evm/EvmStateMachine.ts', `                if (event && this.p2pContractInstance) {`, `                if (event && this.p2pContractInstance && log === logs[0]) {`],
    ['M30d', 'P17', VS, `        if (!txOK || !hashOK) {
            await`, `        if (!txOK || !hashOK) {
            scheduleTask(successCallback, 0, "x");
            await`],
    ['M31', 'P18', VS, 'if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;', ''],
    ['M32', 'P18', EL, 'this.stateChannelManagerContract.filters.SetState(channelId);', 'this.stateChannelManagerContract.filters.SetState();'],
    ['M32b', 'P18', EL, 'this.stateChannelManagerContract.filters.DisputeUpdated(channelId);', 'this.stateChannelManagerContract.filters.DisputeUpdated();'],
    ['M32c', 'P18', EL, `this.stateChannelManagerContract.filters.BlockCalldataPosted(
                channelId
            );`, 'this.stateChannelManagerContract.filters.BlockCalldataPosted();'],
    ['M34', 'P14,P09', OC, 'if (cb.transactionCnt > maxHeight) continue;', 'if (cb.transactionCnt >= maxHeight) continue;'],
    ['M35', 'P19', CK, 'this.clockAjustmentSeconds += difference;\n            await', 'this.clockAjustmentSeconds -= difference;\n            return; await'],
    ['M35b', 'P19', CK, 'let blockCnt = latestBlock.number >= 100 ? 100 : 0;', 'let blockCnt = latestBlock.number;'],
    ['M35c', 'P19', CK, 'if (Math.abs(difference) > 2 * averageBlockTime) {', 'if (difference > 2 * averageBlockTime) {'],
    ['M36', 'P15', IH, `            rtt >
            this.mainRpcService.p2pManager.stateManager.timeConfig.agreementTime
        ) {`, `            rtt < 0
        ) {`],
    ['M36b', 'P15', IH, 'private mapTransportToChallenge: WeakMap<ATransport, ConnectionChallenge> =\n        new WeakMap<ATransport, ConnectionChallenge>();', 'private last?: ConnectionChallenge;', 'this.mapTransportToChallenge.set(transport, challenge);', 'this.last = challenge;', 'return this.mapTransportToChallenge.get(transport);', 'return this.last;'],
    ['M36c', 'P15', IH, `        const senderTransport = this.mainRpcService.senderTransport;
        let localTime`, `        let localTime`, '.sendOne(senderTransport!);', '.sendOne(this.mainRpcService.senderTransport!);'],
    ['M37', 'P15', IH, 'Math.abs(responseTime - challenge.initTime) >', 'responseTime - challenge.initTime >'],
    ['M38', 'P08,P10', DH, 'maxRetries: 1, // C', 'maxRetries: 0, // C'],
    ['M39', 'P09,P10', DH, 'dispute.challengeCnt > existingDispute.challengeCnt', 'dispute.challengeCnt >= existingDispute.challengeCnt'],
    ['M39b', 'P09,P10', DH, '            !existingDispute ||\n            dispute.challengeCnt > existingDispute.challengeCnt', '            !existingDispute'],
    ['M40', 'P10', DH, 'if (dispute.virtualVotingBlocks.length === 0) return -1; // no block posted', 'if (dispute.virtualVotingBlocks.length === 0) return 0; // no block posted'],
    ['M41', 'P10', PM, `        const block2 = EvmUtils.decodeBlock(
            incorrectDataProof.block2.encodedBlock
        );

        return !dispute.slashedParticipants.includes(
            block2.transaction.header.participant
        );`, `        const block2 = EvmUtils.decodeBlock(
            incorrectDataProof.block1.encodedBlock
        );

        return !dispute.slashedParticipants.includes(
            block2.transaction.header.participant
        );`],
    ['M41b', 'P09', PM, 'return sameTransactionCnt && sameParticipant;', 'return sameTransactionCnt && !sameParticipant;'],
    ['M41c', 'P10', PM, 'currentTransactionCnt > latestTransactionCnt\n', 'currentTransactionCnt > latestTransactionCnt + 1\n'],
    ['M42', 'P10', DH, 'dispute.virtualVotingBlocks.at(-1)!.encodedBlock', 'dispute.virtualVotingBlocks[0].encodedBlock'],
    ['M43', 'P16,P02', 'src/utils/Mutex.ts', 'if (this.queue.length > 0) {', 'this.isLocked = false;\n        if (this.queue.length > 0) {'],
    ['M47', 'P06', 'src/ProfileManager.ts', 'if (oldTransport) this.removeTransport(oldTransport);', 'if (oldTransport) this.removeTransport(newTransport);'],
    ['M48', 'P06', P2, '(t) => t !== transport', '(t) => t === transport'],
    ['M49', 'P04', VS, 'if (!isCanonicalSignature(confirmationSig)) return disconnect();', ''],
    ['M50', 'P03,P02', VS, 'if (this.disputeHandler.isForkDisputed(forkCnt)) return notReady();', ''],
    ['M51', 'P04', VS, 'return signer === BlockUtils.getBlockAuthor(block);', 'return this.agreementManager.isParticipantInLatestFork(signer);'],
    ['M52', 'P04', VS, `        if (!this.agreementManager.isParticipantInLatestFork(confirmer))
            return disconnect();`, ''],
    ['M53', 'P02', FS, 'if (this.forks.length !== forkCnt) return;', ''],
    ['M54', 'P07', SM, 'this.timeConfig.agreementTime * 1000,\n                "maybePostBlockOnChain"', 'this.timeConfig.chainFallbackTime * 1000 * 2,\n                "maybePostBlockOnChain"'],
    ['M55', 'P07', SM, 'if (!this.agreementManager.didEveryoneSignBlock(block)) {', 'if (this.agreementManager.getSigantures(block).length < 2) {'],
    ['M56', 'P08', SM, `        this.scheduleTimeout(
            forkCnt,
            nextTransactionCnt,
            nextToWrite,
            this.getTimeoutWaitTimeSeconds()
        );`, `        if (this.isDisposed) this.scheduleTimeout(
            forkCnt,
            nextTransactionCnt,
            nextToWrite,
            this.getTimeoutWaitTimeSeconds()
        );`],
    ['M57', 'P09', SM, `        if (response.found) return;
        if (this.isTimeoutObsolete(forkCnt, transactionCnt)) return;`, `        if (this.isTimeoutObsolete(forkCnt, transactionCnt)) return;`],
    ['M58', 'P09', SM, `            this.agreementManager.getBlock(forkCnt, transactionCnt) !==
                undefined`, 'false'],
    ['M59', 'P09', SM, `            this.timeConfig.p2pTime +
            this.timeConfig.agreementTime +
            this.timeConfig.chainFallbackTime
        );`, `            this.timeConfig.p2pTime +
            this.timeConfig.agreementTime
        );`],
    ['M60', 'P16', SM, 'tx.header.transactionCnt = this.getNextBlockHeight();', ''],
    ['M61', 'P09,P16', SM, 'if (Number(tx.header.timestamp) < latestBlockTimestamp) {', 'if (Number(tx.header.timestamp) < latestBlockTimestamp - 1) {'],
    ['M62', 'P10', PE, `    [AgreementFlag.INCORRECT_DATA]: async (signedBlock, ctx) => {`, `    [AgreementFlag.INCORRECT_DATA]: async (signedBlock, ctx) => {
        if (ctx.disputeHandler.disputedForks.size > 0) return;`],
    ['M63', 'P05', PE, `        ctx.runDispute(() =>
            ctx.disputeHandler.disputeIncorrectData(signedBlock)
        );`, `        await ctx.disputeHandler.disputeIncorrectData(signedBlock);`],
    ['M64', 'P06', PE, `[ExecutionFlags.NOT_READY]: async (signedBlock, _, ctx) =>
        ctx.agreementManager.queueBlock(signedBlock),`, `[ExecutionFlags.NOT_READY]: async () => {},`],
    ['M65', 'P06', PC, `        ctx.queueConfirmation({
            originalSignedBlock,
            confirmationSignature
        });`, ''],
    ['M66', 'P06', PE, '        await ctx.onSuccessCb();', ''],
    ['M67', 'P05', VS, 'if (EvmUtils.encodeBlock(block) !== signed.encodedBlock) return false;', ''],
    ['M68', 'P05', SM, `            } catch (e) {
                console.error("tryExecuteFromQueue - block rejected", e);
            }`, '} finally {}'],
    ['M69', 'P16', SG, `        this.p2pManager.rpcProxy.onSignedBlock(signedBlock).broadcast();
`, ''],
    ['M70', 'P02', SM, 'await this.stateMachine.setState(encodedState);\n            this.agreementManager.newFork(', 'this.agreementManager.newFork('],
    ['M71', 'P08,P10', DH, `        return this.rechallengeRecursive(newDispute);
    }`, `    }`],
    ['M72', 'P06', SM, `        // Not while a block is being executed
        await this.mutex.lock();
        try {
            // A`, `        await this.mutex.lock();
        this.mutex.unlock();
        try {
            // A`, `            this.p2pEventHooks.onSetState?.();
            await this.onSuccessCommon();
        } finally {
            this.mutex.unlock();
        }`, `            this.p2pEventHooks.onSetState?.();
            await this.onSuccessCommon();
        } finally {}`],
    ['M73', 'P10', OC, `            flag === AgreementFlag.INCORRECT_DATA ||
            flag === AgreementFlag.DOUBLE_SIGN
        )`, `            flag === AgreementFlag.INCORRECT_DATA
        )`],
    ['M74', 'P07', OC, 'if (!this.hasPosted(forkCnt, height, participant)) {', 'if (!this.hasPosted(forkCnt, height, participant) && flag === AgreementFlag.READY) {'],
    ['M75', 'P04', VS, `        if (
            !this.agreementManager.isParticipantInLatestFork(
                BlockUtils.getBlockAuthor(blk)
            )
        )
            return disconnect();`, ''],
    ['M76', 'P02,P04', VS, 'if (this.isPastFork(forkCnt)) return pastFork();\n        // kept', '// kept'],
    ['M77', 'P08', DH, `            if (creationError?.code === "CALL_EXCEPTION")
                this.disputedForks.delete(forkCntNumber);
            throw new Error(`, `            throw new Error(`],
    ['M78', 'P10', SM, `                    "retryDispute"
                );
            await this.onSuccessCommon();`, `                    "retryDispute"
                );`],
    ['M79', 'P09', DH, 'if (timeoutProof) {', 'if (timeoutProof && this.agreementManager.getNextBlockHeight() > transactionCnt + 1) {'],
    ['M80', 'P17', SM, `            scheduleTask(
                successCallback,
                0,
                "stateTransitionSuccessCallback"
            );
            await this.onSuccessCommon();`, `            await this.onSuccessCommon();
            successCallback();`],
    ['N01', 'P15', IH, 'Math.abs(time - localTime) >', 'time - localTime >'],
    ['N02', 'P15', IH, `        profile.setIsHandshakeCompleted(true);`, `        if (profile.getIsHandshakeCompleted()) return;
        profile.setIsHandshakeCompleted(true);`],
    ['N03', 'P15', IH, `            // TODO! Disconnect
            this.mainRpcService.p2pManager.removeConnection(senderTransport);
            return;
        }
        if (
            Math.abs(responseTime`, `            return;
        }
        if (
            Math.abs(responseTime`],
    ['N04', 'P15', IH, 'let randomChallengeHash = ethers.keccak256(ethers.randomBytes(32));', 'let randomChallengeHash = ethers.keccak256(ethers.toUtf8Bytes(String(this.mainRpcService.p2pManager.openConnections.length)));'],
    ['N05', 'P15', IH, 'onInitHandshakeResponse(\n                signature,\n                localTime,', 'onInitHandshakeResponse(\n                signature,\n                time,'],
    ['N06', 'P19', CK, 'Math.abs(difference) > 2 * averageBlockTime', 'Math.abs(difference) > 20 * averageBlockTime'],
    ['N07', 'P19', CK, '(latestTimestamp - pastTimestamp) / blockCnt', 'latestTimestamp - pastTimestamp'],
    ['N08', 'P19', CK, `        if (!averageBlockTime) {
            this.clockAjustmentSeconds += difference;
            return;
        }`, `        if (!averageBlockTime) return;`],
    ['N09', 'P22', AM, 'if (requiredSignatures.size === 0) {', 'if (requiredSignatures.size <= 1) {'],
    ['N10', 'P22', AM, `                signatures: agreement.blockSignatures as string[]
            });

            // Remove`, `                signatures: agreement.blockSignatures.slice(1) as string[]
            });

            // Remove`],
    ['N11', 'P22', AM, `            virtualVotingBlocks.unshift({`, `            if (signersAddresses.size > 1) virtualVotingBlocks.unshift({`],
    ['N12', 'P22', AM, `            requiredSignatures = SetUtils.difference(
                requiredSignatures,
                signersAddresses
            );

            // Check if we found a finalized state
            if (requiredSignatures.size === 0) {`, `            // Check if we found a finalized state
            if (
                SetUtils.difference(requiredSignatures, signersAddresses)
                    .size === 0
            ) {`],
    ['N13', 'P22', FS, 'this.forks.push({', 'if (this.forks.length > 0) addressesInThreshold = this.forks[0].addressesInThreshold;\n        this.forks.push({'],
    ['Q01', 'P04,P18', VS, 'if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;', ''],
    ['Q02', 'P04', VS, 'const isFutureFork = forkCnt > this.getForkCnt();', 'const isFutureFork = forkCnt > this.getForkCnt() + 1;'],
    ['Q03', 'P07', SM, 'tx.header.timestamp = latestBlockTimestamp;', 'tx.header.timestamp = latestBlockTimestamp + 1;'],
].concat(require("./sdk2"));
