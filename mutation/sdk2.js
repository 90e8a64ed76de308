'use strict';
const S = (x) => 'src/' + x + '.ts';
const AM = S('agreementManager/AgreementManager'), FS = S('agreementManager/ForkService'), QS = S('agreementManager/QueueService'), OC = S('agreementManager/OnChainTracker'), BV = S('agreementManager/BlockValidator'), SM = S('stateManager/StateManager'), VS = S('stateManager/ValidationService'), DH = S('DisputeHandler'), PM = S('ProofManager'), SG = S('evm/P2pSigner'), ES = S('evm/EvmStateMachine'), EX = S('stateManager/processExecutionDecisionHandlers'), CF = S('stateManager/processConfirmationDecisionHandlers'), BU = S('utils/BlockUtils'), P2 = S('P2PManager'), ST = S('rpc/services/StateTransitionService'), CE = S('evm/ContractExecuter'), EL = S('StateChannelEventListener'), HS = S('rpc/services/InitHandshakeService'), PR = S('ProfileManager'), TS = S('utils/timestamp');
module.exports = [
    // the undo of a refused own call is forgotten when the fork became disputed while signing
    ['O01', 'P16,P02', SM, `            const signedBlock = await this.signBlock(block);
`, `            const signedBlock = await this.signBlock(block);
            rollbackState = undefined;
`],
    // signers are remembered per block content
    ['O02', 'P04,P03', VS, `        const h = ethers.keccak256(signed.encodedBlock);
        const signer = ethers.verifyMessage(
            ethers.getBytes(h),
            signed.signature as SignatureLike
        );
`, `        const h = ethers.keccak256(signed.encodedBlock);
        const signer =
            this.signers.get(h) ??
            ethers.verifyMessage(
                ethers.getBytes(h),
                signed.signature as SignatureLike
            );
        if (signer === BlockUtils.getBlockAuthor(block))
            this.signers.set(h, signer);
`, `    constructor(
        private readonly agreementManager: AgreementManager,
        private readonly stateMachine: AStateMachine,`, `    private readonly signers = new Map<string, string>();
    constructor(
        private readonly agreementManager: AgreementManager,
        private readonly stateMachine: AStateMachine,`],
    // blocks built on need no posting
    ['O03', 'P07,P09', SM, `        if (!this.agreementManager.didEveryoneSignBlock(block)) {`, `        if (
            this.agreementManager.getBlock(
                this.getForkCnt(),
                Number(block.transaction.header.transactionCnt) + 1
            ) === undefined &&
            !this.agreementManager.didEveryoneSignBlock(block)
        ) {`],
    // only the last piece of evidence is kept
    ['O04', 'P10', DH, `        const proofs = this.localProofs.get(forkCnt) || [];
        proofs.push(proof);`, `        const proofs = [proof];`],
    // genesis of the first fork is used for evidence on any fork's first block
    ['O05', 'P10', PM, `                this.agreementManager.getForkGenesisStateEncoded(forkCnt) ??`, `                this.agreementManager.getForkGenesisStateEncoded(0) ??`],
    // evidence with the latest state instead of the prior one
    ['O06', 'P10', PM, `        const priorEncodedState = this.agreementManager.getEncodedState(
            forkCnt,
            transactionCnt - 1
        );`, `        const priorEncodedState = this.agreementManager.getEncodedState(
            forkCnt,
            this.agreementManager.getNextBlockHeight() - 1
        );`],
    // shared queues of all channels of a process
    ['O07', 'P18', QS, `    private blockQ: Queue<SignedBlockStruct> = new Map();`, `    private static shared: Queue<SignedBlockStruct> = new Map();
    private blockQ = QueueService.shared;`],
    ['O08', 'P18', QS, `    private confQ: Queue<BlockConfirmation> = new Map();`, `    private static shared: Queue<BlockConfirmation> = new Map();
    private confQ = QueueService.shared;`],
    ['O09', 'P18', DH, `    disputedForks: Map<ForkCnt, boolean> = new Map();`, `    static disputed: Map<ForkCnt, boolean> = new Map();
    disputedForks = DisputeHandler.disputed;`],
    ['O10', 'P18', DH, `        return this.rechallengeRecursive(dispute);
    }

    //Creates`, `        return this.rechallengeRecursive(dispute);
    }

    private static seen = new Set<string>();
    //Creates`, `    public onDispute(dispute: DisputeStruct): Promise<void> {
        this.setForkDisputed`, `    public async onDispute(dispute: DisputeStruct): Promise<void> {
        const key = dispute.forkCnt + ":" + dispute.challengeCnt + this.signerAddress;
        if (DisputeHandler.seen.has(key)) return;
        DisputeHandler.seen.add(key);
        this.setForkDisputed`],
    // confirmation queue keyed by the author
    ['O11', 'P06,P07', QS, `            confirmationSigner,
            blockConfirmation
        );`, `            BlockUtils.getBlockAuthor(block),
            blockConfirmation
        );`],
    // the fork's participants are read before the state is set
    ['O12', 'P08,P22', SM, `            await this.stateMachine.setState(encodedState);
            this.agreementManager.newFork(
                encodedState,
                await this.stateMachine.getParticipants(),`, `            const known = this.agreementManager.hasFork()
                ? await this.stateMachine.getParticipants()
                : undefined;
            await this.stateMachine.setState(encodedState);
            this.agreementManager.newFork(
                encodedState,
                known ?? (await this.stateMachine.getParticipants()),`],
    // nothing is scheduled after a fork
    ['O13', 'P08', SM, `            this.p2pEventHooks.onSetState?.();
            await this.onSuccessCommon();`, `            this.p2pEventHooks.onSetState?.();
            if (Number(_forkCnt) === 0) await this.onSuccessCommon();`],
    // duplicates are passed on too
    ['O14', 'P05', ST, `        if (flag == ExecutionFlags.SUCCESS)
            this.mainRpcService.rpcProxy.onSignedBlock(signedBlock).broadcast();`, `        if (flag != ExecutionFlags.NOT_READY)
            this.mainRpcService.rpcProxy.onSignedBlock(signedBlock).broadcast();`],
    ['O15', 'P05,P06', CF, `    [ExecutionFlags.NOT_READY]: async (
        originalSignedBlock,
        confirmationSignature,
        ctx
    ) => {
        ctx.queueConfirmation({
            originalSignedBlock,
            confirmationSignature
        });`, `    [ExecutionFlags.NOT_READY]: async (
        originalSignedBlock,
        confirmationSignature,
        ctx
    ) => {
        ctx.queueConfirmation({
            originalSignedBlock,
            confirmationSignature
        });
        setTimeout(() => ctx.tryConfirmFromQueue(), 0);`],
    // a bad block in the queue hides the ones behind it
    ['O16', 'P05,P10', SM, `                console.error("tryExecuteFromQueue - block rejected", e);`, `                console.error("tryExecuteFromQueue - block rejected", e);
                break;`],
    ['O17', 'P05,P06', SM, `                console.error("tryConfirmFromQueue - rejected", e);`, `                console.error("tryConfirmFromQueue - rejected", e);
                break;`],
    // a disputing peer stops the execution of its queue for good
    ['O18', 'P10,P05', SM, `        for (const signedBlock of signedBlocks) {
            console.log("tryExecuteFromQueue - executing");`, `        for (const signedBlock of signedBlocks.slice(-1)) {
            console.log("tryExecuteFromQueue - executing");`],
    // stale evidence: only the newest kind per type
    ['O19', 'P10,P09', PM, `        return proofs.filter((proof) => {
            const validator`, `        return proofs.filter((proof, i) => {
            if (proofs.findIndex((p) => p.proofType === proof.proofType) !== i)
                return false;
            const validator`],
    ['O20', 'P10', PM, `        return doubleSignProof.doubleSigns.some((doubleSign) => {`, `        return doubleSignProof.doubleSigns.length > 1 && doubleSignProof.doubleSigns.every((doubleSign) => {`],
    // the first participant posting a block for a height counts for everyone
    ['O21', 'P08,P07', OC, `                    cb.transactionCnt === height &&
                    cb.participantAdr === address`, `                    cb.transactionCnt === height`],
    ['O22', 'P08,P07', OC, `                    cb.transactionCnt === height &&
                    cb.participantAdr === address`, `                    cb.transactionCnt >= height &&
                    cb.participantAdr === address`],
    // the state served after a failing view / call
    ['O23', 'P16,P02', CE, `        if (result.execResult.exceptionError) {
            throw this.decodeError(result);
        }`, `        if (result.execResult.exceptionError) {
            if (result.execResult.returnValue.length === 0)
                return result.execResult;
            throw this.decodeError(result);
        }`],
    // logs of the previous execution
    ['O24', 'P17', ES, `            return {
                success: true,
                successCallback: () => this.processLogs(result.logs)
            };`, `            this.lastLogs = result.logs;
            return {
                success: true,
                successCallback: () => this.processLogs(this.lastLogs)
            };`, `    public stateManager?: StateManager;
`, `    public stateManager?: StateManager;
    private lastLogs?: any[];
`],
    // an own block's events are emitted only when everybody... before it is stored
    ['O25', 'P17,P16', SM, `            const block = await this.createBlock(tx, previousStateHash);
`, `            scheduleTask(successCallback, 0, "stateTransitionSuccessCallback");
            const block = await this.createBlock(tx, previousStateHash);
`, `            scheduleTask(
                successCallback,
                0,
                "stateTransitionSuccessCallback"
            );
            await this.onSuccessCommon();

            return signedBlock;`, `            await this.onSuccessCommon();

            return signedBlock;`],
    // waits for the lock but looks at the channel before
    ['O26', 'P03,P16', SM, `        await this.mutex.lock();

        let rollbackState: string | undefined;
        try {
            console.log("Play Transaction", this.getForkCnt());
            if (!this.isChannelOpen()) {
                throw new Error("Channel not open");
            }
            if (this.disputeHandler.isForkDisputed(this.getForkCnt())) {
                throw new Error("Fork is disputed");
            }
            if (!(await this.isMyTurn())) {`, `        const myTurn = await this.isMyTurn();
        await this.mutex.lock();

        let rollbackState: string | undefined;
        try {
            console.log("Play Transaction", this.getForkCnt());
            if (!this.isChannelOpen()) {
                throw new Error("Channel not open");
            }
            if (this.disputeHandler.isForkDisputed(this.getForkCnt())) {
                throw new Error("Fork is disputed");
            }
            if (!myTurn) {`],
    // fork re-read after the dispute
    ['O27', 'P02,P03', SM, `            tx.header.forkCnt = this.getForkCnt();
`, ``],
    // the first participant of a position decides
    ['O28', 'P10', BV, `            return BlockUtils.getBlockAuthor(existing) === participant
                ? AgreementFlag.DOUBLE_SIGN
                : AgreementFlag.INCORRECT_DATA;`, `            return existing.previousStateHash === block.previousStateHash
                ? AgreementFlag.DOUBLE_SIGN
                : AgreementFlag.INCORRECT_DATA;`],
    // blocks are compared by what they do
    ['O29', 'P10,P01', BU, `        return EvmUtils.encodeBlock(b1) === EvmUtils.encodeBlock(b2);`, `        return (
            b1.stateHash === b2.stateHash &&
            b1.previousStateHash === b2.previousStateHash &&
            EvmUtils.encodeTransaction({
                ...b1.transaction,
                header: { ...b1.transaction.header, timestamp: 0 }
            }) ===
                EvmUtils.encodeTransaction({
                    ...b2.transaction,
                    header: { ...b2.transaction.header, timestamp: 0 }
                })
        );`],
    // time bounds
    ['O30', 'P09,P04', VS, `        const latestTxTs =
            this.agreementManager.getLatestBlockTimestamp(forkCnt);`, `        const latestTxTs = this.agreementManager.getLatestTimestamp(
            forkCnt,
            blockHeight
        );`],
    ['O31', 'P07,P09', AM, `        return this.blockValidator.latestRelevantTimestamp(forkCnt, maxTxCnt);`, `        return this.blockValidator.latestRelevantTimestamp(forkCnt, maxTxCnt - 1);`],
    ['O32', 'P09,P07', VS, `        if (!(await this.isMyTurn())) return ExecutionFlags.SUCCESS;

        const flag`, `        const flag`],
    ['O33', 'P10,P04', TS, `export const TOLERANCE_FUTURE = 10n;`, `export const TOLERANCE_FUTURE = 100n;`],
    ['O34', 'P09,P07', TS, `export const TOLERANCE_PAST = 5n;`, `export const TOLERANCE_PAST = 2n;`],
    // disputes
    ['O35', 'P09,P10', DH, `        if (newDispute.challengeCnt == dispute.challengeCnt) {`, `        if (newDispute.challengeCnt >= dispute.challengeCnt) {`],
    ['O36', 'P10', DH, `        const _dispute = this.disputes.get(forkCntNumber);
        let creationError`, `        const _dispute = this.disputes.size > 0;
        let creationError`],
    ['O37', 'P08,P10', DH, `        this.disputes.set(forkCnt, dispute);`, `        this.disputes.set(0, dispute);`],
    ['O38', 'P09,P01', DH, `            if (timeoutProof) {
                this.addProof(forkCnt, timeoutProof);
            }`, `            if (timeoutProof && !this.localProofs.has(forkCnt)) {
                this.addProof(forkCnt, timeoutProof);
            }`],
    ['O39', 'P01,P10', DH, `        if (newerStateProof) this.addProof(forkCnt, newerStateProof);`, `        if (newerStateProof && dispute.timedoutParticipant === ethers.ZeroAddress)
            this.addProof(forkCnt, newerStateProof);`],
    ['O40', 'P01,P10', AM, `        for (const agreement of this.forkService.agreementsIterator(
            forkCnt,
            Direction.BACKWARD
        )) {
            const { didSign, signature } = BlockUtils.getParticipantSignature(`, `        for (const agreement of this.forkService.agreementsIterator(
            forkCnt,
            Direction.FORWARD
        )) {
            const { didSign, signature } = BlockUtils.getParticipantSignature(`],
    ['O41', 'P01,P10', AM, `            if (didSign)
                return {
                    block: agreement.block,
                    signature: signature!
                };`, `            if (didSign && BlockUtils.getBlockAuthor(agreement.block) === participantAdr)
                return {
                    block: agreement.block,
                    signature: signature!
                };`],
    // timeouts
    ['O42', 'P08', SM, `        if (
            this.agreementManager.didParticipantPostOnChain(
                forkCnt,
                transactionCnt,
                participantAdr
            )
        )
            return;`, `        if (
            this.agreementManager.getChainLatestBlockTimestamp(
                forkCnt,
                transactionCnt
            ) > 0
        )
            return;`],
    ['O43', 'P09', SM, `            this.isDisposed ||
            forkCnt !== this.getForkCnt() ||`, `            this.isDisposed ||`],
    ['O44', 'P09', SM, `        if (response.found) return;
`, ``],
    ['O45', 'P08', SM, `                delayTimeSeconds + 1
            );`, `                this.getTimeoutWaitTimeSeconds() * 2
            );`],
    // peers
    ['O46', 'P06,P05', P2, `            Promise.resolve(
                this.localRpcService[rpc.method](...rpc.params)
            ).catch((e) => {
                //TODO - disconnect from peer
                console.error(e);
            });`, `            this.localRpcService[rpc.method](...rpc.params);`],
    ['O47', 'P07,P05', P2, `                console.error("broadcastRpc - send failed", e);`, `                console.error("broadcastRpc - send failed", e);
                this.removeConnection(transport);`],
    ['O48', 'P15', HS, `        const senderTransport = this.mainRpcService.senderTransport;
        let localTime`, `        let localTime`, `            .sendOne(senderTransport!);`, `            .sendOne(this.mainRpcService.senderTransport!);`],
    ['O49', 'P15', HS, `        let challenge = this.getChallenge(senderTransport);
        if (!challenge) {`, `        let challenge = this.getChallenge(senderTransport);
        this.mapTransportToChallenge.delete(senderTransport);
        if (!challenge) {`],
    ['O50', 'P15', PR, `        profile.setTransport(newTransport);
        this.mapTransportToProfile.set(newTransport, profile);`, `        this.mapTransportToProfile.set(newTransport, profile);
        profile.setTransport(oldTransport ?? newTransport);`],
    // joining through the state machine
    ['O51', 'P17', ES, `                    this.p2pContractInstance.emit(
                        event.name,
                        ...Object.values(event.args)
                    );`, `                    this.p2pContractInstance.emit(
                        event.name,
                        ...new Set(Object.values(event.args))
                    );`],
    ['O52', 'P18', EL, `        if (this.disputeUpdateFilter)
            await this.stateChannelManagerContract.off(
                this.disputeUpdateFilter
            );
        this.disputeUpdateFilter =
            this.stateChannelManagerContract.filters.DisputeUpdated(channelId);`, `        if (this.disputeUpdateFilter) return;
        this.disputeUpdateFilter =
            this.stateChannelManagerContract.filters.DisputeUpdated();`],
    ['O53', 'P18,P04', VS, `        if (BlockUtils.getChannelId(block) !== expectedChannelId) return false;`, `        if (
            BlockUtils.getHeight(block) === 0 &&
            BlockUtils.getChannelId(block) !== expectedChannelId
        )
            return false;`],
    ['O54', 'P02', VS, `        const previousState = await this.stateMachine.getState();
        const previousStateHash = ethers.keccak256(previousState);`, `        const previousStateHash = ethers.keccak256(await this.stateMachine.getState());
        const previousState =
            this.agreementManager.getEncodedState(this.getForkCnt(), this.getNextHeight() - 1) ??
            this.agreementManager.getForkGenesisStateEncoded(0)!;`],
    ['O55', 'P05', SM, `        } finally {
            this.mutex.unlock();
        }
    }

    // Passes the block confirmation`, `        } finally {
            if (!this.disputeHandler.isForkDisputed(this.getForkCnt())) this.mutex.unlock();
            else setTimeout(() => this.mutex.unlock(), this.timeConfig.challengeTime * 1000);
        }
    }

    // Passes the block confirmation`],
    ['O56', 'P03', SG, `        let signedBlock =
            await this.p2pManager.stateManager.playTransaction(_tx);
        this.p2pManager.rpcProxy.onSignedBlock(signedBlock).broadcast();`, `        let signedBlock =
            await this.p2pManager.stateManager.playTransaction(_tx).catch((e) => {
                if (String(e).includes("turn")) throw e;
                return this.p2pManager.stateManager.playTransaction(_tx);
            });
        this.p2pManager.rpcProxy.onSignedBlock(signedBlock).broadcast();`],
    ['O57', 'P03,P16', SM, `            const signedBlock = await this.signBlock(block);
`, `            const signedBlock = await this.signBlock(block);
            this.p2pManager.rpcProxy.onSignedBlock(signedBlock).broadcast();
`],
    ['O58', 'P06,P05', VS, `        if (this.agreementManager.isBlockDuplicate(blk)) return duplicate();`, `        if (this.agreementManager.isBlockDuplicate(blk) && height < this.getNextHeight() + 1) return duplicate();`],
    ['O59', 'P05', VS, `        if (EvmUtils.encodeBlock(block) !== signed.encodedBlock) return false;
        if (!isCanonicalSignature(signed.signature)) return false;`, `        if (!isCanonicalSignature(signed.signature)) return false;`],
    ['O60', 'P07', SM, `            if (this.isDisposed) return;
            // Neither`, `            if (this.isDisposed || (e as any)?.code === "CALL_EXCEPTION") return;
            // Neither`],
];
