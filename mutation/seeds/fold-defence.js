const { main, must, wallets, block, sign, enc, sdk, ethers } = require('./lib');
main(async () => {
    const A = sdk('agreementManager/AgreementManager'), DH = sdk('DisputeHandler'), am = new A(), [a, b, c] = wallets;
    am.newFork('0x0a', [a.address, b.address, c.address], 0, 900);
    const b0 = block({ author: a.address, height: 0 });
    am.addBlock(b0, sign(a, b0), '0x0b'); am.confirmBlock(b0, sign(b, b0)); am.confirmBlock(b0, sign(c, b0));
    for (const me of [a, b]) {
        let sent = null, cur = { channelId: ethers.ZeroHash, forkCnt: 0n, challengeCnt: 0n, foldedTransactionCnt: 0n, timedoutParticipant: a.address, postedStateDisputer: c.address, timeoutDisputer: c.address, virtualVotingBlocks: [{ encodedBlock: enc(b0), signatures: [sign(c, b0)] }], slashedParticipants: [], participants: [a.address, b.address, c.address] };
        const contract = { challengeDispute: async (...x) => { sent = x; cur = { ...cur, challengeCnt: 1n, timedoutParticipant: ethers.ZeroAddress, slashedParticipants: [c.address] }; return { wait: async () => ({}) }; }, getDispute: async () => cur };
        const dh = new DH(ethers.ZeroHash, me, me.address, am, contract, {});
        await dh.onDispute(cur);
        must(sent && sent[3].some((p) => Number(p.proofType) === 0), (me === a ? 'the accused' : 'another participant') + ' did not contest the false timeout');
    }
});
