const { main, must, wallets, block, sign, enc, sdk, ethers } = require('./lib');
main(async () => {
    const A = sdk('agreementManager/AgreementManager'), DH = sdk('DisputeHandler'), am = new A(), [a, b, c, d] = wallets, P = [a, b, c, d].map((w) => w.address);
    am.newFork('0x0a', P, 0, 900);
    [0, 1, 2].forEach((i) => { const x = block({ author: P[i], height: i }); am.addBlock(x, sign(wallets[i], x), '0x0' + i); });
    const lie = (i) => { const x = block({ author: P[i], height: i, ts: 77 }); return { encodedBlock: enc(x), signature: sign(wallets[i], x) }; };
    const sent = []; let cur = { channelId: ethers.ZeroHash };
    const contract = {
        createDispute: async (...x) => { sent.push(x[7].length); cur = { channelId: ethers.ZeroHash.slice(0, -1) + '1', forkCnt: 0n, challengeCnt: 0n, foldedTransactionCnt: 0n, timedoutParticipant: ethers.ZeroAddress, postedStateDisputer: P[2], timeoutDisputer: ethers.ZeroAddress, virtualVotingBlocks: [{ encodedBlock: enc(block({ author: P[2], height: 2 })), signatures: [] }], slashedParticipants: [], participants: P, deadlineTimestamp: 5000n }; await new Promise((r) => setTimeout(r, 20)); throw new Error('somebody else was first'); },
        challengeDispute: async (...x) => { sent.push(x[3].length); cur = { ...cur, challengeCnt: cur.challengeCnt + 1n, slashedParticipants: [P[0], P[1]] }; return { wait: async () => ({}) }; }, getDispute: async () => cur };
    const dh = new DH(ethers.ZeroHash, d, d.address, am, contract, {});
    await Promise.all([dh.disputeDoubleSign([lie(0)]), dh.disputeDoubleSign([lie(1)])].map((p) => p.catch(() => {})));
    must(sent.includes(2), 'two participants cheated, evidence sent: ' + sent);
});
