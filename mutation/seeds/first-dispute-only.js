const { main, must, wallets, block, sign, sdk, ethers } = require('./lib');
main(async () => {
    const A = sdk('agreementManager/AgreementManager'), DH = sdk('DisputeHandler'), am = new A(), [a, b, c] = wallets, P = [a, b, c].map((w) => w.address);
    am.newFork('0x0a', P, 0, 900); am.newFork('0x0b', P.slice(0, 2), 1, 1000);
    const made = []; let cur = { channelId: ethers.ZeroHash };
    const contract = { createDispute: async (id, fork, f, l, v, who, h) => { made.push(fork); cur = { channelId: '0x' + '11'.repeat(32), forkCnt: BigInt(fork), challengeCnt: 0n, foldedTransactionCnt: BigInt(h), timedoutParticipant: who, postedStateDisputer: P[0], timeoutDisputer: P[0], virtualVotingBlocks: [], slashedParticipants: [], participants: P, deadlineTimestamp: 5000n }; return { wait: async () => ({}) }; }, getDispute: async () => cur };
    const dh = new DH('0x' + '11'.repeat(32), a, a.address, am, contract, {});
    await dh.createDispute(0, P[2], 0, []);
    await dh.createDispute(1, P[1], 0, []);
    must(made.join() === '0,1', 'two participants fell silent one after the other, disputes about the forks: ' + made);
});
