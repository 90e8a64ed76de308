const { main, must, wallets, sdk, ethers, clock, machine, times, named } = require('./lib');
main(async () => {
    const A = sdk('agreementManager/AgreementManager'), SM = sdk('stateManager/StateManager'), Mutex = named('utils').Mutex, [a, b] = wallets;
    await clock(1001);
    const am = new A(), sm = Object.create(SM.prototype); am.newFork('0x0000', [a.address, b.address], 0, 1000);
    const signed = [];
    Object.assign(sm, { agreementManager: am, mutex: new Mutex(), signerAddress: a.address, timeConfig: { ...times, agreementTime: 1000 }, p2pEventHooks: {}, isDisposed: true, disputeHandler: { isForkDisputed: () => false }, stateMachine: machine([a.address, b.address]),
        p2pManager: { p2pSigner: { signMessage: async (m) => { signed.push(1); await new Promise((r) => setTimeout(r, 10)); return a.signMessage(m); } } } });
    const tx = (v) => ({ header: { channelId: ethers.ZeroHash, participant: a.address, forkCnt: 0, transactionCnt: 0, timestamp: 1001n }, body: { transactionType: 0, encodedData: v, data: v } });
    const r = await Promise.allSettled(['0x02', '0x02', '0x02'].map((v) => sm.playTransaction(tx(v))));
    const ok = r.filter((x) => x.status === 'fulfilled').map((x) => Number(named('utils').EvmUtils.decodeBlock(x.value.encodedBlock).transaction.header.transactionCnt));
    must(ok.join() === '0,1,2' && signed.length === 3, 'three calls at once, all of them allowed: blocks made at the positions ' + ok + ', signatures given: ' + signed.length);
    must(sm.stateMachine.n === 6, 'the state is ' + sm.stateMachine.n);
    const q = await Promise.allSettled(['0x01', '0x01'].map((v) => sm.playTransaction(tx(v))));
    must(q[0].status === 'fulfilled' && q[1].status === 'rejected' && sm.stateMachine.n === 7 && am.getNextBlockHeight() === 4, 'of two calls only the first was allowed');
});
