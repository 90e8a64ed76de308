const { main, must, wallets, block, sign, enc, sdk, named } = require('./lib');
main(async () => {
    const SM = sdk('stateManager/StateManager'), Mutex = named('utils').Mutex, [a] = wallets, x = block({ author: a.address, height: 0 }), sb = { encodedBlock: enc(x), signature: sign(a, x) };
    const sm = Object.create(SM.prototype); let n = 0;
    Object.assign(sm, { mutex: new Mutex(), p2pEventHooks: {}, agreementManager: { getLatestForkCnt: () => 0 }, p2pManager: {}, disputeHandler: {}, validationService: { validateSignedBlock: async () => { if (n++ === 0) throw new Error('the connection to the ledger failed'); return { success: false, flag: named('types').ExecutionFlags.DUPLICATE }; } } });
    await sm.onSignedBlock(sb).catch(() => {});
    const r = await Promise.race([sm.onSignedBlock(sb).then(() => 'done'), new Promise((q) => setTimeout(() => q('stuck'), 500))]);
    must(r === 'done', 'after one failed check no block is looked at any more');
});
