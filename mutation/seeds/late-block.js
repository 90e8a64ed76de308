const { main, must, wallets, block, sign, enc, sdk, clock, machine, h, times } = require('./lib');
main(async () => {
    const A = sdk('agreementManager/AgreementManager'), V = sdk('stateManager/ValidationService'), [a, b, c] = wallets, P = [a, b, c].map((w) => w.address);
    for (const [ts, good] of [[1000, true], [1015, true], [1016, false], [1019, false], [1030, false]]) {
        await clock(ts);
        const am = new A(), m = machine(P); am.newFork('0x0000', P, 0, 1000);
        const v = new V(am, m, { isForkDisputed: () => false }, { getChainLatestBlockTimestamp: async () => 0n }, times, () => '0x' + '00'.repeat(32), c.address, async () => 0);
        const x = block({ author: a.address, height: 0, ts, data: '0x01', prev: h(0), stateHash: h(1) });
        const r = await v.validateSignedBlock({ encodedBlock: enc(x), signature: sign(a, x) }, x);
        must(r.success === good, 'a block made ' + (ts - 1000) + ' s after the start of the fork was ' + (r.success ? 'accepted' : 'refused'));
    }
});
