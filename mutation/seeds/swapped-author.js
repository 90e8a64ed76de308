const { main, must, wallets, block, sign, enc, sdk, clock, machine, h, times } = require('./lib');
main(async () => {
    const A = sdk('agreementManager/AgreementManager'), V = sdk('stateManager/ValidationService'), [a, b, c, d] = wallets, P = [a, b, c].map((w) => w.address);
    await clock(1001);
    for (const [signer, good] of [[a, true], [b, false], [c, false], [d, false]]) {
        const am = new A(), m = machine(P); am.newFork('0x0000', P, 0, 1000);
        const v = new V(am, m, { isForkDisputed: () => false }, {}, times, () => '0x' + '00'.repeat(32), c.address, async () => 0);
        const x = block({ author: a.address, height: 0, ts: 1001, data: '0x01', prev: h(0), stateHash: h(1) });
        const r = await v.validateSignedBlock({ encodedBlock: enc(x), signature: sign(signer, x) }, x);
        must(r.success === good, 'a block signed by ' + (good ? 'its author' : 'somebody else') + ' was ' + (r.success ? 'accepted' : 'refused'));
    }
});
