const { main, must, wallets, block, sign, enc, sdk, clock, machine, h, times } = require('./lib');
main(async () => {
    const A = sdk('agreementManager/AgreementManager'), V = sdk('stateManager/ValidationService'), [a, b, c] = wallets, P = [a, b, c].map((w) => w.address);
    await clock(1001);
    // data, previous, result -> taken
    for (const [data, prev, result, good] of [['0x01', 0, 1, true], ['0x01', 0, 2, false], ['0x01', 4, 1, false], ['0x01', 4, 2, false], ['0xff', 0, 0, false], ['0xff', 0, 7, false]]) {
        const am = new A(), m = machine(P); am.newFork('0x0000', P, 0, 1000);
        const v = new V(am, m, { isForkDisputed: () => false }, {}, times, () => '0x' + '00'.repeat(32), c.address, async () => 0);
        const x = block({ author: a.address, height: 0, ts: 1001, data, prev: h(prev), stateHash: h(result) });
        const r = await v.validateSignedBlock({ encodedBlock: enc(x), signature: sign(a, x) }, x);
        must(r.success === good, 'a block from ' + prev + ' to ' + result + ' was ' + (r.success ? 'accepted' : 'refused'));
        must(m.n === (good ? 1 : 0), 'the state is ' + m.n + ' after a block that was ' + (good ? 'accepted' : 'refused'));
    }
});
