const { main, must, wallets, block, sign, enc, sdk, clock, machine, h, times, sleep } = require('./lib');
main(async () => {
    const A = sdk('agreementManager/AgreementManager'), V = sdk('stateManager/ValidationService'), [a, b, c] = wallets, P = [a, b, c].map((w) => w.address);
    await clock(1001);
    for (const [stateHash, told] of [[h(1), 1], [h(2), 0]]) {
        const am = new A(), m = machine(P); am.newFork('0x0000', P, 0, 1000);
        const v = new V(am, m, { isForkDisputed: () => false }, {}, times, () => '0x' + '00'.repeat(32), c.address, async () => 0);
        const x = block({ author: a.address, height: 0, ts: 1001, data: '0x01', prev: h(0), stateHash });
        const r = await v.validateSignedBlock({ encodedBlock: enc(x), signature: sign(a, x) }, x);
        await sleep(50);
        must(r.success === (told === 1), 'judged wrongly');
        must(m.told.length === told, 'a block that was ' + (told ? 'accepted' : 'refused') + ' told the application ' + m.told.length + ' times');
        must(m.n === told, 'the state is ' + m.n);
    }
});
