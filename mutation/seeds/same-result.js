const { main, must, wallets, block, sign, enc, sdk } = require('./lib');
main(() => {
    const A = sdk('agreementManager/AgreementManager'), am = new A(), [w, v] = wallets;
    am.newFork('0x01', [w.address, v.address], 0, 900);
    const b1 = block({ author: w.address, height: 0, ts: 1000 }), b2 = block({ author: w.address, height: 0, ts: 1001 });
    const b3 = block({ author: w.address, height: 0, ts: 1000, stateHash: '0x' + '22'.repeat(32) });
    am.addBlock(b1, sign(w, b1), '0x02');
    const f = (b) => am.getDoubleSignedBlock({ encodedBlock: enc(b), signature: sign(w, b) });
    must(!f(b1), 'the same block twice is no double signature');
    must(f(b3), 'a conflicting block was not recognised');
    must(f(b2) && f(b2).encodedBlock === enc(b1), 'a conflicting block with the same result was not recognised');
});
