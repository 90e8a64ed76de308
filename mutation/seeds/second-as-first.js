const { main, must, wallets, block, sign, enc, sdk, named } = require('./lib');
main(() => {
    const A = sdk('agreementManager/AgreementManager'), PM = sdk('ProofManager'), am = new A(), [w, v] = wallets, pm = new PM(am);
    am.newFork('0x0a', [w.address, v.address], 0, 900);
    const b0 = block({ author: w.address, height: 0 }), bad0 = block({ author: w.address, height: 0, ts: 77 });
    am.addBlock(b0, sign(w, b0), '0x0b');
    const b1 = block({ author: v.address, height: 1 }); am.addBlock(b1, sign(v, b1), '0x0c');
    const look = (b, s) => PM.decodeProof(2, pm.createIncorrectDataProof({ encodedBlock: enc(b), signature: sign(s, b) }).encodedProof);
    must(look(bad0, w).encodedState === '0x0a', 'evidence against a first block builds on genesis');
    for (const [h, s, prev, st] of [[1, v, b0, '0x0b'], [2, w, b1, '0x0c']]) {
        const bad = block({ author: s.address, height: h, ts: 77 }), p = look(bad, s);
        must(p.block1.encodedBlock === enc(prev), 'the evidence against block ' + h + ' does not contain its predecessor');
        must(p.encodedState === st, 'the evidence against block ' + h + ' does not build on the state before it');
    }
});
