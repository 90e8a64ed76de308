const { main, must, wallets, block, sign, enc, sdk } = require('./lib');
main(() => {
    const A = sdk('agreementManager/AgreementManager'), PM = sdk('ProofManager'), am = new A(), pm = new PM(am), [a, b] = wallets;
    am.newFork('0x0a', [a.address, b.address], 0, 900);
    const xs = [0, 1, 2, 3].map((i) => block({ author: (i % 2 ? b : a).address, height: i }));
    xs.forEach((x, i) => { am.addBlock(x, sign(i % 2 ? b : a, x), '0x0' + i); if (i < 3) am.confirmBlock(x, sign(i % 2 ? a : b, x)); });
    for (const [w, top] of [[a, 2], [b, 3]]) for (let posted = -1; posted < 5; posted++) {
        const p = pm.createNewerStateProof(0, w.address, posted);
        if (posted >= top) { must(!p, 'evidence of a newer state where there is none'); continue; }
        must(p, 'no evidence that ' + posted + ' is not the latest block somebody signed, which is ' + top);
        must(PM.decodeProof(p.proofType, p.encodedProof).encodedBlock === enc(xs[top]), 'the evidence is not about the latest block that was signed');
    }
});
