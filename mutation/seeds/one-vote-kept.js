const { main, must, wallets, block, sign, enc, sdk } = require('./lib');
main(() => {
    const A = sdk('agreementManager/AgreementManager'), am = new A(), [a, b, c] = wallets;
    am.newFork('0x0a', [a.address, b.address, c.address], 0, 900);
    const x = block({ author: a.address, height: 1 }), sb = { encodedBlock: enc(x), signature: sign(a, x) };
    for (const w of [b, c]) am.queueConfirmation({ originalSignedBlock: sb, confirmationSignature: sign(w, x) });
    const got = am.tryDequeueConfirmations(0, 1).map((q) => q.confirmationSignature).sort();
    must(got.join() === [b, c].map((w) => sign(w, x)).sort().join(), 'two confirmations came before their block, kept: ' + got.length);
});
