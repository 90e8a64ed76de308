const { main, must, wallets, block, sign, enc, sdk } = require('./lib');
main(() => {
    const A = sdk('agreementManager/AgreementManager'), am = new A(), [a, b] = wallets;
    am.newFork('0x0a', [a.address, b.address], 0, 900);
    const b1 = block({ author: b.address, height: 1 }), sb = { encodedBlock: enc(b1), signature: sign(b, b1) };
    am.collectOnChainBlock(sb, 1005);
    must(am.didParticipantPostOnChain(0, 1, b.address), 'the posting was not noted');
    const got = am.tryDequeueBlocks(0, 1);
    must(got.length === 1 && got[0].encodedBlock === sb.encodedBlock, 'a block posted ahead of its turn is gone');
});
