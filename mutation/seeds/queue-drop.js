const { named, main, must, wallets, block, sign, enc, sdk } = require('./lib');
main(() => {
    const Q = sdk('agreementManager/QueueService'), q = new Q();
    const mk = (h) => { const w = wallets[h % 2], b = block({ author: w.address, height: h }); return { encodedBlock: enc(b), signature: sign(w, b) }; };
    const bs = [5, 6, 7].map(mk);
    bs.forEach((b) => q.queueBlock(b));
    bs.forEach((b, i) => { const got = q.tryDequeueBlocks(0, 5 + i); must(got.length === 1 && got[0].encodedBlock === b.encodedBlock, 'the queued block at height ' + (5 + i) + ' is gone'); });
});
