const { start, proof, main, must, encState, ethers } = require('./lib');
main(async () => {
    const L = await start(4), ch = await L.open('0x' + 'a7'.repeat(32)); L.wait(1);
    const [a, b, c, d] = L.wallets, lie = (w) => L.block(ch, 1n, { author: w.address, ts: L.now + 5000 }).signed;
    const r = await L.tx(a.address, 'createDispute', [ch.id, 0, ch.enc, ch.enc, [], ethers.ZeroAddress, 0, [proof.future(lie(b))]]);
    must(r.ok, 'dispute refused: ' + r.error);
    const T = Number((await L.dispute(ch.id)).deadlineTimestamp) - L.now; must(T > 1, 'no challenge period');
    L.wait(T - 1);
    const x = await L.tx(c.address, 'challengeDispute', [ch.id, 0, 0, [proof.future(lie(d))], [], ch.enc, ch.enc]);
    must(x.ok, 'challenge refused: ' + x.error);
    must(Number((await L.dispute(ch.id)).deadlineTimestamp) === L.now + T, 'the challenge did not open a new period');
    L.wait(T - 1);
    const y = await L.tx(c.address, 'challengeDispute', [ch.id, 0, 1, [proof.future(lie(a))], [], ch.enc, ch.enc]);
    must(y.ok, 'the answer to a challenge came too late: ' + y.error);
});
