const { start, proof, main, must, encState, ethers, next } = require('./lib');
main(async () => {
    const L = await start(4), ch = await L.open('0x' + 'a3'.repeat(32)); L.wait(1);
    for (const round of [1, 2]) {
        const me = L.byAddress(next(ch.tip)), liar = L.wallets.find((w) => w !== me && ch.tip.participants.includes(w.address));
        const bad = L.block(ch, 1n, { author: liar.address, ts: L.now + 5000, w: liar });
        const r = await L.tx(me.address, 'createDispute', [ch.id, ch.fork, ch.enc, ch.enc, [], ethers.ZeroAddress, 0, [proof.future(bad.signed)]]);
        must(r.ok, 'dispute refused: ' + r.error);
        await L.afterSet(ch); L.wait(8);
        const late = next(ch.tip), by = ch.tip.participants.find((p) => p !== late);
        const early = await L.tx(by, 'createDispute', [ch.id, ch.fork, ch.enc, ch.enc, [], late, 0, []]);
        must(!early.ok, 'fork ' + ch.fork + ' is 8 s old and a participant was timed out on it');
        const start = await L.view('getGenesisTimestamp', [ch.id, ch.fork]);
        must(Number(start) === ch.ts, 'fork ' + ch.fork + ' begins at ' + start + ' instead of ' + ch.ts);
    }
});
