const { start, proof, main, must, encState, ethers, next } = require('./lib');
main(async () => {
    for (const [dt, guilty] of [[-1, true], [-100, true], [0, false], [5, false], [6, true]]) {
        const L = await start(3), ch = await L.open('0x' + 'a4'.repeat(32)); L.wait(20);
        const b = L.block(ch, 1n, { ts: ch.ts + dt }), me = L.wallets.find((w) => w !== b.w);
        const r = await L.tx(me.address, 'createDispute', [ch.id, 0, ch.enc, ch.enc, [], ethers.ZeroAddress, 0, [proof.incorrect(b.signed, b.signed, ch.enc)]]);
        must(r.ok === guilty, 'a first block ' + dt + ' s after the start of the fork: ' + (r.ok ? 'slashed' : r.error));
    }
});
