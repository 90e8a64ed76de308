const { start, proof, main, must, encState, next } = require('./lib');
main(async () => {
    const L = await start(4), ch = await L.open('0x' + 'a9'.repeat(32)); L.wait(40);
    const late = next(ch.tip), [me, liar] = L.wallets.filter((w) => w.address !== late);
    const bad = L.block(ch, 1n, { author: liar.address, ts: L.now + 5000 });
    const r = await L.tx(me.address, 'createDispute', [ch.id, 0, ch.enc, ch.enc, [], late, 0, [proof.future(bad.signed)]]);
    must(r.ok, 'dispute refused: ' + r.error);
    const out = (await L.dispute(ch.id)).processExits.map((e) => e.participant).sort();
    must(JSON.stringify(out) === JSON.stringify([late, liar.address].sort()), 'exits: ' + out.length + ' of 2');
    await L.afterSet(ch); must(ch.tip.participants.length === 2, 'participants');
});
