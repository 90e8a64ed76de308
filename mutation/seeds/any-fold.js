const { start, proof, main, must, encState, next, sign } = require('./lib');
main(async () => {
    const L = await start(3), ch = await L.open('0x' + 'a5'.repeat(32)); L.wait(1);
    const b0 = L.push(ch), b1 = L.push(ch); L.wait(40);
    const late = next(ch.tip), me = b1.w, third = L.wallets.find((w) => w !== me && w.address !== late);
    const chain = [L.confirmed(b0), L.confirmed(b1)];
    const r = await L.tx(me.address, 'createDispute', [ch.id, 0, ch.enc, encState(ch.tip), chain, late, 2, []]);
    must(r.ok, 'the timeout was refused: ' + r.error);
    const c = await L.tx(late, 'challengeDispute', [ch.id, 0, 0, [proof.fold(b1.enc, L.wallets.map((w) => sign(w, b1.enc)))], chain, ch.enc, encState(b1.state)]);
    must(!c.ok, 'an agreed block of another height cancelled the timeout');
    const b2 = L.block(ch);
    const g = await L.tx(late, 'challengeDispute', [ch.id, 0, 0, [proof.fold(b2.enc, L.wallets.map((w) => sign(w, b2.enc)))], chain, ch.enc, encState(b1.state)]);
    must(g.ok, 'the agreed block itself did not cancel the timeout: ' + g.error);
    must(third, 'third');
});
