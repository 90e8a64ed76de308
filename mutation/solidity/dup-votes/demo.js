const { start, proof, main, must } = require('./lib');
main(async () => {
    const L = await start(3), ch = await L.open('0x' + 'a1'.repeat(32)); must(ch.ok, 'open');
    // two agreed moves, then a fraud; the third participant has signed nothing
    L.wait(1); L.push(ch); L.push(ch); const t = ch.tip;
    const [w0, w1] = [ch.blocks[0].w, ch.blocks[1].w], cheat = L.block(ch, 1n, { ts: L.now + 1000 });
    const send = (blocks, fin, lat) => L.tx(w0.address, 'createDispute', [ch.id, 0, fin, lat, blocks, '0x' + '00'.repeat(20), 0, [proof.future(cheat.signed)]]);
    const one = ch.blocks[1], enc = require('./lib').encState(one.state), { sign } = require('./lib');
    const r = await send([[one.enc, [one.sig, sign(w0, one.enc), one.sig]]], enc, enc);
    must(!r.ok, 'a state signed by two of three participants was taken as final');
    const w2 = L.wallets.find((w) => w !== w0 && w !== w1);
    const g = await send([[one.enc, [one.sig, sign(w0, one.enc), sign(w2, one.enc)]]], enc, enc);
    must(g.ok, 'a state signed by everybody was refused: ' + g.error);
});
