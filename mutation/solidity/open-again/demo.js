const { start, main, must, proof, ethers } = require('./lib');
main(async () => {
    const L = await start(3), id = '0x' + 'a6'.repeat(32), ch = await L.open(id); must(ch.ok, 'a proper opening was refused: ' + ch.error);
    must(!(await L.open(id)).ok, 'opened twice');
    const [a, b] = L.wallets, bad = L.block(ch, 1n, { author: b.address, ts: L.now + 5000 });
    const r = await L.tx(a.address, 'createDispute', [id, 0, ch.enc, ch.enc, [], ethers.ZeroAddress, 0, [proof.future(bad.signed)]]);
    must(r.ok, 'dispute refused: ' + r.error); L.wait(100);
    must(!(await L.open(id)).ok, 'a channel in use was opened again');
});
