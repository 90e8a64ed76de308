const { start, proof, main, must, encState, ethers } = require('./lib');
main(async () => {
    for (const height of [1, 0]) {
        const L = await start(4), ch = await L.open('0x' + 'a2'.repeat(32)); L.wait(1);
        const b0 = L.push(ch); L.wait(40);
        const late = L.byAddress(require('./lib').next(ch.tip)), me = b0.w, other = L.wallets.find((w) => w !== me && w !== late);
        const r = await L.tx(me.address, 'createDispute', [ch.id, 0, ch.enc, encState(ch.tip), [L.confirmed(b0)], late.address, 1, []]);
        must(r.ok, 'the timeout was refused: ' + r.error);
        const cheat = L.wallets.find((w) => ![me, late, other].includes(w));
        const x = L.block(ch, 1n, { author: cheat.address, height }), y = L.block(ch, 2n, { author: cheat.address, height });
        const c = await L.tx(other.address, 'challengeDispute', [ch.id, 0, 0, [proof.double([[x.signed, y.signed]])], [L.confirmed(b0)], ch.enc, encState(b0.state)]);
        must(c.ok, 'the evidence was refused: ' + c.error);
        const d = await L.dispute(ch.id);
        must(d.slashedParticipants.includes(cheat.address), 'not slashed');
        must((d.timedoutParticipant === ethers.ZeroAddress) === (height < 1), 'evidence at height ' + height + ' and a timeout at height 1: ' + d.timedoutParticipant);
    }
});
