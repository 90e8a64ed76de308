const { main, must, wallets, block, sign, sdk } = require('./lib');
main(async () => {
    const A = sdk('agreementManager/AgreementManager'), SM = sdk('stateManager/StateManager'), [a, b, c] = wallets;
    for (const signers of [[a], [a, b], [a, b, c]]) {
        const am = new A(); am.newFork('0x0a', [a.address, b.address, c.address], 0, 900);
        const b0 = block({ author: a.address, height: 0 });
        signers.forEach((s, i) => (i ? am.confirmBlock(b0, sign(s, b0)) : am.addBlock(b0, sign(s, b0), '0x0b')));
        const sm = Object.create(SM.prototype); let posted = 0;
        sm.agreementManager = am; sm.p2pEventHooks = {};
        sm.stateChannelManagerContract = { postBlockCalldata: async () => { posted++; return { wait: async () => ({}) }; } };
        await sm.maybePostBlockOnChain(b0, { encodedBlock: '0x', signature: '0x' });
        must((posted === 1) === (signers.length < 3), 'signed by ' + signers.length + ' of 3, posted ' + posted + ' times');
    }
});
