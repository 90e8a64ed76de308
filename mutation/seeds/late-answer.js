const { main, must, wallets, sdk, named, ethers, provider, times } = require('./lib');
main(async () => {
    named('index'); const T = sdk('rpc/services/InitHandshakeService'), Clock = sdk('Clock'), [me, peer] = wallets;
    for (const skew of [0, 5, -5, 6, -6, -60, 60]) {
        await Clock.init(provider(100000));
        let asked, known = [], dropped = 0; const transport = { transportType: 0 };
        const main_ = { senderTransport: transport, rpcProxy: { onInitHandshakeRequest: (hash, t) => { asked = { hash, t }; return { sendOne: () => {} }; } }, p2pManager: { removeConnection: () => dropped++, preferredTransport: 0, p2pSigner: { signerAddress: me.address }, stateManager: { timeConfig: times, p2pEventHooks: { onConnection: (x) => known.push(x) } }, profileManager: { getProfileByEvmAddress: () => undefined, registerProfile: () => {} } } };
        const s = new T(main_); s.initHandshake(transport);
        const sig = await peer.signMessage(ethers.getBytes(ethers.solidityPackedKeccak256(['string', 'bytes32'], ['InitHandshake', asked.hash])));
        await s.onInitHandshakeResponse(sig, asked.t + skew, 0);
        const good = Math.abs(skew) <= times.agreementTime;
        must((known.length === 1) === good, 'an answer that is ' + skew + ' s off was ' + (known.length ? 'taken' : 'refused'));
    }
});
