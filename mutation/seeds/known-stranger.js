const { main, must, wallets, sdk, named, ethers, provider, times } = require('./lib');
main(async () => {
    named('index'); const T = sdk('rpc/services/InitHandshakeService'), PM = sdk('ProfileManager'), Clock = sdk('Clock'), [me, peer] = wallets;
    await Clock.init(provider(100000));
    let asked; const known = [], profileManager = new PM();
    const p2pManager = { removeConnection: (t) => t.close(), preferredTransport: 0, p2pSigner: { signerAddress: me.address }, stateManager: { timeConfig: times, p2pEventHooks: { onConnection: (x) => known.push(x) } }, profileManager };
    const main_ = { rpcProxy: { onInitHandshakeRequest: (hash, t) => { asked = { hash, t }; return { sendOne: () => {} }; } }, p2pManager };
    const s = new T(main_);
    for (let i = 1; i <= 3; i++) {
        const transport = { transportType: 0, closed: 0, close() { this.closed++; } };
        main_.senderTransport = transport; s.initHandshake(transport);
        const sig = await peer.signMessage(ethers.getBytes(ethers.solidityPackedKeccak256(['string', 'bytes32'], ['InitHandshake', asked.hash])));
        await s.onInitHandshakeResponse(sig, asked.t, 0);
        must(known.length === i && known[i - 1] === peer.address, 'the peer is not known after connection ' + i);
        must(!transport.closed, 'connection ' + i + ' was closed');
        must(profileManager.getProfileByEvmAddress(peer.address).getTransport() === transport, 'the peer is not reached over connection ' + i);
    }
});
