global.Hyperswarm = { on() {}, removeAllListeners() {}, join() {}, leave() {} };
const { main, must, wallets, sdk, named, clock, times } = require('./lib');
main(async () => {
    console.log = console.trace = () => {};
    named('index'); const PM = sdk('P2PManager'), Profile = sdk('PeerProfile'), [me, ...peers] = wallets;
    await clock(100000);
    const pm = new PM({ signerAddress: me.address, isDisposed: false, timeConfig: times, p2pEventHooks: {} }, me);
    const open = peers.slice(0, 3).map((w) => {
        const t = { transportType: 0, isClosed: false, send() {}, close() { if (!this.isClosed) { this.isClosed = true; pm.removeConnection(this); } } };
        pm.addConnection(t); pm.profileManager.registerProfile(new Profile(t, w.address, '')); return t;
    });
    await pm.dispose();
    open.forEach((t, i) => must(t.isClosed, 'connection ' + (i + 1) + ' of 3 is still open'));
});
