const { main, must, sdk, named } = require('./lib');
main(async () => {
    named('index'); const Listener = sdk('StateChannelEventListener');
    for (const disputed of [false, true]) {
        const on = new Map(), filters = {}; for (const e of ['SetState', 'BlockCalldataPosted', 'DisputeUpdated']) filters[e] = () => e;
        const contract = { filters, on: async (f, fn) => { on.set(f, fn); }, off: async (f) => { on.delete(f); } };
        const l = new Listener({ getForkCnt: () => 0, disputeHandler: { isForkDisputed: () => disputed } }, contract, {});
        await l.setChannelId('0x' + '11'.repeat(32));
        must(on.size === 3, 'not subscribed');
        l.dispose(); await new Promise((r) => setTimeout(r, 5));
        must(on.size === 0, 'still listens to ' + [...on.keys()] + (disputed ? ' (disposed of during a dispute)' : ''));
    }
});
