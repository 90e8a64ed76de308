const { main, must, sdk, ethers } = require('./lib');
main(async () => {
    const L = sdk('StateChannelEventListener'), mine = '0x' + '11'.repeat(32), other = '0x' + '22'.repeat(32);
    const handlers = [], filter = (name) => (id) => ({ name, id });
    const scm = { filters: { SetState: filter('SetState'), BlockCalldataPosted: filter('BlockCalldataPosted'), DisputeUpdated: filter('DisputeUpdated') }, on: async (f, h) => { handlers.push({ f, h }); }, off: async () => {} };
    const seen = []; const sm = { setState: async (s) => seen.push(['SetState', s]), collectOnChainBlock: async (s) => seen.push(['BlockCalldataPosted', s]), onDisputeUpdate: async (s) => seen.push(['DisputeUpdated', s]) };
    const l = new L(sm, scm, {}); await l.setChannelId(mine);
    for (const id of [mine, other]) for (const { f, h } of handlers) if (f.id === undefined || f.id === id) await h({ args: { encodedState: id, forkCnt: 1n, timestamp: 1n, signedBlock: id, dispute: id } });
    must(seen.length === 3, 'the participant reacted to ' + seen.length + ' of the 3 events of its channel');
    must(seen.every((x) => x[1] === mine), 'an event of another channel was taken for its own');
});
