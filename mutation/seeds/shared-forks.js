const { main, must, wallets, sdk, ethers } = require('./lib');
main(() => {
    const A = sdk('agreementManager/AgreementManager'), DH = sdk('DisputeHandler'), [a] = wallets;
    const mk = (id) => new DH(id, a, a.address, new A(), {}, {}), x = mk(ethers.ZeroHash), y = mk('0x' + '11'.repeat(32));
    x.setForkDisputed(0);
    must(x.isForkDisputed(0), 'not marked');
    must(!y.isForkDisputed(0), 'a dispute in one channel stops another channel of the same program');
    must(!mk('0x' + '22'.repeat(32)).isForkDisputed(0), 'a new channel starts as disputed');
});
