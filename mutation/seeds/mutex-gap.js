const { main, must, named } = require('./lib');
main(async () => {
    const { Mutex } = named('utils/Mutex'), m = new Mutex(); let inside = 0, worst = 0;
    const sleep = (n) => new Promise((r) => setTimeout(r, n));
    const step = async (t) => { await sleep(t); await m.lock(); inside++; worst = Math.max(worst, inside); await sleep(20); inside--; m.unlock(); };
    await Promise.all([step(0), step(5), step(25), step(30), step(45)]);
    must(worst === 1, worst + ' steps ran at the same time');
});
