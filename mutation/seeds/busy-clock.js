const { main, must, sdk, provider } = require('./lib');
main(async () => {
    const Clock = sdk('Clock'), now = Math.floor(Date.now() / 1000);
    for (const off of [0, 20, -20, 100, -100, 1000, -1000, 90000, -90000]) for (const number of [50, 100, 5000]) {
        await Clock.init(provider(now + off, number));
        const err = Math.abs(Clock.getTimeInSeconds() - (now + off));
        must(err <= 2 * 12 + 2, 'the machine is ' + off + ' s off at block ' + number + ': still ' + err + ' s off afterwards');
    }
});
