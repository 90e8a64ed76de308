const { start, main, must } = require('./lib');
main(async () => {
    const L = await start(2), ch = await L.open('0x' + 'a8'.repeat(32)); const at = [];
    for (let i = 0; i < 3; i++) { L.wait(2); const b = L.push(ch), r = await L.tx(b.author, 'postBlockCalldata', [b.signed]); must(r.ok, 'posting refused: ' + r.error); at.push(L.now); }
    for (const m of [0, 1, 2, 9]) { const t = Number(await L.view('getChainLatestBlockTimestamp', [ch.id, 0, m])); must(t === at[Math.min(m, 2)], 'latest posting up to height ' + m + ' is ' + t + ' instead of ' + at[Math.min(m, 2)]); }
});
