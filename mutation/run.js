'use strict';
// node mutation/run.js LIST [id-regex]   applies each change to a scratch copy of /repo and runs the checks of its properties
const fs = require('fs'), path = require('path'), { spawnSync } = require('child_process');
const W = process.env.MUT_DIR || '/tmp/mut', TREE = path.join(W, 'tree'), VER = path.join(W, 'verif');
const list = require(path.resolve(process.argv[2])), re = new RegExp('^(' + (process.argv[3] || '.*') + ')$');
const sh = (c) => spawnSync('bash', ['-c', c], { encoding: 'utf8' });
sh(`mkdir -p ${W}; rm -rf ${TREE} ${VER}; mkdir -p ${TREE} ${VER}; cp -a /verif/sim /verif/contracts /verif/known-findings.json ${VER}/; cp -a /verif/.build ${VER}/ 2>/dev/null`);
for (const f of fs.readdirSync('/repo')) if (f === 'typechain-types') sh(`cp -a /repo/${f} ${TREE}/`); else if (!['src', 'contracts', '.git'].includes(f)) fs.symlinkSync('/repo/' + f, path.join(TREE, f));
const log = path.join(W, 'results.txt');
for (const [id, props, ...edits] of list) {
    if (!re.test(id)) continue;
    sh(`rm -rf ${TREE}/src ${TREE}/contracts; git -C /repo archive HEAD src contracts | tar x -C ${TREE}`);
    let file = edits.shift(), bad = false; const touched = new Set();
    for (let i = 0; i < edits.length; i += 2) {
        if (edits[i].startsWith('@')) { file = edits[i].slice(1); i--; continue; }
        const f = path.join(TREE, file), s = fs.readFileSync(f, 'utf8'), k = s.split(edits[i]).length - 1;
        if (k !== 1) { console.log(id, 'the text occurs', k, 'times in', file, JSON.stringify(edits[i].slice(0, 60))); bad = true; break; }
        fs.writeFileSync(f, s.replace(edits[i], () => edits[i + 1]));
    }
    if (bad) continue;
    for (const p of props.split(',')) {
        const t0 = Date.now();
        const r = spawnSync('node', [path.join(VER, 'sim/check.js'), '--property', p], { encoding: 'utf8', env: { ...process.env, VERIF_REPO: TREE, VERIF_MIN_S: '0' }, maxBuffer: 1 << 28 });
        const lines = (r.stdout || '').split('\n'), why = lines.find((l) => /^violated rule|^error|harness error/.test(l)) || '';
        let other = ''; try { other = JSON.stringify(JSON.parse(fs.readFileSync(path.join(VER, 'evidence', p + '.json'))).coverage.other_rules_seen); } catch {}
        const out = `${id} ${p} ${r.status === 1 ? 'CAUGHT' : r.status === 0 ? 'MISSED' : 'rc=' + r.status} ${((Date.now() - t0) / 1000).toFixed(0)}s ${why.slice(0, 200)} ${other}`;
        console.log(out); fs.appendFileSync(log, out + '\n');
    }
}
