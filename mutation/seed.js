'use strict';
// node mutation/seed.js [id...]   writes /verif/seeded/<id>: the patch, the demonstration and meta.json
const fs = require('fs'), path = require('path'), { execSync } = require('child_process');
const defs = require('./seeds'), ids = process.argv.slice(2).length ? process.argv.slice(2) : Object.keys(defs);
for (const id of ids) {
    const d = defs[id], out = path.join(d.lib === 'ledger' ? '/verif/mutation/solidity' : '/verif/seeded', id), edits = d.edits.slice(); let file = edits.shift();
    fs.mkdirSync(out, { recursive: true });
    const T = fs.mkdtempSync('/tmp/seed'); let diff = '';
    const per = {};
    for (let i = 0; i < edits.length; i += 2) {
        if (edits[i].startsWith('@')) { file = edits[i].slice(1); i--; continue; }
        const s = per[file] || fs.readFileSync('/repo/' + file, 'utf8'), k = s.split(edits[i]).length - 1;
        if (k !== 1) throw new Error(id + ': occurs ' + k);
        per[file] = s.replace(edits[i], () => edits[i + 1]);
    }
    for (const f of Object.keys(per)) {
        fs.writeFileSync(path.join(T, 'new'), per[f]);
        let o = ''; try { execSync(`git diff --no-index --no-prefix /repo/${f} ${T}/new`); } catch (e) { o = e.stdout.toString(); }
        const body = o.slice(o.indexOf('@@'));
        diff += `diff --git a/${f} b/${f}\n--- a/${f}\n+++ b/${f}\n${body}`;
    }
    fs.rmSync(T, { recursive: true });
    fs.writeFileSync(path.join(out, 'patch.diff'), diff);
    execSync('git -C /repo apply --check ' + path.join(out, 'patch.diff'));
    fs.copyFileSync(path.join(__dirname, 'seedlib', d.lib + '.js'), path.join(out, 'lib.js'));
    fs.copyFileSync(path.join(__dirname, 'seeds', id + '.js'), path.join(out, 'demo.js'));
    fs.writeFileSync(path.join(out, 'demo.sh'), '#!/bin/bash\nexec node "$(dirname "$0")/demo.js"\n'); fs.chmodSync(path.join(out, 'demo.sh'), 0o755);
    fs.writeFileSync(path.join(out, 'meta.json'), JSON.stringify({ property: d.property, needs: d.needs, what_it_breaks: d.breaks }, null, 1) + '\n');
}
