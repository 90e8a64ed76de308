'use strict';
// node mutation/tree.js LIST ID DIR   a scratch copy of /repo's sources with one change applied
const fs = require('fs'), path = require('path');
const [list, id, dir] = process.argv.slice(2);
const m = require(path.resolve(list)).find((x) => x[0] === id); if (!m) throw new Error('no ' + id);
fs.rmSync(dir, { recursive: true, force: true }); fs.mkdirSync(dir, { recursive: true });
for (const f of fs.readdirSync('/repo')) if (!['src', 'contracts', '.git'].includes(f)) fs.symlinkSync('/repo/' + f, path.join(dir, f));
for (const f of ['src', 'contracts']) require("child_process").execSync(`git -C /repo archive HEAD ${f} | tar x -C ${dir}`);
let [, , file, ...edits] = m;
for (let i = 0; i < edits.length; i += 2) {
    if (edits[i].startsWith('@')) { file = edits[i].slice(1); i--; continue; }
    const f = path.join(dir, file), s = fs.readFileSync(f, 'utf8'), k = s.split(edits[i]).length - 1;
    if (k !== 1) throw new Error('occurs ' + k + ' times: ' + edits[i].slice(0, 80));
    fs.writeFileSync(f, s.replace(edits[i], () => edits[i + 1]));
}
