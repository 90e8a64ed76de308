'use strict';
// the planted bugs in the form mutation/run.js takes
module.exports = Object.entries(require('./seeds')).map(([id, d]) => [id, d.property, ...d.edits]);
