'use strict';
// The findings listed in known-findings.txt: lines "known: property=C11 id=name what fails".
const fs = require('fs');
const path = require('path');
function loadKnown() {
    const file = path.resolve(__dirname, '..', 'known-findings.txt');
    const out = [];
    let text = '';
    try {
        text = fs.readFileSync(file, 'utf8');
    } catch (e) {
        return out;
    }
    for (const line of text.split('\n')) {
        const m = /^known: property=(\w+) id=([\w-]+) (.*)$/.exec(line.trim());
        if (m) out.push({ property: m[1], id: m[2], what: m[3] });
    }
    return out;
}
let set = null;
function isKnown(prop, id) {
    if (!set) set = new Set(loadKnown().map((k) => `${k.property}:${k.id}`));
    return set.has(`${prop}:${id}`);
}
module.exports = { loadKnown, isKnown };
