'use strict';
// Shrinking of a scenario: ever smaller variants of it, largest cuts first. Every variant is a complete
// scenario of its own, so it is simply run again.
const clone = (x) => JSON.parse(JSON.stringify(x));

// removes chunks of an array found by path
function* cuts(sc, get, min = 0) {
    const arr = get(sc);
    if (!Array.isArray(arr) || arr.length <= min) return;
    for (let size = arr.length; size >= 1; size = Math.floor(size / 2)) {
        for (let i = 0; i + size <= arr.length; i += size) {
            if (arr.length - size < min) continue;
            const c = clone(sc);
            get(c).splice(i, size);
            yield c;
        }
        if (size === 1) break;
    }
}

function paths(x, pred, at = [], out = []) {
    if (x === null || typeof x !== 'object') return out;
    if (pred(x, at)) out.push(at);
    for (const k of Object.keys(x)) paths(x[k], pred, [...at, k], out);
    return out;
}
const at = (root, p) => p.reduce((o, k) => (o === undefined || o === null ? undefined : o[k]), root);
const isOps = (x) => Array.isArray(x) && x.length > 0 && x.every((o) => Array.isArray(o) && typeof o[0] === 'string');
const EXPR = new Set(['v', 'l', 'a', 'c', 's', 'r', 'cache', 'amap', '+', '-', '*', '%', 'cat', 'str', 'eq', 'lt', 'not', 'if', 'len', 'rev', 'take', 'filt', 'boom']);
const isExpr = (x) => Array.isArray(x) && typeof x[0] === 'string' && EXPR.has(x[0]);

function* candidates(sc) {
    if (sc.script) {
        // a shorter user first
        for (let n = Math.floor(sc.script.length / 2); n >= 1 && n < sc.script.length; n = Math.floor((n + sc.script.length + 1) / 2)) {
            const c = clone(sc);
            c.script = c.script.slice(0, n);
            yield c;
            if (n >= sc.script.length - 1) break;
        }
        yield* cuts(sc, (s) => s.script);
    }
    if (sc.cycle) {
        yield* cuts(sc, (s) => s.cycle);
        for (let i = 0; i < sc.cycle.length; i++) if (sc.cycle[i][1] === 'ops') yield* cuts(sc, (s) => s.cycle[i][2], 1);
    }
    for (const key of ['init', 'tree', 'head']) yield* cuts(sc, (s) => s.spec && s.spec[key]);
    for (const key of Object.keys(sc.net || {})) yield* cuts(sc, (s) => s.net[key], 1);
    for (const key of Object.keys(sc.ws || {})) yield* cuts(sc, (s) => s.ws[key], 1);
    // lists of operations, children, cases, attributes, handlers
    for (const p of paths(sc, (x, where) => isOps(x) || (Array.isArray(x) && ['ch', 'cases', 'attrs', 'on', 'ev'].includes(where[where.length - 1])))) {
        if (p[0] === 'script' && p.length === 1) continue;
        yield* cuts(sc, (s) => at(s, p));
    }
    // a node by one of its children
    for (const p of paths(sc, (x) => x && !Array.isArray(x) && typeof x.t === 'string')) {
        const n = at(sc, p);
        const kids = [];
        if (Array.isArray(n.ch)) kids.push(...n.ch);
        else if (n.ch) kids.push(n.ch);
        if (n.def) kids.push(n.def);
        for (const k of kids.slice(0, 3)) {
            const c = clone(sc);
            const parent = at(c, p.slice(0, -1));
            if (parent) {
                parent[p[p.length - 1]] = clone(k);
                yield c;
            }
        }
        for (const key of ['css', 'susp', 'ref', 'def', 'on', 'attrs']) {
            if (n[key] !== undefined) {
                const c = clone(sc);
                delete at(c, p)[key];
                yield c;
            }
        }
    }
    // expressions by a part or a constant
    for (const p of paths(sc.spec || {}, isExpr)) {
        const e = at(sc.spec, p);
        const opts = [['k', 0], ['k', 1], ...e.slice(1).filter((x) => Array.isArray(x))];
        for (const o of opts) {
            if (JSON.stringify(o).length >= JSON.stringify(e).length) continue;
            const c = clone(sc);
            at(c.spec, p.slice(0, -1))[p[p.length - 1]] = clone(o);
            yield c;
        }
    }
    for (const p of paths(sc.script || [], isExpr)) {
        if (p.length < 2) continue;
        const c = clone(sc);
        at(c.script, p.slice(0, -1))[p[p.length - 1]] = ['k', 1];
        yield c;
    }
    // plainer surroundings
    const plain = { clamp: 0, streaming: 'ok', tz: 0, hashDelay: 0, navDelay: 0, wsCloseDelay: 1, loadAt: 0 };
    for (const k of Object.keys(plain)) {
        if (sc[k] !== undefined && sc[k] !== plain[k]) {
            const c = clone(sc);
            c[k] = plain[k];
            yield c;
        }
    }
}

// Greedy descent: take the first smaller scenario which still fails the same way.
async function minimize(sc, stillFails, shrink, budgetMs) {
    const t0 = Date.now();
    let best = sc;
    let tries = 0;
    let changed = true;
    while (changed && Date.now() - t0 < budgetMs) {
        changed = false;
        for (const c of shrink(best)) {
            if (Date.now() - t0 >= budgetMs) break;
            tries++;
            if (await stillFails(c)) {
                best = c;
                changed = true;
                break;
            }
        }
    }
    return { sc: best, tries };
}

module.exports = { candidates, minimize };
