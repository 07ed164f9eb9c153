'use strict';
// Seeded generation of scenarios for server rendering: programs, page requests, backends, clocks and faults.
const { Rng } = require('./rng');
const { Gen } = require('./gen');

const SERVER = {
    values: [2, 5], computeds: [1, 4], tree: 8, list: 3, rv: 3, local: 2, css: 2, dyncss: 1, attrs: 4, frag: 1, macro: 1,
    events: 0.5, dyn: 0.3, consume: 0.2, drop: 0, links: 0.3, subs: 2, tx: 3, read: 2, hooks: 0.2, src: 0.5, srcivl: 0, amaps: 0.5,
    tasks: 4, sleeps: 1, signals: 1, ivl: 0.2, fetch: 5, cache: 3, ttl: 0.5, upd: 0.5, forget: 0.3, initFetch: 3, ws: 0.2, nav: 0, usernav: 0,
    susp: 1, boundary: 0.5, netfail: 1, malformed: 1, bodyfail: 1, slownet: 1, hang: 1, late: 1, autofocus: 0.1,
    initOps: [1, 5], script: [0, 0], boundary: 1, stall: 0, wall: 0, clamp: 0, bundle: 0, streaming: 0, usernav: 0,
};
const PROFILES = {
    C18: { tasks: 7, fetch: 9, cache: 4, netfail: 2, malformed: 1.5, bodyfail: 1.5, hang: 2, late: 2, slownet: 2, tree: 4, css: 0.3, initOps: [1, 6] },
    C19: { tree: 18, list: 6, rv: 6, local: 3, css: 5, dyncss: 3, attrs: 6, frag: 3, macro: 2, tx: 4, subs: 1, tasks: 3, fetch: 3, sleeps: 4, hang: 0.5, initOps: [2, 9] },
    C20: { tasks: 9, fetch: 16, cache: 4, tree: 3, css: 0.2, hang: 0.7, late: 0.7, netfail: 1.5, slownet: 2, initOps: [2, 6] },
    C21: { tree: 9, css: 3, dyncss: 2, tasks: 4, fetch: 5, cache: 3, hang: 0.5, late: 0.5, initOps: [1, 5] },
    C22: { tree: 7, tasks: 5, fetch: 5, cache: 4, subs: 4, rv: 5, hang: 0.7, late: 0.7, initOps: [1, 5] },
    C23: { tree: 15, list: 5, rv: 6, local: 3, css: 4, dyncss: 2, attrs: 5, frag: 3, macro: 2, cache: 6, initFetch: 6, susp: 3, tasks: 0, fetch: 0, sleeps: 0, signals: 0, ivl: 0, hang: 0, late: 0, ws: 0,
        upd: 0, forget: 0, initOps: [0, 4] },
};

class Prog extends Gen {
    constructor(seed, prop, k, r) {
        super(seed + ':' + k, prop);
        this.k = k;
        const f = { ...SERVER, ...(PROFILES[prop] || {}) };
        const core = { C18: ['tasks', 'fetch'], C19: [], C20: ['tasks', 'fetch'], C21: [], C22: [], C23: ['cache', 'initFetch'] }[prop] || [];
        for (const x of Object.keys(f)) if (typeof f[x] === 'number' && !['tree', 'attrs', 'tx', 'read', ...core].includes(x) && this.r.bool(0.25)) f[x] = 0;
        this.f = f;
        this.pool = [];
        this.host = `http://p${k}.test`;
    }
    // requests often equal an earlier one, or nearly so
    fetchSpec() {
        const r = this.r;
        if (this.pool.length && r.bool(this.prop === 'C20' ? 0.65 : 0.4)) {
            const s = JSON.parse(JSON.stringify(r.pick(this.pool)));
            if (r.bool(this.prop === 'C20' ? 0.5 : 0.2)) this.vary(s);
            this.pool.push(s);
            return s;
        }
        const s = super.fetchSpec();
        if (s.h && s.h['content-type'] && !(s.b && s.b.text)) delete s.h;
        this.pool.push(s);
        return s;
    }
    vary(s) {
        const r = this.r;
        const how = r.pick(['header', 'headers', 'nohead', 'method', 'body', 'order', 'url', 'nobody', 'kind']);
        const hasBody = !['GET', 'HEAD'].includes(s.m);
        if (how === 'header') s.h = { ...(s.h || {}), 'x-a': r.pick(['1', '2', '']) };
        else if (how === 'headers') s.h = Object.fromEntries(r.shuffle([['x-a', '1'], ['x-b', 'q'], ['x-c', r.pick(['1', '2'])]]));
        else if (how === 'nohead') delete s.h;
        else if (how === 'method') { s.m = r.pick(['GET', 'POST', 'PUT', 'DELETE']); if (s.m === 'GET') delete s.b; }
        else if (how === 'body' && hasBody) s.b = r.pick([{ text: 'a' }, { text: 'b' }, { json: { a: 1, b: [2, { c: 3 }] } }, { json: { a: 1, b: [2, { c: 4 }] } }, { json: [1, 2] }, { json: [2, 1] }, { json: 1 }, { json: '1' }, { bin: [1] }, { bin: [1, 2] }, { json: null }, { json: { n: { $num: 'NaN' } } }]);
        else if (how === 'order' && hasBody) s.b = { json: r.pick([{ a: 1, b: 'x', c: [true], d: null }, { d: null, c: [true], b: 'x', a: 1 }]) };
        else if (how === 'url') {
            s.url = '/api/f' + r.int(6);
            this.urls.add(s.url);
        } else if (how === 'nobody') delete s.b;
        else if (how === 'kind' && hasBody) s.b = r.pick([{ text: '[1]' }, { json: [1] }, { bin: [91, 49, 93] }]);
        if (s.h && s.h['content-type'] && !(s.b && s.b.text)) delete s.h;
    }
    boundaryOp() {
        return this.r.pick([() => ['now'], () => ['tz'], () => ['rand', 3, 9], () => ['env', this.r.pick(['a', 'b', 'missing'])], () => ['isb'], () => ['inst', 't0'], () => ['elapsed', 't0'],
            () => ['cset', 'ca', 'v', 100], () => ['cget', 'ca'], () => ['cgetj', 'cj'], () => ['alloc', this.r.pick([100000, 3000000])]])();
    }
    // more subscribers, tasks and updates before the page is sent than a browser session begins with
    program() {
        const sc = this.make();
        const spec = sc.spec;
        const r = this.r;
        const top = { args: [], locals: [], depth: 2, top: true };
        this.mksigs = [];
        const extra = this.ops(top, r.range(...this.f.initOps));
        if (this.has('tasks')) for (let i = r.range(0, 2); i > 0; i--) extra.push(['spawn', this.taskSteps(top)]);
        if (this.mksigs.length) extra.unshift(...[...new Set(this.mksigs)].map((g) => ['mksig', g]));
        spec.init.push(...extra);
        // equal resources
        if (this.prop !== 'C23' && spec.caches.length && r.bool(0.25)) spec.caches.push({ ...spec.caches[r.int(spec.caches.length)] });
        if (spec.caches.length && r.bool(0.3)) spec.init.push(['read', ['cache', r.int(spec.caches.length)]]);
        return spec;
    }
}

// strips what a server cannot do and shortens waits
function adapt(x, r) {
    if (Array.isArray(x)) {
        if (x[0] === 'sleep' && typeof x[1] === 'number') {
            x[1] = r.bool(0.85) ? 0 : x[1];
            return;
        }
        for (const y of x) adapt(y, r);
    } else if (x && typeof x === 'object') for (const k of Object.keys(x)) adapt(x[k], r);
}

function outcome(g, r, json, used) {
    const f = g.f;
    const o = g.netOutcome(json);
    const delay = () => {
        let d;
        do d = r.wpick([[3, r.int(4)], [5, r.range(5, 300)], [2, r.range(300, 3000)], [f.slownet, r.range(3000, 9900)], [f.late, r.range(10100, 14000)]]); while (used.has(d));
        used.add(d);
        return d;
    };
    const out = { ...o, k: 'ok', d: delay() };
    delete out.bf;
    if (o.k === 'fail') return { k: 'fail', d: out.d };
    if (o.bf) out.k = 'bodyfail';
    else if (f.hang > 0 && r.bool(Math.min(0.4, f.hang * 0.07))) out.k = r.pick(['hang', 'bodyhang']);
    if (out.ct === null) delete out.ct;
    if (out.bd !== undefined && r.bool(0.7)) out.bd = r.range(1, 300);
    if (r.bool(0.2)) out.y = r.int(4);
    return out;
}

const FAIL_OPS = [['panic', 'oh no'], ['panic', 'zażółć </body>'], ['trap'], ['overflow'], ['oom']];
// makes a program fail at a random place
function sabotage(g, spec, r) {
    const op = () => r.pick(FAIL_OPS).slice();
    const where = r.wpick([[2, 'init'], [4, 'task'], [3, 'cond'], [2, 'sub'], [2, 'computed'], [2, 'late'], [2, 'tree']]);
    const flag = spec.values.length;
    spec.values.push(0);
    const raise = ['set', flag, ['k', 1]];
    const trigger = () => {
        // raised at some later point
        const steps = [];
        for (let i = r.range(0, 3); i > 0; i--) steps.push(r.bool(0.6) ? ['fetch', g.fetchSpec()] : r.bool() ? ['sleep', 0] : ['yield', 1, 1]);
        steps.push(raise);
        spec.init.splice(r.int(spec.init.length + 1), 0, ['spawn', steps]);
    };
    switch (where) {
        case 'init': spec.init.splice(r.int(spec.init.length + 1), 0, op()); break;
        case 'task': {
            const steps = [];
            for (let i = r.range(0, 3); i > 0; i--) steps.push(r.bool(0.7) ? ['fetch', g.fetchSpec()] : ['sleep', 0]);
            steps.push(op());
            spec.init.splice(r.int(spec.init.length + 1), 0, ['spawn', steps]);
            break;
        }
        case 'late': {
            // after an answer which may come after the page has been sent
            const s = g.fetchSpec();
            spec.init.push(['spawn', [['fetch', s], op()]], ['spawn', [['fetch', g.fetchSpec()]]]);
            break;
        }
        case 'cond': spec.tree.push({ t: 'rv', id: g.id(), e: ['boom', ['eq', ['v', flag], 1], ['v', flag]], cases: [[0, { t: 'tx', s: 'fine' }]] }); trigger(); break;
        case 'sub': spec.init.push(['sub', 'sx', ['v', flag], { at: 2, ops: [op()] }]); trigger(); break;
        case 'computed': spec.computeds.push(['boom', ['v', flag], ['+', ['v', 0], 1]]); spec.tree.push({ t: 'td', e: ['c', spec.computeds.length - 1] }); trigger(); break;
        default:
            if (spec.caches.length) spec.tree.push({ t: 'td', e: ['boom', ['not', ['eq', ['cache', 0], null]], 'x'] });
            else spec.tree.push({ t: 'td', e: ['boom', true, 'x'] });
    }
}

function generate(seed, prop) {
    const r = new Rng(`ssr:${prop}:${seed}`);
    const nProg = prop === 'C23' ? 1 : r.wpick([[4, 1], [4, 2], [2, 3]]);
    const specs = {};
    const net = {};
    const used = new Set();
    const one = prop === 'C21' || prop === 'C23';
    for (let k = 0; k < nProg; k++) {
        const g = new Prog(seed, prop, k, r);
        const spec = g.program();
        if ((prop === 'C22' && (k === 0 ? r.bool(0.9) : r.bool(0.3))) || ((prop === 'C18' || prop === 'C21') && r.bool(0.06))) sabotage(g, spec, g.r);
        adapt(spec.init, g.r);
        adapt(spec.tree, g.r);
        const path = '/p' + k;
        if (r.bool(prop === 'C19' ? 0.12 : 0.03)) spec.plain = { [path]: r.pick(['plain', '', '<b>&amp;ż</b>\n</body>', 'User-agent: *\nDisallow:']) };
        delete spec.wss;
        const text = JSON.stringify(spec).replace(/"\/api\//g, `"${g.host}/api/`);
        specs[path] = JSON.parse(text);
        const urls = [];
        spec.caches.forEach((c) => urls.push([c.url, true]));
        for (const u of g.urls) urls.push([u, false]);
        for (const [u, json] of urls) {
            const list = [];
            for (let i = one ? 1 : r.range(1, 3); i > 0; i--) list.push(outcome(g, r, json, used));
            net[g.host + u] = list;
        }
    }
    const pages = [];
    const n = prop === 'C23' ? 1 : prop === 'C21' ? r.range(2, 4) : r.wpick([[3, 1], [4, 2], [3, 3], [1, 5]]);
    let at = 0;
    for (let i = 0; i < n; i++) {
        if (i) at += r.wpick([[4, 0], [3, r.range(1, 50)], [3, r.range(50, 2000)], [1, r.range(9000, 12000)]]);
        const k = prop === 'C22' && i === 0 ? 0 : r.int(nProg);
        const q = r.wpick([[5, ''], [2, '?x=1&y=2'], [1, '?q=%20%C5%BC'], [prop === 'C23' ? 0 : 0.5, '?'], [1, '?a="b"'.replace(/"/g, '%22')]]);
        const p = { at, url: `/p${k}${q}` };
        if (prop !== 'C21' && prop !== 'C23' && r.bool(prop === 'C18' || prop === 'C22' ? 0.12 : 0.04)) p.cut = r.wpick([[1, 0], [2, r.range(1, 300)], [1, r.range(300, 9000)]]);
        pages.push(p);
    }
    const values = ['', 'plain', 'ą ę "q" & \'s\'', '<b>x</b>', '</body></html>', 'a\nb', '&amp;&lt;', '--><!--', '</script>'];
    const env = [['a', r.pick(values)], ['b', r.pick(values)]];
    if (r.bool(0.3)) env.push(['long-name', r.pick(values)]);
    env.push(['spec', JSON.stringify({ pages: specs })]);
    const sc = {
        mode: prop === 'C21' ? 'repeat' : prop === 'C23' ? 'both' : 'plain',
        hash: 1 + r.int(1000000), wall: 1700000000000 + r.int(1000000000), env: r.shuffle(env), pages, net, tail: 6000, limit: 120000,
    };
    if (!one && r.bool(0.25)) {
        sc.stalls = [];
        for (let i = r.range(1, 3); i > 0; i--) sc.stalls.push([r.range(0, 4000), r.pick([5, 50, 700, 3000, 12000])]);
    }
    if (r.bool(0.2)) sc.jumps = [[r.range(0, 3000), r.pick([-3600000, -1000, 1000, 86400000, -1])]];
    if (r.bool(0.2)) sc.watch = r.pick([5555, 4444]);
    return sc;
}

module.exports = { generate };
