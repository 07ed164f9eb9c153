'use strict';
// Seeded generation of scenarios: a program, a user, a network, clocks and faults, all explicit in the result.
const { Rng } = require('./rng');

// How much of each feature a property's scenarios contain (0 = none). Every scenario further switches a
// random subset of the optional ones off, so that few runs look alike.
const BASE = {
    values: [2, 5], computeds: [1, 5], script: [8, 26],
    tree: 10, list: 3, rv: 3, local: 2, css: 2, dyncss: 1, attrs: 3, frag: 1, macro: 1,
    events: 4, dyn: 1, consume: 1, drop: 0.3, links: 0.3,
    subs: 2, tx: 3, read: 2, hooks: 0.3,
    src: 0.5, srcivl: 0.2, amaps: 0.5,
    tasks: 1, sleeps: 1, signals: 0.5, ivl: 0.5, fetch: 0.5,
    cache: 0.5, ttl: 0.5, upd: 0.5, forget: 0.3, initFetch: 0.2,
    ws: 0, nav: 0, usernav: 0, susp: 0.5,
    stall: 0.3, wall: 0.2, netfail: 0.4, malformed: 0.4, bodyfail: 0.2, slownet: 0.4,
    clamp: 0.4, bundle: 0.4, streaming: 0.2, boundary: 0.2, autofocus: 0.1,
};
const PROFILES = {
    C01: { values: [2, 6], computeds: [3, 10], subs: 6, tx: 6, read: 6, amaps: 1.5, src: 1, tree: 6, list: 1, events: 2, css: 0.5 },
    C02: { values: [2, 6], computeds: [2, 8], subs: 9, tx: 8, read: 2, tree: 3, list: 1, hooks: 1, css: 0.3, nav: 0.3, src: 0.5 },
    C03: { subs: 9, src: 6, srcivl: 1.5, computeds: [2, 7], rv: 5, tree: 7, amaps: 1, ivl: 1, css: 0.3 },
    C04: { tree: 18, list: 5, rv: 6, local: 3, css: 3, dyncss: 2, attrs: 5, frag: 3, macro: 2, subs: 0.5, events: 2 },
    C05: { tree: 9, list: 12, rv: 3, local: 4, frag: 2, subs: 0.3, events: 3, css: 0.5, computeds: [1, 4], script: [10, 36] },
    C06: { events: 12, dyn: 4, consume: 4, drop: 2, links: 1, tree: 12, list: 3, rv: 4, local: 3, subs: 0.3, script: [14, 40] },
    C07: { events: 5, dyn: 2, tree: 9, list: 3, rv: 5, local: 2, subs: 2, src: 1, ivl: 2, ws: 1.5, fetch: 1, tasks: 2, hooks: 0.5, drop: 0.5, signals: 0, cache: 1, susp: 1, nav: 0.5, usernav: 0.5, boundary: 0.5, dyncss: 1, macro: 1.5, links: 0.4 },
    C08: { tree: 12, list: 5, rv: 5, tx: 5, events: 5, tasks: 2, nav: 0.7, usernav: 0.5, hooks: 2, initFetch: 0.6, cache: 1, links: 0.5, read: 3, subs: 3 },
    C09: { tasks: 12, sleeps: 6, signals: 5, fetch: 3, tree: 2, list: 0.5, subs: 0.5, stall: 1, clamp: 1, netfail: 1, events: 2, css: 0, computeds: [0, 2] },
    C10: { ivl: 10, tasks: 5, sleeps: 6, src: 2, srcivl: 3, stall: 1.5, clamp: 1, tree: 2, list: 0.3, events: 2, css: 0, computeds: [0, 2], wall: 1 },
    C11: { tasks: 9, fetch: 14, netfail: 3, malformed: 3, bodyfail: 2, slownet: 2, cache: 0.5, tree: 2, list: 0.3, css: 0, computeds: [0, 2], stall: 0.5, events: 1.5 },
    C12: { cache: 10, ttl: 5, upd: 5, forget: 3, netfail: 2, malformed: 2, bodyfail: 1, slownet: 2, initFetch: 0.5, tree: 6, rv: 3, list: 0.5, wall: 0.3, stall: 0.5, css: 0.2, susp: 0.5 },
    C13: { initFetch: 6, cache: 6, netfail: 2, malformed: 1.5, bodyfail: 1, slownet: 3, tree: 6, script: [3, 10], streaming: 1, css: 0.5, fetch: 1, tasks: 1 },
    C14: { ws: 12, stall: 0.7, tree: 2, list: 0.3, css: 0, computeds: [0, 2], clamp: 0.4, events: 1, tasks: 0.5, subs: 0.5 },
    C15: { nav: 10, usernav: 8, links: 3, tree: 6, rv: 4, local: 3, subs: 2, tx: 2, css: 0, stall: 0.5, tasks: 1, list: 0.5 },
    C16: { susp: 12, cache: 6, upd: 3, forget: 1, tree: 12, rv: 7, list: 3, css: 2, frag: 2, ttl: 1, netfail: 1, slownet: 1 },
    C17: { css: 14, dyncss: 10, tree: 14, rv: 6, list: 4, susp: 1, subs: 0.3 },
    C24: { wall: 10, cache: 6, ttl: 6, upd: 2, tasks: 4, sleeps: 4, ivl: 3, boundary: 2, tree: 4, stall: 0.7, ws: 0.3 },
    C26: { boundary: 14, tree: 5, events: 5, drop: 3, tasks: 2, fetch: 3, css: 0.3, ws: 0.5, bundle: 0.6 },
};
const OPTIONAL = ['list', 'rv', 'local', 'css', 'dyncss', 'frag', 'macro', 'events', 'dyn', 'consume', 'drop', 'links', 'subs', 'hooks', 'src', 'srcivl', 'amaps', 'tasks',
    'signals', 'ivl', 'fetch', 'cache', 'ttl', 'upd', 'forget', 'initFetch', 'ws', 'nav', 'usernav', 'susp', 'stall', 'wall', 'netfail', 'malformed', 'bodyfail', 'slownet',
    'clamp', 'streaming', 'boundary', 'autofocus'];
// never switched off for the property they are about
const CORE = {
    C01: ['subs'], C02: ['subs'], C03: ['subs', 'src'], C04: [], C05: ['list'], C06: ['events'], C07: [], C08: [], C09: ['tasks'], C10: ['ivl', 'tasks'], C11: ['tasks', 'fetch'],
    C12: ['cache'], C13: ['initFetch', 'cache'], C14: ['ws'], C15: ['nav'], C16: ['susp', 'cache'], C17: ['css', 'dyncss'], C24: ['wall'], C26: ['boundary'],
};

const EVENTS = ['click', 'input', 'change', 'keydown', 'mousedown', 'mouseup', 'mouseenter', 'mouseleave', 'blur', 'load', 'hook_keydown'];
const STRINGS = ['', 'a', 'b c', 'zażółć', '<i>&"\'', '😀x', 'a\nb', '\u0000'.length ? 'x;y' : '', '100%', '  ', '\ufeffz'];
const TAGS = ['div', 'span', 'p', 'ul', 'li', 'b', 'section', 'button', 'svg', 'path', 'table', 'select', 'textarea', 'input', 'a'];

// texts of one kind of character: each takes another number of bytes in UTF-8
const CHARS = [
    [0x61, 0x7a], [0x23, 0x5a], [0xa1, 0xac], [0xc0, 0xff], [0x100, 0x17f], [0x400, 0x44f], [0x7f0, 0x7ff], [0x905, 0x930], [0x4e00, 0x4fff], [0xfe70, 0xfeff], [0xfff9, 0xfffd], [0x1f600, 0x1f64f], [0x10fff0, 0x10fffd],
];
const KEYS = ['a', 'k', '', '__proto__', 'constructor', 'toString', '1', 'ż', 'a b', 'length', '\ufeffk'];

class Gen {
    // a text: often a telling one, else of one or two kinds of characters
    text(max = 8) {
        const r = this.r;
        if (r.bool(0.6)) return r.pick(STRINGS);
        return this.chars(r.wpick([[6, r.range(1, max)], [1, r.range(20, 70)], [0.3, r.range(200, 400)]]));
    }
    chars(n) {
        const r = this.r;
        const kinds = [r.pick(CHARS)];
        if (r.bool(0.3)) kinds.push(r.pick(CHARS));
        let out = '';
        for (; n > 0; n--) out += String.fromCodePoint(r.range(...r.pick(kinds)));
        return out;
    }
    json(depth = 2) {
        const r = this.r;
        const k = r.wpick([[3, 'num'], [3, 'str'], [1, 'bool'], [1, 'null'], [depth ? 2 : 0, 'list'], [depth ? 3 : 0, 'obj']]);
        if (k === 'num') return r.pick([0, 1, -1, 2.5, 65536, 4294967296, -2147483649, 1e21, 123456.789, 9007199254740991]);
        if (k === 'str') return this.text();
        if (k === 'bool') return r.bool();
        if (k === 'null') return null;
        if (k === 'list') return Array.from({ length: r.range(0, 4) }, () => this.json(depth - 1));
        return Object.fromEntries(Array.from({ length: r.range(0, 4) }, () => [r.pick(KEYS), this.json(depth - 1)]));
    }
    // what the program hands over, and what it must get back
    jsRandom(depth = 2) {
        const r = this.r;
        const k = r.wpick([[3, 'num'], [3, 'str'], [1, 'bool'], [1, 'null'], [1, 'undef'], [1, 'vec'], [2, 'json'], [depth ? 2 : 0, 'list'], [depth ? 3 : 0, 'obj']]);
        if (k === 'num') {
            const [t, v] = r.pick([['i32', '-1'], ['i32', '2147483647'], ['u32', '0'], ['u32', '2147483648'], ['f64', '-0.5'], ['f64', 'NaN'], ['f64', 'inf'], ['f64', '5e-324'], ['f64', '9007199254740992'],
                ['u64', '18446744073709551615'], ['u64', '9223372036854775808'], ['u64', '9223372036854775807'], ['i64', '-9223372036854775808'], ['i64', '5']]);
            return [{ [t]: v }, { [t]: v }];
        }
        if (k === 'str') {
            const t = this.text(20);
            return [t, t];
        }
        if (k === 'bool') return r.bool() ? [true, true] : [false, false];
        if (k === 'null') return [null, null];
        if (k === 'undef') return [{ undef: 1 }, { undef: 1 }];
        if (k === 'vec') {
            const v = Array.from({ length: r.wpick([[5, r.range(0, 5)], [1, 300]]) }, () => r.int(256));
            return [{ vec: v }, { vec: v }];
        }
        if (k === 'json') {
            const v = this.json();
            return [{ json: v }, { json: v }];
        }
        const parts = Array.from({ length: r.range(0, 4) }, () => this.jsRandom(depth - 1));
        if (k === 'list') return [parts.map((x) => x[0]), parts.map((x) => x[1])];
        const keys = parts.map(() => r.pick(KEYS));
        const make = (i) => ({ obj: Object.fromEntries(parts.map((x, n) => [keys[n], x[i]])) });
        return [make(0), make(1)];
    }
    constructor(seed, prop) {
        this.seed = seed;
        this.prop = prop;
        this.r = new Rng(`${prop}:${seed}`);
        const f = { ...BASE, ...(PROFILES[prop] || {}) };
        const core = CORE[prop] || [];
        this.neutral = prop === 'C07' && this.r.bool(0.9);
        this.doubling = this.neutral && this.r.bool(0.3);
        for (const k of OPTIONAL) if (!core.includes(k) && this.r.bool(0.3)) f[k] = 0;
        this.f = f;
        this.nid = 0;
        this.uno = 0;
    }
    has(k) { return this.f[k] > 0; }
    chance(k, scale = 0.1) { return this.f[k] > 0 && this.r.bool(Math.min(0.95, this.f[k] * scale)); }
    id() { return ++this.nid; }

    // ---- values and expressions
    constOf(type) {
        const r = this.r;
        switch (type) {
            case 'int': return r.bool(0.85) ? r.int(5) : r.range(-3, 60);
            case 'bool': return r.bool();
            case 'str': return r.bool(0.6) ? r.pick(['a', 'b', 'c']) : this.text();
            case 'list': return this.listConst();
            default: return this.constOf(r.pick(['int', 'int', 'bool', 'str', 'list']));
        }
    }
    listConst() {
        const r = this.r;
        const n = r.wpick([[1, 0], [1, 1], [2, 2], [3, 3], [3, r.range(4, 6)], [1, r.range(7, 12)]]);
        const uni = this.listKind === 'str' ? ['a', 'b', 'c', 'd', 'e', 'f', 'g', 'h'] : [1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13];
        let keys = r.shuffle(uni).slice(0, Math.min(n, uni.length));
        if (r.bool(0.35)) keys = keys.slice().sort((a, b) => (a < b ? -1 : 1));
        if (this.listKind === 'pair') return keys.map((k) => [k, r.int(3)]);
        return keys;
    }
    // scope: { args: ['int'|...], locals: [...], pure: bool (no sources, caches, routes), maxC }
    expr(type, depth, sc) {
        const r = this.r;
        if (type === 'list') return this.listExpr(depth, sc);
        if (depth <= 0 || r.bool(0.25)) return this.leaf(type, sc);
        const e = (t) => this.expr(t || 'any', depth - 1, sc);
        switch (type) {
            case 'bool': return r.wpick([[2, ['lt', e('int'), e('int')]], [2, ['eq', e(), e()]], [1, ['not', e()]]]);
            case 'str': return r.wpick([[2, ['cat', e(), e()]], [1, ['str', e()]], [2, ['if', e('bool'), e('str'), e('str')]]]);
            case 'int': return r.wpick([[3, ['+', e('int'), e('int')]], [1, ['-', e('int'), e('int')]], [1, ['*', e('int'), e('int')]], [2, ['%', e('int'), r.range(2, 4)]],
                [3, ['if', e('bool'), e('int'), e('int')]], [1, ['len', e('list')]], [this.spec.amaps.length && !sc.noAmap ? 2 : 0, ['amap', r.int(this.spec.amaps.length), ['%', e('int'), 3]]]]);
            default: return this.expr(r.pick(['int', 'int', 'bool', 'str']), depth, sc);
        }
    }
    leaf(type, sc) {
        const r = this.r;
        const opts = [[1.2, ['k', this.constOf(type)]]];
        this.vt.forEach((t, i) => { if (type === 'any' || t === type || (type === 'int' && t !== 'list')) opts.push([2, ['v', i]]); });
        const nC = sc.maxC === undefined ? this.spec.computeds.length : sc.maxC;
        for (let i = 0; i < nC; i++) if (!sc.pure || this.pureC[i]) opts.push([2.5, ['c', i]]);
        (sc.args || []).forEach((t, i) => opts.push([2, ['a', i]]));
        (sc.locals || []).forEach((t, i) => { if (t !== 'route') opts.push([3, ['l', i]]); else if (!sc.pure && sc.routes !== false) opts.push([4, ['l', i]]); });
        if (!sc.pure) {
            this.spec.sources.forEach((_, i) => opts.push([this.f.src, ['s', i]]));
            if (sc.routes !== false) this.spec.routers.forEach((_, i) => opts.push([2, ['r', i]]));
            if (sc.caches) this.spec.caches.forEach((_, i) => opts.push([2, ['cache', i]]));
        }
        return r.wpick(opts);
    }
    listExpr(depth, sc) {
        const r = this.r;
        const opts = [[0.5, ['k', this.listConst()]]];
        this.vt.forEach((t, i) => { if (t === 'list') opts.push([5, ['v', i]]); });
        if (depth > 0) {
            const e = () => this.listExpr(depth - 1, sc);
            opts.push([1.5, ['rev', e()]], [1, ['take', e(), this.expr('int', depth - 1, sc)]], [1, ['filt', e(), this.expr('int', depth - 1, sc)]], [1, ['if', this.expr('bool', depth - 1, sc), e(), e()]]);
        }
        return r.wpick(opts);
    }
    usesImpure(e) {
        if (!Array.isArray(e)) return false;
        if (['s', 'cache', 'r'].includes(e[0])) return true;
        if (e[0] === 'c' || e[0] === 'cmap') return !this.pureC[e[1]];
        if (e[0] === 'k') return false;
        if (e[0] === 'amap') return true;
        return e.some((x) => this.usesImpure(x));
    }

    // ---- operations
    setOp(sc) {
        const r = this.r;
        const pure = { args: sc.args, locals: sc.locals, pure: true, noAmap: true };
        const opts = [];
        this.vt.forEach((t, i) => {
            const v = r.bool(t === 'list' ? 0.75 : 0.5) ? ['k', this.constOf(t)] : t === 'any' ? ['k', this.constOf('any')] : this.expr(t, 1, pure);
            opts.push([2, [r.wpick([[3, 'set'], [1, 'cmp'], [2, 'chg']]), i, v]]);
            if (t === 'int') opts.push([1, ['inc', i]]);
        });
        (sc.locals || []).forEach((t, i) => t !== 'route' && opts.push([2, ['setl', i, r.bool() || this.neutral ? ['k', this.constOf('int')] : ['+', ['l', i], 1]]]));
        return r.wpick(opts);
    }
    op(sc) {
        const r = this.r;
        const f = this.f;
        const d = sc.depth === undefined ? 2 : sc.depth;
        const inner = { ...sc, depth: d - 1 };
        const opts = [[8, () => this.setOp(sc)]];
        const add = (w, fn) => { if (w > 0) opts.push([w, fn]); };
        if (d > 0) add(f.tx, () => ['tx', this.ops(inner, r.range(1, 4))]);
        add(f.read, () => ['read', this.expr('any', 2, { ...sc, pure: !r.bool(0.1), routes: !!sc.top })]);
        add(f.subs * (sc.nosub ? 0 : 1), () => this.subOp(sc));
        add(f.src * 2 * (this.spec.sources.length ? 1 : 0), () => ['ssrc', r.int(this.spec.sources.length), ['k', this.constOf('int')]]);
        if (d > 0 && !sc.inTask) add(f.tasks, () => ['spawn', this.taskSteps(sc)]);
        add(f.signals * (this.sigs ? 1 : 0), () => ['signal', 'g' + r.int(this.sigs), ['k', this.constOf('int')]]);
        add(f.ivl, () => this.ivlOp(sc));
        add(f.upd * (this.spec.caches.length ? 1 : 0), () => ['upd', r.int(this.spec.caches.length), r.int(2), 1]);
        add(f.forget * (this.spec.caches.length ? 1 : 0), () => ['forget', r.int(this.spec.caches.length)]);
        if (this.spec.routers.length) {
            add(f.nav, () => ['push', r.int(this.spec.routers.length), null]);
            (sc.locals || []).forEach((t, i) => { if (t === 'route') add(f.nav, () => ['pushl', i, this.place(this.spec.routers[0])]); });
            add(f.nav * 0.4 * (this.spec.routers.includes('history') ? 1 : 0), () => ['replace', this.place('history')]);
            add(f.nav * 0.15, () => ['back']);
        }
        add(f.ws, () => this.wsOp());
        add(f.hooks, () => (r.bool(0.6) ? ['hook', 'h' + r.int(3)] : ['unhook', 'h' + r.int(3)]));
        add(f.boundary, () => this.boundaryOp(sc));
        let o = r.wpick(opts)();
        if (o[0] === 'push') {
            const i = o[1];
            o = ['push', i, this.place(this.spec.routers[i])];
        }
        return o;
    }
    ops(sc, n) {
        const out = [];
        for (let i = 0; i < n; i++) {
            const o = this.op(sc);
            if (Array.isArray(o[0])) out.push(...o);
            else out.push(o);
        }
        return out;
    }
    place(kind) {
        const r = this.r;
        if (kind === 'hash') return r.pick(['', 'a', 'b', '/x/1', 'ą ę', 'c%d', 'q?r=1&s', 'a']);
        return r.pick(['/', '/a', '/b?x=1', '/b?x=1#f', '/ż', '/a/b/c', '/a']);
    }
    subOp(sc) {
        const r = this.r;
        const slot = 's' + r.int(5);
        if (r.bool(0.35)) return ['unsub', slot];
        const opts = {};
        if (r.bool(0.15)) opts.all = 1;
        if (r.bool(0.3)) {
            opts.at = r.range(2, 4);
            opts.ops = r.wpick([[3, [['unsub', slot]]], [3, [['unsub', 's' + r.int(5)]]], [1, [['log', 'x']]], [1, [['unsub', 's' + r.int(5)], ['unsub', slot]]]]);
        }
        return ['sub', slot, this.expr(r.wpick([[3, 'any'], [2, 'int'], [1, 'list']]), r.range(0, 2), { args: sc.args, locals: sc.locals, caches: this.has('cache') }), opts];
    }
    taskSteps(sc) {
        const r = this.r;
        const f = this.f;
        const n = r.range(1, 5);
        const steps = [];
        const wait = () => r.wpick([[1 + f.sleeps, () => ['sleep', r.wpick([[2, r.int(3)], [2, r.range(5, 60)], [1, r.range(100, 900)]])]],
            [0.3 * f.sleeps, () => ['yield', r.range(1, 4), r.range(1, 3)]],
            [f.fetch, () => ['fetch', this.fetchSpec()]],
            [f.signals, () => { const g = this.sigs++; this.pendingSigs.push(g); return ['wait', 'g' + g]; }]])();
        for (let i = 0; i < n; i++) {
            const x = r.wpick([[3, 'wait'], [1, 'join'], [0.5, 'race'], [0.4, 'send'], [3, 'op']]);
            if (x === 'wait') steps.push(wait());
            else if (x === 'join') {
                const parts = [];
                for (let k = r.range(2, 3); k > 0; k--) parts.push(wait());
                steps.push(['join', parts]);
            } else if (x === 'race') {
                const parts = [];
                for (let k = r.range(2, 3); k > 0; k--) parts.push(wait());
                steps.push(['race', parts]);
            } else if (x === 'send') {
                // one part of the step completes another while the task is being polled
                const g = this.sigs++;
                const parts = [['wait', 'g' + g], ['send', 'g' + g, ['k', this.constOf('int')]]];
                if (r.bool()) parts.push(wait());
                steps.push(['join', r.shuffle(parts)]);
            } else steps.push(...this.ops({ ...sc, depth: 1, inTask: true }, 1));
        }
        // signals awaited here must exist before the task runs
        const names = [];
        const collect = (o) => { if (Array.isArray(o)) { if (o[0] === 'wait') names.push(o[1]); o.forEach(collect); } };
        collect(steps);
        this.mksigs.push(...names);
        return steps;
    }
    ivlOp(sc) {
        const r = this.r;
        const slot = 'i' + r.int(3);
        if (r.bool(0.4)) return ['univl', slot];
        const ops = r.bool(0.8) ? [this.setOp(sc)] : [];
        if (r.bool(0.3)) ops.push(['univl', r.bool(0.7) ? slot : 'i' + r.int(3)]);
        return ['ivl', slot, r.pick([50, 60, 100, 130, 250, 400, 1000]), ops];
    }
    fetchSpec() {
        const r = this.r;
        const m = r.wpick([[6, 'GET'], [3, 'POST'], [1, 'PUT'], [1, 'DELETE'], [1, 'PATCH'], [0.5, 'HEAD'], [0.5, 'OPTIONS']]);
        const url = '/api/f' + r.int(6);
        const s = { m, url };
        if (r.bool(0.3)) s.h = r.pick([{ 'x-a': '1' }, { 'x-a': '2', 'x-b': 'q' }, { accept: 'text/plain' }, { 'content-type': 'text/x-odd' }]);
        if (m !== 'GET' && m !== 'HEAD' && r.bool(0.7)) s.b = r.pick([{ text: 'hej ż' }, { text: '' }, { bin: [0, 1, 255, 128] }, { bin: [] }, { json: { a: [1, 'x', null, true], b: { c: -2.5 } } }, { json: 'text' }, { json: [1, 2] }, { json: { x: this.json() } }, { text: this.text() }]);
        this.urls.add(url);
        return s;
    }
    wsOp() {
        const r = this.r;
        if (r.bool(0.3) && this.wsSlots.length) return ['unws', r.pick(this.wsSlots)];
        if (r.bool(0.4) && this.wsSlots.length) return ['wssend', r.pick(this.wsSlots), r.pick(['one', 'two', 'ż😀', '', this.text()])];
        const slot = 'w' + r.int(3);
        const url = `ws://host.test/${this.uno++}`;
        this.wsUrls.push(url);
        if (!this.wsSlots.includes(slot)) this.wsSlots.push(slot);
        const opts = {};
        if (r.bool(0.4)) opts.hello = 'hello';
        if (r.bool(0.4)) opts.echo = 1;
        if (r.bool(0.25)) opts.close_on = 'm1';
        if (r.bool(0.3)) opts.ops = [['inc', 0]];
        return ['ws', slot, url, opts];
    }
    boundaryOp(sc) {
        return this.r.pick([() => ['now'], () => ['tz'], () => ['rand', 3, 9], () => ['rand', 5, 6], () => ['env', this.r.pick(['a', 'b', 'missing'])], () => ['isb'],
            () => { const n = 't' + this.r.int(3); return this.r.bool() ? ['inst', n] : ['elapsed', n]; }, () => ['inst', 't0'], () => ['elapsed', 't0'],
            () => ['cset', this.r.pick(['ca', 'cb']), this.r.pick(['v', 'a b', 'x=y', 'ż;ó', '{}', this.text()]), this.r.pick([1, 5, 1000])],
            () => ['cget', this.r.pick(['ca', 'cb', 'cc'])], () => ['csetj', 'cj', this.r.pick([{ a: 1 }, [1, 'x', null], 'str', 5, { 'k=;': 'ż' }, this.json()]), 1000], () => ['cgetj', 'cj'],
            () => ['alloc', this.r.pick([100000, 300000, 2000000])],
            () => (this.refs.length ? ['ref', this.r.pick(this.refs), this.r.pick(['tagName', 'textContent', 'offsetWidth', 'localName'])] : ['now']),
            () => this.jsOp()])();
    }
    jsOp() {
        const r = this.r;
        const list = this.jsCatalog();
        const c = r.pick(list);
        const name = 'j' + this.jsN++;
        this.jsWant[name] = c.want;
        if (!c.then) return ['js', name, c.steps];
        const name2 = 'j' + this.jsN++;
        this.jsWant[name2] = c.then.want;
        return ['tx', [['js', name, c.steps], ['js', name2, c.then.steps]]];
    }
    jsCatalog() {
        const V = [[5, 5], [-7, -7], ['zażółć 😀', 'zażółć 😀'], ['', ''], [true, true], [false, false], [null, null], [{ f64: '2.5' }, 2.5], [{ u64: '4294967296' }, 4294967296],
            [{ i64: '-4294967297' }, -4294967297], [{ i32: '-2147483648' }, -2147483648], [{ u32: '4294967295' }, 4294967295], [{ json: { a: [1, { b: 'x' }], c: null } }, { a: [1, { b: 'x' }], c: null }],
            [[1, 'a', true], [1, 'a', true]], [{ json: [] }, []], [{ json: {} }, {}], [{ json: 'x' }, 'x'], [{ vec: [1, 2, 255] }, { vec: [1, 2, 255] }]];
        const [v, w] = this.r.bool(0.4) ? this.r.pick(V) : this.jsRandom();
        if (this.r.bool(0.02)) {
            const n = this.r.pick([255, 256, 65535, 65536, 66000]);
            return this.r.pick([
                [{ steps: [['root', 'window'], ['get', 'simEcho'], ['call', 'keys', { many: n }]], want: n }],
                [{ steps: [['root', 'window'], ['get', 'simEcho'], ['call', 'id', { many: n }]], want: { many: n } }],
                [{ steps: [['root', 'window'], ['get', 'simEcho'], ['call', 'make', n]], want: { many: n } }],
                [{ steps: [['root', 'window'], ['get', 'simEcho'], ['call', 'len', { long: n }]], want: n }],
            ]);
        }
        return [
            { steps: [['root', 'window'], ['get', 'innerWidth']], want: 1024 },
            { steps: [['root', 'document'], ['get', 'body'], ['get', 'tagName']], want: 'BODY' },
            { steps: [['root', 'window'], ['set', '__x', v]], want: { undef: 1 }, then: { steps: [['root', 'window'], ['get', '__x']], want: w } },
            { steps: [['root', 'window'], ['get', 'simEcho'], ['call', 'id', v]], want: w },
            { steps: [['root', 'window'], ['get', 'simEcho'], ['call', 'args', v, 'second', { i32: '3' }]], want: [w, 'second', 3] },
            { steps: [['root', 'window'], ['get', 'simEcho'], ['call', 'count', v, v]], want: 2 },
            { steps: [['root', 'window'], ['get', 'nothingHere']], want: { undef: 1 } },
            { steps: [['root', 'window'], ['get', 'simEcho'], ['props', 'p1', 'p2']], want: { p1: 1, p2: 'two' } },
        ];
    }

    // ---- the document
    textNode(sc) {
        const r = this.r;
        return r.wpick([[1, { t: 'tx', s: this.text() + (r.bool(0.3) ? '|' : '') }], [3, { t: 'td', e: this.expr('any', 2, sc) }], [2, { t: 'te', e: this.expr('any', 2, sc) }]]);
    }
    node(depth, sc, inSvg) {
        const r = this.r;
        const f = this.f;
        if (this.budget <= 0) return this.textNode(sc);
        this.budget--;
        if (depth <= 0) return r.bool(0.6) ? this.textNode(sc) : this.el(0, sc);
        const opts = [[5, () => this.el(depth, sc)], [2, () => this.textNode(sc)]];
        const add = (w, fn) => { if (w > 0) opts.push([w, fn]); };
        add(f.rv, () => this.rv(depth, sc));
        add(f.list, () => this.ls(depth, sc));
        add(f.local, () => this.localNode(depth, sc));
        add(f.frag, () => ({ t: 'fr', id: this.id(), ch: this.kids(depth, sc, r.range(1, 3), true) }));
        add(f.macro, () => ({ t: 'dm', id: this.id(), e: this.expr('any', 1, sc) }));
        add(f.cache * (this.spec.caches.length ? 1 : 0) * 0.5, () => ({ t: 'cache', id: this.id(), i: r.int(this.spec.caches.length), ch: this.node(depth - 1, { ...sc, args: [...sc.args, 'any'] }) }));
        add(f.susp * 0.3, () => ({ t: 'susp', id: this.id() }));
        return r.wpick(opts)();
    }
    kids(depth, sc, n, inFrag) {
        const out = [];
        for (let i = 0; i < n; i++) out.push(inFrag ? this.fragKid(depth - 1, sc) : this.node(depth - 1, sc));
        return out;
    }
    fragKid(depth, sc) { return this.node(depth, sc); }
    rv(depth, sc) {
        const r = this.r;
        const type = r.pick(['int', 'bool', 'str']);
        const e = type === 'int' ? ['%', this.expr('int', 1, sc), 3] : this.expr(type, 1, sc);
        const inner = { ...sc, args: [...sc.args, 'any'] };
        const id = this.id();
        const cases = [];
        const vals = type === 'int' ? [0, 1] : type === 'bool' ? [true] : ['a', 'b'];
        for (const v of vals) if (r.bool(0.75)) cases.push([v, r.bool(0.25) ? null : this.node(depth - 1, inner)]);
        const n = { t: 'rv', id, e, cases };
        if (r.bool(0.6)) n.def = this.node(depth - 1, inner);
        return n;
    }
    ls(depth, sc) {
        const r = this.r;
        const id = this.id();
        const e = this.listExpr(r.int(2), sc);
        const inner = { ...sc, args: [...sc.args, 'any'] };
        const plainItem = () => this.el(Math.min(depth - 1, 2), inner);
        const ch = r.wpick([[6, plainItem], [this.f.local, () => this.localNode(depth - 1, inner, true)], [this.f.oddItems === 0 ? 0 : 1.2, () => this.rv(depth - 1, inner)], [this.f.oddItems === 0 ? 0 : 0.5, () => this.node(depth - 1, inner)]])();
        return { t: 'ls', id, e, ch };
    }
    localNode(depth, sc, elOnly) {
        const r = this.r;
        const id = this.id();
        const init = [];
        for (let i = r.range(1, 2); i > 0; i--) init.push(sc.args.length && r.bool(0.3) ? ['a', r.int(sc.args.length)] : ['k', r.int(4)]);
        if (this.spec.routers.length && r.bool(0.6)) init.push(['R', this.spec.routers[0]]);
        const inner = { ...sc, locals: [...sc.locals, ...init.map((x) => (x[0] === 'R' ? 'route' : 'int'))] };
        return { t: 'local', id, init, ch: elOnly ? this.el(Math.max(1, Math.min(depth - 1, 2)), inner) : this.el(depth - 1, inner) };
    }
    el(depth, sc) {
        const r = this.r;
        const f = this.f;
        const id = this.id();
        const tag = r.wpick([[10, r.pick(TAGS.slice(0, 7))], [3, r.pick(TAGS)], [f.events * 0.25, 'input'], [f.links, 'a'], [f.events * 0.1, 'textarea']]);
        const n = { t: 'el', id, tag };
        const attrs = [];
        const used = new Set();
        const attr = (name, kind, e) => {
            if (used.has(name)) return;
            used.add(name);
            attrs.push([name, kind, e]);
        };
        const dynAttr = (name, type) => attr(name, r.wpick([[1, 's'], [2, 'd'], [1.5, 'o']]), null) || (attrs.length && attrs[attrs.length - 1][0] === name && (attrs[attrs.length - 1][2] = attrs[attrs.length - 1][1] === 's' ? ['k', this.constOf(type)] : this.expr(type, 1, sc)));
        if (r.bool(Math.min(0.9, f.attrs * 0.12))) dynAttr('data-a', 'any');
        if (r.bool(Math.min(0.5, f.attrs * 0.05))) dynAttr('title', 'str');
        if (r.bool(Math.min(0.5, f.attrs * 0.05))) dynAttr('data-b', 'bool');
        if (r.bool(0.12)) attr('class', r.pick(['s', 'd', 'o']), null);
        for (const a of attrs) {
            if (a[0] === 'class') a[2] = a[1] === 's' ? r.pick(['k1', 'k2 k3', '']) : ['if', this.expr('bool', 1, sc), 'k1', r.pick(['k4 k5', null, ''])];
        }
        if ((tag === 'input' || tag === 'textarea') && r.bool(0.4)) attr('value', r.pick(['s', 'd']), r.pick(['one', 'two']));
        if (tag === 'a') attr('href', r.pick(['s', 'd']), ['k', r.bool(0.2) || this.spec.routers.includes('hash') ? '#' + this.place('hash').replace(/[ %]/g, '') : this.place('history')]);
        if (this.has('autofocus') && r.bool(0.05)) attr('autofocus', r.pick(['s', 'o']), r.bool() ? '' : this.expr('bool', 1, sc));
        for (const a of attrs) if (a[1] === 's' && Array.isArray(a[2]) && a[2][0] === 'k' && !Array.isArray(a[2][1])) a[2] = a[2][1];
        if (attrs.length) n.attrs = attrs;
        if (r.bool(Math.min(0.8, f.css * 0.08))) n.css = this.css(sc);
        if (this.has('susp') && r.bool(Math.min(0.4, f.susp * 0.04))) n.susp = r.range(1, 2);
        if (r.bool(Math.min(0.85, f.events * 0.09))) n.on = this.handlers(sc, tag);
        if (this.f.boundary && r.bool(0.1)) {
            n.ref = 'ref' + id;
            this.refs.push(n.ref);
        }
        if (!['input', 'textarea', 'path'].includes(tag)) {
            const k = depth <= 0 ? (r.bool(0.5) ? 1 : 0) : r.wpick([[1, 0], [3, 1], [3, 2], [2, 3], [1, 4]]);
            n.ch = depth <= 0 ? (k ? [this.textNode(sc)] : []) : this.kids(depth, sc, k);
        }
        return n;
    }
    css(sc) {
        const r = this.r;
        const one = () => (r.bool(0.5) ? ['s', r.int(8)] : r.bool(0.4) ? ['d', r.pick(['width: 1px;', 'width: 2px;', 'height: 3px; color: pink;', 'margin: 4px;'])] : this.style());
        if (this.has('dyncss') && r.bool(Math.min(0.7, this.f.dyncss * 0.1))) return ['e', this.expr('int', 1, sc)];
        if (r.bool(0.2)) {
            const a = one();
            let b = one();
            let guard = 0;
            while (JSON.stringify(a) === JSON.stringify(b) && guard++ < 9) b = one();
            return ['x', a, b];
        }
        return one();
    }
    // a computed style, often nearly equal to an earlier one: ['d', text, rules it must lead to]
    style() {
        const r = this.r;
        if (!this.styles) this.styles = [];
        const decl = () => r.pick([
            () => ['color', r.pick(['red', 'blue', 'RED'])], () => ['width', r.int(4) + r.pick(['px', 'em'])], () => ['margin', '0 ' + r.int(3) + 'px'], () => ['--v', r.pick(['1', 'x'])],
            () => ['background', r.pick(['url(https://a.test/b.png)', 'url(b.png) no-repeat'])], () => ['font-family', r.pick(['"A B", serif', '"A  B", serif', 'serif'])],
            () => ['content', '"' + r.pick(['a b', 'a  b', ' a', 'a', 'A', 'zażółć', '😀→→', '', "it's"]) + '"']])();
        const block = () => Array.from({ length: r.range(1, 2) }, decl);
        const piece = () => r.wpick([[6, () => ({ d: decl() })], [2, () => ({ sel: r.pick([':hover', ':focus', ':nth-child(2)', '::before']), b: block() })],
            [1, () => ({ q: r.pick(['screen and (max-width: 600px)', '(min-width: 30em)']), b: block(), h: r.bool(0.4) ? block() : null })]])();
        let ast;
        if (this.styles.length && r.bool(0.6)) {
            ast = JSON.parse(JSON.stringify(r.pick(this.styles)));
            if (r.bool(0.55)) {
                const how = r.int(5);
                if (how === 0) ast.parts[r.int(ast.parts.length)] = piece();
                else if (how === 1) ast.parts.push(piece());
                else if (how === 2) ast.sep = r.pick([' ', '\n    ', '']);
                else if (how === 3) ast.parts = r.shuffle(ast.parts);
                else {
                    const q = ast.parts.find((x) => x.d && x.d[1].includes('"'));
                    if (q) q.d[1] = q.d[1].includes('  ') ? q.d[1].replace(/ {2}/, ' ') : q.d[1].replace(/"$/, ' "');
                    else ast.end = !ast.end;
                }
            }
        } else ast = { parts: Array.from({ length: r.range(1, 3) }, piece), sep: r.pick([' ', '\n    ']), end: r.bool(), anim: r.bool(0.12) ? r.range(1, 3) : 0 };
        this.styles.push(ast);
        const body = (b) => b.map(([k, v]) => `${k}: ${v};`).join(ast.sep);
        const rules = [];
        const plain = [];
        const rows = [];
        for (const x of ast.parts) {
            if (x.d) {
                rows.push(`${x.d[0]}: ${x.d[1]}`);
                plain.push(`${x.d[0]}: ${x.d[1]}`);
            } else if (x.sel) {
                rows.push(`${x.sel} {${ast.sep}${body(x.b)} }`);
                rules.push([x.sel, body(x.b)]);
            } else {
                rows.push(`@media ${x.q} {${ast.sep}${body(x.b)}${ast.sep}${x.h ? `:hover { ${body(x.h)} };` : ''} }`);
                rules.push(['MEDIA ' + x.q, `@ { ${body(x.b)} }`]);
                if (x.h) rules.push(['MEDIA ' + x.q, `@:hover { ${body(x.h)} }`]);
            }
        }
        if (ast.anim) {
            rows.push(`animation: ${ast.anim}s ease { 0% { opacity: 0; } 100% { opacity: 0.${ast.anim}; } }`);
            plain.push(`animation: ${ast.anim}s ease KF`);
            rules.push(['KF', `0% { opacity: 0; } 100% { opacity: 0.${ast.anim}; }`]);
        }
        rules.push(['', plain.join(';')]);
        return ['d', rows.join(';' + ast.sep) + (ast.end ? ';' : ''), rules];
    }
    handlers(sc, tag, many) {
        const r = this.r;
        const out = [];
        const n = many ? r.range(2, 6) : r.wpick([[5, 1], [2, 2], [1, 3]]);
        const evs = new Map();
        for (let i = 0; i < n; i++) {
            let ev = r.pick(EVENTS);
            if (tag === 'input' || tag === 'textarea') ev = r.pick(['input', 'change', 'keydown', 'blur', 'click']);
            if (this.has('drop') && r.bool(Math.min(0.5, this.f.drop * 0.1))) ev = 'drop';
            if (!many && r.bool(0.3)) ev = 'click';
            let dyn = this.has('dyn') && r.bool(Math.min(0.6, this.f.dyn * 0.12)) && ev !== 'drop';
            if (evs.has(ev)) {
                if (evs.get(ev) || dyn) continue;
            }
            evs.set(ev, dyn);
            const h = { ev, ops: this.ops({ ...sc, depth: 1 }, r.range(0, 2)) };
            if (dyn) h.dyn = ['%', this.expr('int', 1, { ...sc, routes: false }), 3];
            if (['keydown', 'mousedown', 'mouseup', 'hook_keydown'].includes(ev) && this.has('consume')) h.ret = r.wpick([[1, true], [1, false], [1, this.expr('bool', 1, { args: sc.args, locals: sc.locals, pure: true, noAmap: true })]]);
            out.push(h);
        }
        return out;
    }

    // ---- outcomes
    netOutcome(isCache) {
        const r = this.r;
        const d = this.chance('slownet', 0.15) ? r.pick([1500, 4000, 9000, 700]) : r.pick([0, 1, 3, 10, 40, 150]);
        if (this.chance('netfail', 0.12)) return { k: 'fail', d };
        const o = { k: 'ok', d, status: r.wpick([[7, 200], [1, 404], [1, 500], [0.5, 201], [0.4, 403]]) };
        const val = isCache ? r.pick([1, 2, 3, 'txt', [1, 2, 3], true, null, this.text()]) : r.pick([{ a: 1, b: [1, 'ż', null, 2.5] }, [1, 2], 'txt', 5, null, {}, this.json(), this.json()]);
        o.ct = r.wpick([[6, 'application/json'], [1, 'application/json; charset=utf-8'], [2, 'text/plain'], [0.5, 'application/octet-stream'], [0.5, null]]);
        if (o.ct && o.ct.startsWith('application/json')) o.body = JSON.stringify(val);
        else if (o.ct === 'text/plain') o.body = r.pick(['plain', '', 'żółw', this.text()]);
        else o.bin = r.pick([[1, 2, 3], [], [0, 255, 254, 10]]);
        if (o.ct && o.body !== undefined && r.bool(0.05)) {
            const bytes = [...Buffer.from(o.body)];
            // a byte order mark, which is no part of the text, or bytes which are no text
            if (r.bool(0.6)) bytes.unshift(0xef, 0xbb, 0xbf);
            else if (o.ct === 'text/plain') bytes.splice(r.int(bytes.length + 1), 0, ...r.pick([[0xff], [0xc3], [0xe2, 0x82], [0xf0, 0x9f, 0x98], [0xed, 0xa0, 0x80]]));
            delete o.body;
            o.bin = bytes;
        }
        if (this.chance('malformed', 0.1)) {
            o.ct = 'application/json';
            delete o.bin;
            o.body = r.pick(['{', '', 'nope', '{"a":1}x', '[1,2']);
        }
        if (this.chance('bodyfail', 0.1)) o.bf = 1;
        if (r.bool(0.2)) o.bd = r.pick([1, 20, 300]);
        return o;
    }
    wsOutcome() {
        const r = this.r;
        const k = r.wpick([[5, 'open'], [1.5, 'refuse'], [1, 'hang']]);
        if (k === 'hang') return { k };
        const d = r.pick([0, 1, 10, 100, 700, 3000, 4990, 6000]);
        if (k === 'refuse') return { k, d: Math.min(d, 700) };
        const ev = [];
        for (let i = r.range(0, 6); i > 0; i--) ev.push([r.pick([0, 0, 1, 10, 100, 800]), 'msg', r.pick(['m0', 'm1', 'm2', 'ż😀', '', this.text()])]);
        if (r.bool(0.6)) ev.push([r.pick([0, 1, 50, 500, 3000]), r.wpick([[3, 'close'], [2, 'error'], [0.5, 'bin']])]);
        return { k, d, ev };
    }

    // ---- the whole
    make() {
        const r = this.r;
        const f = this.f;
        this.listKind = r.pick(['int', 'int', 'str', 'pair']);
        this.urls = new Set();
        this.wsUrls = [];
        this.wsSlots = [];
        this.sigs = 0;
        this.mksigs = [];
        this.pendingSigs = [];
        this.refs = [];
        this.jsWant = {};
        this.jsN = 0;
        const spec = { values: [], sources: [], caches: [], routers: [], amaps: [], computeds: [], init: [], head: [], tree: [] };
        this.spec = spec;
        this.vt = [];
        this.pureC = [];
        const nv = r.range(...f.values);
        for (let i = 0; i < nv; i++) {
            const t = i === 0 ? 'int' : r.wpick([[4, 'int'], [1.5, 'bool'], [1.5, 'str'], [f.list * 0.6, 'list']]);
            this.vt.push(t);
            spec.values.push(this.constOf(t));
        }
        if (f.list > 2 && !this.vt.includes('list')) {
            this.vt.push('list');
            spec.values.push(this.listConst());
        }
        if (this.has('src')) {
            for (let i = r.range(1, 2); i > 0; i--) {
                const s = { init: r.int(4) };
                if (this.chance('srcivl', 0.35)) s.ivl = r.pick([70, 150, 400]);
                spec.sources.push(s);
            }
        }
        if (this.has('nav') || this.has('usernav')) spec.routers = r.wpick([[3, ['history']], [3, ['hash']], [0.5, ['history', 'history']], [0.5, ['hash', 'hash']]]);
        if (this.has('cache')) {
            for (let i = r.range(1, 3); i > 0; i--) {
                const c = { m: r.bool(0.85) ? 'GET' : 'POST', url: '/api/c' + spec.caches.length };
                if (this.has('ttl') && r.bool(0.7)) c.ttl = r.pick([1, 1, 2, 5, 30]);
                if (c.m === 'POST' && r.bool(0.5)) c.b = { json: { q: 1 } };
                if (r.bool(0.2)) c.h = { 'x-c': 'v' };
                spec.caches.push(c);
            }
        }
        if (this.has('amaps')) for (let i = r.range(1, 2); i > 0; i--) spec.amaps.push(this.expr('int', 2, { args: ['int'], locals: [], pure: true, noAmap: true, maxC: 0 }));
        const nc = r.range(...f.computeds);
        for (let i = 0; i < nc; i++) {
            let e;
            const k = r.wpick([[8, 'e'], [1, 'vmap'], [i ? 1 : 0, 'cmap'], [0.6, 'vto']]);
            if (k === 'vmap' || k === 'vto') e = k === 'vmap' ? ['vmap', r.int(nv), r.range(1, 3)] : ['vto', r.int(nv)];
            else if (k === 'cmap') e = ['cmap', r.int(i), 1];
            else e = this.expr(r.wpick([[3, 'int'], [2, 'any'], [1, 'str'], [1, 'bool']]), r.range(1, 3), { args: [], locals: [], maxC: i, caches: this.has('cache') && r.bool(0.5), routes: true });
            spec.computeds.push(e);
            this.pureC.push(!this.usesImpure(e));
        }
        const top = { args: [], locals: [], depth: 2, top: true };
        // the tree
        this.budget = r.range(4, Math.max(5, Math.round(f.tree * 2.2)));
        const roots = r.range(1, 3);
        for (let i = 0; i < roots; i++) spec.tree.push(this.node(r.range(2, 4), { args: [], locals: [] }));
        // something shown and removed again in every cycle
        if (this.neutral && r.bool(0.6)) {
            this.budget = Math.max(this.budget, r.range(3, 9));
            const inner = { args: ['any'], locals: [] };
            const e = r.bool(0.3) ? this.node(3, inner) : this.el(r.range(1, 3), inner);
            if (e.t === 'el' && r.bool(0.7)) e.on = this.handlers(inner, e.tag, true);
            spec.tree.push({ t: 'rv', id: this.id(), e: ['%', ['v', 0], 2], cases: [[1, e]] });
            this.shown = true;
        }
        if (r.bool(0.2)) spec.head.push({ t: 'el', id: this.id(), tag: 'title', ch: [{ t: 'td', e: this.expr('str', 1, { args: [], locals: [] }) }] });
        // cached resources asked for by the first rendering
        if (this.has('initFetch') && spec.caches.length) {
            spec.caches.forEach((_, i) => {
                if (r.bool(0.7)) spec.tree.push(r.bool(0.5) ? { t: 'cache', id: this.id(), i, ch: this.el(1, { args: ['any'], locals: [] }) } : { t: 'td', e: ['cat', ['str', ['cache', i]], 'q'] });
            });
        }
        // things started before the first rendering
        if (this.has('subs')) {
            const n = r.range(0, Math.min(5, Math.ceil(f.subs * 0.6)));
            for (let i = 0; i < n; i++) spec.init.push(['sub', 's' + i, this.expr(r.wpick([[3, 'any'], [2, 'int'], [1, 'list']]), r.range(0, 2), { args: [], locals: [], caches: this.has('cache') && this.has('initFetch') }), {}]);
        }
        if (r.bool(0.25)) spec.init.push(...this.ops({ ...top, nosub: true }, r.range(1, 3)));
        if (this.has('ws') && r.bool(0.7)) spec.init.push(this.wsOp());

        // the script
        const script = [];
        let t = 0;
        const loadAt = r.pick([0, 0, 5, 800, null]);
        const slack = this.has('initFetch') || this.has('cache') ? r.pick([10, 200, 1200, 5000]) : 10;
        t = (loadAt === null ? 3000 : loadAt) + slack;
        let n = r.range(...f.script);
        const acts = [];
        const addA = (w, fn) => { if (w > 0) acts.push([w, fn]); };
        addA(8, () => ['ops', this.ops(top, r.wpick([[4, 1], [3, 2], [2, 3], [1, 6]]))]);
        if (this.has('events')) {
            addA(f.events * 1.5, () => {
                let ev = r.pick(EVENTS);
                if (ev === 'hook_keydown') ev = 'keydown';
                if (r.bool(0.3)) ev = 'click';
                if (this.has('drop') && r.bool(Math.min(0.4, f.drop * 0.1))) ev = 'drop';
                const data = {};
                if (ev === 'input' || ev === 'change') data.v = this.text() + r.int(3);
                if (ev === 'keydown') Object.assign(data, { key: r.pick(['a', 'Enter', 'Escape', 'ż', this.chars(1)]), code: 'K' + r.int(3), alt: r.bool(0.2), ctrl: r.bool(0.2), shift: r.bool(0.2), meta: r.bool(0.2) });
                if (ev === 'drop') {
                    data.files = [];
                    for (let i = r.range(0, 3); i > 0; i--) data.files.push({ name: r.pick(['a.txt', 'ż.bin', '', this.text()]), data: r.pick([[], [1, 2, 3], [0, 255, 254], Array.from({ length: 300 }, (_, i2) => i2 % 256)]), d: r.pick([0, 1, 30]), ...(r.bool(0.05) ? { fail: 1 } : {}) });
                }
                return ['ev', ev, r.int(100000), data];
            });
        }
        if (this.has('links')) addA(f.links * 3, () => ['ev', 'click', r.int(100000) | 1, {}]);
        if (this.has('usernav')) {
            addA(f.usernav, () => ['back']);
            addA(f.usernav * 0.6, () => ['fwd']);
            addA(f.usernav * 0.6, () => ['hash', this.place('hash').replace(/%/g, '')]);
        }
        addA(f.stall * 0.8, () => ['stall', r.pick(this.neutral ? [30, 200] : [30, 200, 1500, 6000])]);
        addA(f.wall, () => ['wall', r.pick([-1000, -5000, -3600000, 1000, 60000, 3600000, -1, 1, -86400000])]);
        let cycle;
        if (this.neutral) {
            // what returns to the same state, to be done over and over
            cycle = [];
            for (let i = r.range(1, this.doubling ? 3 : 8); i > 0; i--) cycle.push([r.wpick([[2, 0], [2, 1], [2, r.range(2, 20)], [3, r.range(30, 300)], [1, r.range(500, 1500)], [this.has('ws') ? 1 : 0, r.range(2000, 6000)]]), ...r.wpick(acts)()]);
            n = r.pick([0, 0, 2, 5]);
            if (this.shown) {
                const at = r.int(cycle.length + 1);
                const show = (k) => [r.pick([0, 1, 20, 200]), 'ops', [['set', 0, ['k', k]]]];
                cycle.splice(at, 0, show(1));
                if (r.bool(0.8)) cycle.splice(r.range(at + 1, cycle.length), 0, show(r.pick([0, 2])));
            }
        }
        for (let i = 0; i < n; i++) {
            const dt = r.wpick([[2, 0], [2, 1], [2, r.range(2, 20)], [3, r.range(30, 300)], [1, r.range(500, 1500)], [this.has('ttl') || this.has('ws') ? 1 : 0, r.range(2000, 6000)]]);
            t += dt;
            script.push([t, ...r.wpick(acts)()]);
        }
        // wind down: nothing periodic stays
        t += r.pick([0, 50, 700]);
        const end = [];
        for (let i = 0; i < 3; i++) end.push(['univl', 'i' + i]);
        if (this.prop === 'C14') for (const s of this.wsSlots) if (r.bool(0.5)) end.push(['unws', s]);
        script.push([t, 'ops', end]);
        let cycleEnd;
        if (cycle) {
            const back = [];
            for (let i = 0; i < 3; i++) back.push(['univl', 'i' + i], ['unhook', 'h' + i], ['unws', 'w' + i]);
            for (let i = 0; i < 5; i++) back.push(['unsub', 's' + i]);
            spec.routers.forEach((kind, i) => back.push(['push', i, kind === 'hash' ? 'end' : '/end']));
            const values = spec.values.map((v, i) => ['set', i, ['k', r.bool(0.6) ? v : this.constOf(this.vt[i])]]);
            cycleEnd = [back, r.bool() ? [['tx', values]] : values];
            if (r.bool(0.3)) cycleEnd.reverse();
            if (this.mksigs.length) cycle.unshift([30, 'ops', [...new Set(this.mksigs)].map((g) => ['mksig', g])]);
        }
        if (this.mksigs.length) spec.init.unshift(...[...new Set(this.mksigs)].map((g) => ['mksig', g]));

        const net = {};
        for (let i = 0; i < spec.caches.length; i++) {
            const l = [];
            for (let k = r.range(1, 5); k > 0; k--) l.push(this.netOutcome(true));
            net['/api/c' + i] = l;
        }
        for (const u of this.urls) {
            const l = [];
            for (let k = r.range(1, 4); k > 0; k--) l.push(this.netOutcome(false));
            net[u] = l;
        }
        const ws = {};
        for (const u of this.wsUrls) {
            const l = [];
            for (let k = r.range(1, 5); k > 0; k--) l.push(this.wsOutcome());
            ws[u] = l;
        }
        const sc = {
            seed: this.seed, profile: this.prop, spec, script,
            path: this.has('nav') ? r.pick(['/', '/a', '/b?x=1', '/a#b']) : '/',
            env: { a: 'env ą', b: '' }, loadAt, tie: r.int(1000000), rand: r.int(1000000), tz: r.pick([0, -60, 300]),
            driver: this.has('bundle') && r.bool(Math.min(0.6, f.bundle)) ? 'bundle' : 'ts',
            clamp: this.has('clamp') && r.bool(Math.min(0.6, f.clamp * 0.4)) ? r.pick([1, 4, 1000]) : 0,
            net, ws,
            streaming: this.has('streaming') && r.bool(0.3) ? r.pick(['none', 'mime']) : 'ok',
            hashDelay: r.pick([0, 1, 10]), navDelay: r.pick([0, 1, 10, 60]), popstateOnHash: true, wsCloseDelay: r.pick([1, 20, 300]),
            jsWant: this.jsWant,
            tail: this.has('ws') ? 21000 : 2500,
        };
        if (cycle) {
            Object.assign(sc, { cycle, cycleEnd, cycles: 7, cycleFrom: t, settle: 12000, cap: 9000, ...(this.doubling ? { doubling: 1 } : {}) });
            for (const k of Object.keys(net)) if (r.bool(0.75)) net[k] = [r.pick(net[k])];
            for (const k of Object.keys(ws)) if (r.bool(0.5)) ws[k] = [r.pick(ws[k])];
        }
        return sc;
    }
}

function generate(seed, prop) { return new Gen(seed, prop).make(); }

module.exports = { generate, Gen, PROFILES };
