'use strict';
// The reference model: it follows the event log of one simulated page and decides, event by event,
// whether what the program, the runtime and the document did is what the properties allow.
const S = require('./eval');
const { isKnown } = require('./known');
const { int, eq, str, evaluate, constEval, ROOT, withArg, sub } = S;

const ALL = ['*'];
const J = (x) => {
    try {
        const s = JSON.stringify(x, (_k, v) => (typeof v === 'bigint' ? String(v) : v));
        return s === undefined ? 'undefined' : s.slice(0, 300);
    } catch (e) {
        return String(x);
    }
};
const METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH'];

function deepEq(a, b) {
    if (a === b) return true;
    if (typeof a !== typeof b || a === null || b === null || typeof a !== 'object') return false;
    if (Array.isArray(a) !== Array.isArray(b)) return false;
    if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => deepEq(x, b[i]));
    const ka = Object.keys(a);
    const kb = Object.keys(b);
    return ka.length === kb.length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && deepEq(a[k], b[k]));
}

class Model {
    constructor(sc) {
        this.sc = sc;
        const spec = sc.spec;
        this.spec = spec;
        this.fails = [];
        this.counts = {};
        this.vals = (spec.values || []).map(S.fromJ);
        this.srcs = (spec.sources || []).map((s) => ({ cur: S.fromJ(s.init), live: false, taint: false, ivl: s.ivl }));
        this.caches = (spec.caches || []).map((c, i) => ({
            i, spec: c, cur: ['L'], uninit: true, rec: null, inflight: false, pending: undefined, netWall: 0, netMono: 0, force: false,
            need: null, loadingNext: null, alt: undefined, gotWall: 0, gotMono: 0, entry: false,
        }));
        this.routers = (spec.routers || []).map((k) => ({ kind: k, cur: null, seen: false }));
        this.locals = new Map();
        this.lroutes = new Map(); // routers which belong to a view: uid -> router
        this.lastLocals = new Map(); // env path -> uids of the newest instance
        this.mklNow = [];
        this.subs = new Map();
        this.inSub = null;
        this.phase = 'before'; // before | entry | run
        this.shown = false;
        this.depth = 0;
        this.cbBatches = 0;
        this.cbLogAfterBatch = null;
        this.refresh = false;
        this.txSeen = new Map();
        this.txDepth = 0;
        this.ids = new Map();
        this.batchOpen = 0;
        this.inst = new Map();
        this.genNo = 0;
        this.itemEl = new Map();
        this.vnodeOf = new Map();
        this.tasks = new Map();
        this.expectedReqs = [];
        this.ivls = new Map();
        this.wss = new Map();
        this.wsByUrl = new Map();
        this.wsOld = [];
        this.sigs = new Map();
        this.hooks = new Set();
        this.cookies = new Map();
        this.insts = new Map();
        this.nav = null;
        this.hashPending = 0;
        this.expectPanic = !!sc.expectPanic;
        this.died = false;
        this.deps = new Set();
        this.taintC = new Set();
        this.env = sc.env || {};
        this.dispatching = null;
        this.drops = [];
        this.calls = [];
        this.checks = 0;
        this.initDone = false;
        this.ready = false;
        this.jumped = 0;
        this.buildMemo = null;
        this.stalls = 0;
        this.stalled = 0;
    }

    attach(b) { this.b = b; }
    // true: listed as a known finding, go on; false: reported
    known(prop, id, msg) {
        if (!isKnown(prop, id)) return false;
        this.count('known:' + prop + ':' + id);
        if (!this.knownSeen) this.knownSeen = {};
        if (!this.knownSeen[`${prop}:${id}`]) this.knownSeen[`${prop}:${id}`] = msg;
        return true;
    }
    count(k, n = 1) { this.counts[k] = (this.counts[k] || 0) + n; }

    fail(tags, kind, msg) {
        if (this.fails.length < 20) this.fails.push({ tags, kind, msg: String(msg).slice(0, 1500), step: this.b ? this.b.steps : 0, t: this.b ? this.b.mono : 0 });
        this.b && this.b.t(`FAIL ${tags.join(',')} ${kind}`);
        this.stop = true;
    }

    // ---------------------------------------------------------------- evaluation
    // Plain state as the expression evaluator sees it; what is read is recorded in deps.
    world(deps, memo) {
        const m = this;
        if (!memo) memo = new Map();
        const note = (d) => { if (deps) deps.add(d); };
        const w = {
            value: (i) => { note('v' + i); return i < m.vals.length ? m.vals[i] : null; },
            local: (uid) => { note('l' + uid); return m.lroutes.has(uid) ? m.routeCur(m.lroutes.get(uid)) : m.locals.get(uid); },
            source: (i) => { note('s' + i); return i < m.srcs.length ? m.srcs[i].cur : null; },
            route: (i) => { note('r' + i); return i < m.routers.length ? m.routeCur(m.routers[i]) : null; },
            cache: (i) => { note('x' + i); return i < m.caches.length ? m.cacheVal(i) : null; },
            computed: (i) => {
                note('c' + i);
                const list = m.spec.computeds || [];
                if (i >= list.length) return null;
                let hit = memo.get(i);
                if (!hit) {
                    const own = new Set();
                    const ww = m.world(own, memo);
                    const e = list[i];
                    let v;
                    if (e[0] === 'vmap') v = int(ww.value(e[1])) + (e[2] === undefined ? 1 : e[2]);
                    else if (e[0] === 'cmap') v = int(ww.computed(e[1])) + (e[2] === undefined ? 1 : e[2]);
                    else if (e[0] === 'vto') v = ww.value(e[1]);
                    else v = evaluate(e, ROOT, ww);
                    hit = { v, deps: own };
                    memo.set(i, hit);
                }
                if (deps) for (const d of hit.deps) deps.add(d);
                return hit.v;
            },
            amap: (i, k) => {
                const list = m.spec.amaps || [];
                if (i >= list.length) return null;
                return evaluate(list[i], withArg(ROOT, k), w);
            },
        };
        return w;
    }
    ev(e, env, deps) { return evaluate(e, env || ROOT, this.world(deps || null, this.buildMemo)); }

    cacheVal(i) {
        const c = this.caches[i];
        return c.cur;
    }
    routeCur(r) {
        if (!r.seen) return this.address(r.kind);
        return r.cur;
    }
    address(kind) {
        const u = new URL(this.b.entries[this.b.index]);
        if (kind === 'hash') {
            const raw = u.hash.slice(1);
            try {
                return decodeURIComponent(raw);
            } catch (e) {
                return raw;
            }
        }
        return u.pathname + u.search + u.hash;
    }

    // ---------------------------------------------------------------- callbacks in and out
    onEnter(name, depth) {
        this.depth = depth;
        if (depth === 1) {
            this.cbBatches = 0;
            this.cbFirst = false;
            this.cbLogAfterBatch = false;
            this.refresh = false;
            this.txSeen.clear();
            this.txDepth = 0;
            this.mklNow = [];
            this.curEnv = ROOT;
            this.inEntry = name !== 'wasm_callback';
            if (this.inEntry) this.phase = 'entry';
            this.count('callbacks');
        } else {
            this.newTx();
        }
    }
    onExit(name, depth, dead) {
        this.depth = depth - 1;
        if (dead) return;
        if (depth === 1) {
            if (this.inEntry) this.phase = 'run';
            this.ready = this.initDone;
            this.endOfCallback();
        }
    }

    endOfCallback() {
        if (this.stop || this.died) return;
        if (this.txDepth !== 0) return; // a trapped callback
        if (!this.checkSubs()) return;
        if (this.ready) this.check(false);
    }
    checkSubs() {
        for (const [slot, s] of this.subs) {
            const v = this.ev(s.e, s.env);
            if (!eq(v, s.last)) {
                this.fail(['C02', 'C01'], 'missed-notification', `subscriber ${slot} last got ${J(s.last)} but its value is now ${J(v)}`);
                return false;
            }
        }
        return true;
    }

    onUncaught(where, err, text) {
        if (this.expectPanic) return;
        if (this.died) return;
        this.fail(ALL, 'uncaught', `an exception escaped into the page (${where}): ${text}`);
    }
    onTrap(err) {
        this.died = true;
        if (this.expectPanic) return;
        this.fail(ALL, 'trap', `the program trapped: ${err.message}`);
    }
    onConsole(level, text) {
        if (level === 'error' || level === 'warn') {
            const head = text.replace(/^%c\w+%c [^ ]+ ?/, '').slice(0, 60);
            this.count('console:' + level + ':' + head.replace(/[0-9]+/g, 'N').slice(0, 40));
            if (/^bulk_update - item/.test(text)) this.fail(['C08', 'C04'], 'bad-command', `the browser could not apply a document command: ${text}`);
            if (/There was already a callback|The callback is missing with the id|No support for the event/.test(text)) this.fail(['C08', 'C06', 'C07'], 'bad-callback', text);
            if (/panicked at|Panic|panic/.test(text) && !this.expectPanic) this.fail(ALL, 'panic', text);
        }
    }
    onMutation(kind, node, detail) {
        if (!this.b || this.b.simAct || !this.b.exports) return;
        if (this.batchOpen > 0) return;
        if (kind === 'value') return;
        if (this.phase === 'before') return;
        this.fail(['C08'], 'stray-mutation', `the document was changed (${kind}) outside a batch`);
    }

    // ---------------------------------------------------------------- batches
    onBatchBegin(commands) {
        this.batchOpen++;
        this.count('batches');
        if (this.depth === 0) this.fail(['C08'], 'batch-outside', 'a batch was applied outside any event');
        const first = !this.shown;
        this.shown = true;
        if (first) {
            this.cbFirst = true;
            this.checkBarrier();
        }
        this.cbBatches++;
        if (this.cbBatches > 1 && !this.cbFirst) this.fail(['C08'], 'two-batches', 'one event produced more than one batch of document changes');
        if (!Array.isArray(commands)) {
            this.fail(['C08'], 'bad-batch', 'a batch is not a list of commands');
            return;
        }
        this.count('commands', commands.length);
        for (const c of commands) this.command(c);
        if (!this.cbFirst) this.cbLogAfterBatch = true;
    }
    onBatchEnd() { this.batchOpen--; }

    command(c) {
        const need = (id, kinds, what) => {
            const k = this.ids.get(id);
            if (k === undefined || !kinds.includes(k)) {
                this.fail(['C08', 'C04'], 'unknown-node', `command ${J(c)} refers to ${what} ${id} which ${k === undefined ? 'does not exist' : 'is a ' + k}`);
            }
        };
        const fresh = (id) => {
            if (this.ids.has(id)) this.fail(['C08'], 'duplicate-id', `command ${J(c)} creates a node that exists already`);
        };
        const any = ['node', 'text', 'comment'];
        switch (c.type) {
            case 'create_node': fresh(c.id); this.ids.set(c.id, 'node'); break;
            case 'create_text': fresh(c.id); this.ids.set(c.id, 'text'); break;
            case 'create_comment': fresh(c.id); this.ids.set(c.id, 'comment'); break;
            case 'update_text': need(c.id, ['text'], 'text'); break;
            case 'set_attr': case 'remove_attr': need(c.id, ['node'], 'element'); break;
            case 'remove_node': need(c.id, ['node'], 'element'); this.ids.delete(c.id); break;
            case 'remove_text': need(c.id, ['text'], 'text'); this.ids.delete(c.id); break;
            case 'remove_comment': need(c.id, ['comment'], 'comment'); this.ids.delete(c.id); break;
            case 'insert_before':
                need(c.parent, ['node'], 'parent');
                need(c.child, any, 'child');
                if (c.ref_id !== null && c.ref_id !== undefined) need(c.ref_id, any, 'reference');
                break;
            case 'callback_add': case 'callback_remove': need(c.id, ['node'], 'element'); break;
            case 'insert_css': break;
            default: this.fail(['C08'], 'unknown-command', `unknown document command ${J(c)}`);
        }
    }

    // ---------------------------------------------------------------- log
    onLog(l) {
        this.count('log:' + l[0]);
        if (this.stop) return;
        const b = this.b;
        const k = l[0];
        if (this.depth >= 1 && this.cbLogAfterBatch && !['after'].includes(k)) {
            this.fail(['C08', 'C02'], 'batch-before-end', `the document batch of an event was sent before its handlers had finished (then ${J(l)})`);
            return;
        }
        const passive = ['N', 'src+', 'src-', 'cv', 'rv', 'mkl', 'after', 'unsub', 'unsub.', 'log', 'ivl-', 'lrv', 'srcset', 'cmap'];
        if (this.refresh && !passive.includes(k) && !this.inEntry) {
            this.fail(['C02', 'C08'], 'notified-early', `a subscriber was called before the transaction had finished (then ${J(l)})`);
            return;
        }
        switch (k) {
            case 'set':
                this.vals[l[1]] = l[2];
                this.newTx();
                break;
            case 'chg':
                if (!eq(this.vals[l[1]], l[2])) this.fail(['C01', 'C02'], 'stale-read', `change of value ${l[1]} saw ${J(l[2])}, it holds ${J(this.vals[l[1]])}`);
                this.vals[l[1]] = l[3];
                this.newTx();
                break;
            case 'setl': this.locals.set(l[1], l[2]); this.newTx(); break;
            case 'srcset': {
                const s = this.srcs[l[1]];
                if (!s.live) this.fail(['C03', 'C10'], 'released-source-active', `source ${l[1]} was released but is still producing values`);
                s.cur = l[2];
                this.newTx();
                break;
            }
            case 'mkl': {
                const uids = [];
                for (const [uid, v, kind] of l[2]) {
                    if (kind) this.lroutes.set(uid, { kind, cur: this.address(kind), seen: true, past: new Set() });
                    else this.locals.set(uid, v);
                    uids.push(uid);
                }
                this.lastLocals.set(l[1], uids);
                this.mklNow.push(l[1]);
                break;
            }
            case 'tx+': if (this.txDepth === 0) this.newTx(); this.txDepth++; break;
            case 'tx-': this.txDepth--; break;
            case 'tx.': this.newTx(); break;
            case 'read': this.onRead(l); break;
            case 'sub': {
                this.subs.delete(l[1]);
                this.inSub = { slot: l[1], n: 0 };
                const env = this.curEnv || ROOT;
                this.subs.set(l[1], { e: l[2], env, all: !!(l[3] && l[3].all), last: undefined, n: 0, opts: l[3] || {} });
                break;
            }
            case 'sub.':
                if (this.inSub && this.inSub.n !== 1) this.fail(['C02'], 'initial-delivery', `a new subscriber was called ${this.inSub.n} times when it subscribed`);
                this.inSub = null;
                break;
            case 'N': this.onNotify(l); break;
            case 'unsub': break;
            case 'unsub.': this.subs.delete(l[1]); this.goneSubs = true; break;
            case 'src+': {
                const s = this.srcs[l[1]];
                if (s.live) this.fail(['C03'], 'connected-twice', `source ${l[1]} was connected while it was connected`);
                s.live = true;
                break;
            }
            case 'src-': {
                const s = this.srcs[l[1]];
                if (!s.live) this.fail(['C03'], 'released-twice', `source ${l[1]} was released while it was not connected`);
                s.live = false;
                break;
            }
            case 'cv': this.onCacheSeen(l[1], l[2]); break;
            case 'cmap': this.onCacheMap(l); break;
            case 'rv': this.onRouteSeen(this.routers[l[1]], l[2]); break;
            case 'lrv': this.onRouteSeen(this.lroutes.get(l[1]), l[2]); break;
            case 'H': this.onHandler(l); break;
            case 'H.': {
                const x = this.curHandler;
                if (x && x.h.ret !== undefined) x.consumed = S.truthy(this.ev(x.h.ret, x.v.env));
                this.curHandler = null;
                this.curEnv = ROOT;
                break;
            }
            case 'I': this.onInterval(l[1]); break;
            case 'ivl+': this.ivls.set(l[1], { env: this.curEnv || ROOT, ms: l[2], t: b.mono, n: 0, stalls: this.stalls, stalled: this.stalled }); break;
            case 'ivl-': this.ivls.delete(l[1]); break;
            case 'spawn': this.tasks.set(l[1], { env: this.curEnv || ROOT, id: l[1], steps: l[2], at: -1, open: false, started: false, ended: false, t: b.mono }); break;
            case 'spawn.': break;
            case 'T': this.onTask2(l); break;
            case 'signal': this.sigs.set(l[1], { v: l[2], t: b.mono }); break;
            case 'ws+': this.wsNewSlot(l[1], l[2]); break;
            case 'ws+.': break;
            case 'ws-': this.wsDrop(l[1]); break;
            case 'ws-.': break;
            case 'W': this.onWsNote(l); break;
            case 'wssend': this.onWssend(l); break;
            case 'push': case 'replace': this.navSeen = (this.navSeen || 0) + 1; this.navStart(l); break;
            case 'push.': case 'replace.': this.navEnd(l); break;
            case 'back': break;
            case 'upd': this.onUpd(l); break;
            case 'forget': {
                const c = this.caches[l[1]];
                c.cur = ['L'];
                c.uninit = true;
                if (c.pending !== undefined) c.crossed = true; // forgotten before or after its answer was taken over?
                this.newTx();
                break;
            }
            case 'cset': this.cookies.set(l[1], { v: l[2], until: b.wall() + l[3] * 1000 }); break;
            case 'csetj': this.cookies.set(l[1], { j: l[2], until: b.wall() + l[3] * 1000 }); break;
            case 'cget': this.onCookie(l, false); break;
            case 'cgetj': this.onCookie(l, true); break;
            case 'now':
                if (l[1] !== b.wall()) this.fail(['C26', 'C24'], 'clock-value', `utc_now gave ${l[1]}, the clock says ${b.wall()}`);
                break;
            case 'tz':
                if (l[1] !== -60 * (this.sc.tz || 0)) this.fail(['C26'], 'timezone', `timezone_offset gave ${l[1]}, expected ${-60 * (this.sc.tz || 0)}`);
                break;
            case 'inst': this.insts.set(l[1], b.wall()); break;
            case 'elapsed?': break;
            case 'elapsed': {
                const t0 = this.insts.get(l[1]);
                const d = Math.max(0, b.wall() - t0);
                if (l[2] !== d || l[3] !== Math.floor(d / 1000)) this.fail(['C24'], 'elapsed', `elapsed gave ${l[2]} ms and ${l[3]} s, expected ${d} ms`);
                break;
            }
            case 'rand':
                if (!(l[3] >= l[1] && l[3] <= l[2])) this.fail(['C26'], 'random-range', `get_random(${l[1]}, ${l[2]}) gave ${l[3]}`);
                break;
            case 'env': {
                const want = l[1] === 'spec' ? undefined : Object.prototype.hasOwnProperty.call(this.env, l[1]) ? this.env[l[1]] : null;
                if (want !== undefined && want !== l[2]) this.fail(['C26'], 'env', `env ${l[1]} gave ${J(l[2])}, expected ${J(want)}`);
                break;
            }
            case 'isb': if (l[1] !== true) this.fail(['C26'], 'is-browser', 'is_browser is not true in the browser'); break;
            case 'js+': this.jsName = l[1]; break;
            case 'js': this.onJs(l); break;
            case 'jsc': break;
            case 'ref': this.onRef(l); break;
            case 'class': break;
            case 'after': break;
            case 'unhook': break;
            case 'log': break;
            case 'init': this.initDone = true; break;
            case 'badop': this.fail(ALL, 'harness', `the simulated program did not know an operation: ${J(l)}`); break;
            default: break;
        }
    }

    newTx() { if (this.inEntry && this.txDepth === 0) this.txSeen.clear(); }

    onRead(l) {
        const env = this.envFor(l[3]);
        if (env === null) return;
        const deps = new Set();
        const v = this.ev(l[1], env, deps);
        // a derived value that is only read may stay around, with whatever sources it uses now or later
        for (const d of deps) if (d[0] === 's') this.srcs[Number(d.slice(1))].taint = true;
        for (const d of deps) if (d[0] === 'c') this.taintC.add(Number(d.slice(1)));
        this.count('reads');
        if (!eq(v, l[2])) this.fail(['C01'], 'wrong-read', `reading ${J(l[1])} gave ${J(l[2])}, its definition over the current values gives ${J(v)}`);
    }
    envFor(path) {
        if (path === '') return ROOT;
        return this.curEnv && this.curEnv.path === path ? this.curEnv : null;
    }

    onNotify(l) {
        const [, slot, v] = l;
        const s = this.subs.get(slot);
        if (!s) {
            this.fail(['C03'], 'called-after-drop', `subscriber ${slot} was called after its subscription had been dropped`);
            return;
        }
        const now = this.ev(s.e, s.env);
        if (!eq(now, v)) {
            this.fail(['C01', 'C02'], 'wrong-delivery', `subscriber ${slot} of ${J(s.e)} got ${J(v)}, the current values give ${J(now)}`);
            return;
        }
        if (this.inSub && this.inSub.slot === slot) {
            this.inSub.n++;
        } else {
            if (this.txDepth > 0) {
                this.fail(['C02'], 'notified-inside', `subscriber ${slot} was called inside a transaction`);
                return;
            }
            if (!this.inEntry) this.refresh = true;
            const n = (this.txSeen.get(slot) || 0) + 1;
            this.txSeen.set(slot, n);
            if (n > 1) {
                this.fail(['C02'], 'notified-twice', `subscriber ${slot} was called ${n} times for one transaction`);
                return;
            }
            if (!s.all && eq(v, s.last)) {
                this.fail(['C02'], 'notified-unchanged', `subscriber ${slot} was called with ${J(v)}, which it already had`);
                return;
            }
        }
        s.last = v;
        s.n++;
        this.count('notifications');
    }

    // ---------------------------------------------------------------- caches and requests
    bodyVal(body) { return body.text !== undefined ? body.text : body.json !== undefined ? S.fromJ(body.json) : body.bin; }

    // what the issuer of a request must get: { err: true } or { status, body }
    outcomeOf(rec) {
        const o = rec.outcome;
        if (o.k === 'fail' || rec.refused) return { err: true };
        if (rec.state === 'bodyfail') return { err: true };
        const ct = o.ct === undefined || o.ct === null ? null : String(o.ct).split(';')[0].trim().toLowerCase();
        const bytes = o.bin ? Buffer.from(o.bin) : Buffer.from(o.body === undefined ? '' : o.body, 'utf8');
        if (ct === 'application/json') {
            try {
                return { status: o.status, body: { json: JSON.parse(new TextDecoder().decode(bytes)) } };
            } catch (e) {
                return { err: true };
            }
        }
        if (ct === 'text/plain') return { status: o.status, body: { text: new TextDecoder().decode(bytes) } };
        return { status: o.status, body: { bin: [...bytes] } };
    }
    cacheOutcome(rec) {
        const o = this.outcomeOf(rec);
        if (o.err) return ['E', '?'];
        if (o.status === 200) return ['R', this.bodyVal(o.body)];
        if (o.status === 404) return ['E', '?'];
        return ['E', `status ${o.status}`];
    }
    valMatches(want, got) {
        if (want[0] !== got[0]) return false;
        if (want[0] === 'L') return true;
        if (want[0] === 'E') return want[1] === got[1];
        return eq(want[1], got[1]);
    }
    commitCache(c, v) {
        c.cur = v || c.pending;
        c.pending = undefined;
        c.alt = undefined;
        c.rec = null;
        c.uninit = false;
        c.force = false;
        c.need = null;
        c.gotMono = this.b.mono;
        c.gotWall = this.b.wall();
        c.crossed = false;
        this.count('cache-settled:' + c.cur[0]);
    }
    takeAlt(c) {
        c.cur = c.alt;
        c.alt = undefined;
        if (c.cur[0] !== 'L') {
            c.uninit = false;
            if (c.need && !c.force) c.need = null;
        }
    }
    // certainly expired / possibly expired
    expired(c) {
        if (c.spec.ttl === undefined || c.spec.ttl === null) return false;
        const ttl = c.spec.ttl * 1000 + 50 + (c.gotMono - c.netMono);
        return this.b.wall() > Math.max(c.netWall, c.gotWall) + ttl && this.b.mono > c.gotMono + ttl;
    }
    maybeExpired(c) {
        if (c.spec.ttl === undefined || c.spec.ttl === null) return false;
        const ttl = c.spec.ttl * 1000;
        return this.b.wall() >= c.netWall + ttl || this.b.mono >= c.netMono + ttl || this.jumped > 0;
    }
    noteNeed(c, why, soft) {
        if (c.need === null && !c.inflight && c.pending === undefined && !c.rec) c.need = { t: this.b.mono, why, soft };
        if (this.inEntry) c.entry = true;
    }
    onCacheSeen(i, v) {
        const c = this.caches[i];
        this.count('cache-reads');
        if (this.valMatches(c.cur, v)) {
        } else if (c.pending !== undefined && this.valMatches(c.pending, v)) {
            this.commitCache(c, v);
        } else if (c.alt !== undefined && this.valMatches(c.alt, v)) {
            this.takeAlt(c);
        } else {
            this.fail(['C12', 'C11'], 'cache-value', `cache ${i} reads ${J(v)}; it holds ${J(c.cur)}${c.pending ? ' and was answered ' + J(c.pending) : ''}`);
            return;
        }
        if (c.uninit) this.noteNeed(c, 'read before it was loaded');
        else if (this.expired(c) && !c.inflight) this.noteNeed(c, 'read after it had expired', true);
    }
    onCacheMap(l) {
        const c = this.caches[l[1]];
        const rec = c.rec;
        if (!rec || rec.settled !== true) {
            this.fail(['C11', 'C12'], 'phantom-response', `cache ${l[1]} processed a response nobody sent: ${J(l)}`);
            return;
        }
        const o = this.outcomeOf(rec);
        if (o.err || o.status !== l[2] || !this.bodyEq(o.body, l[3])) {
            this.fail(['C11', 'C12'], 'wrong-response', `cache ${l[1]} was given ${J(l.slice(2))}, the response to its request was ${J(o)}`);
            return;
        }
        if (c.pending !== undefined) this.commitCache(c);
    }
    bodyEq(a, b) {
        if (!a || !b) return false;
        if (a.text !== undefined) return a.text === b.text;
        if (a.json !== undefined) return b.json !== undefined && this.jsonEq(a.json, b.json);
        return Array.isArray(b.bin) && deepEq(a.bin, b.bin);
    }
    jsonEq(a, b) {
        if (typeof a === 'number') {
            if (b && typeof b === 'object' && b.$num !== undefined) return Object.is(a, Number(b.$num)) || a === Number(b.$num);
            return a === b;
        }
        if (a === null || typeof a !== 'object') return a === b;
        if (b === null || typeof b !== 'object' || Array.isArray(a) !== Array.isArray(b)) return false;
        if (Array.isArray(a)) return a.length === b.length && a.every((x, i) => this.jsonEq(x, b[i]));
        const ka = Object.keys(a);
        return ka.length === Object.keys(b).length && ka.every((k) => Object.prototype.hasOwnProperty.call(b, k) && this.jsonEq(a[k], b[k]));
    }
    // update or force_update: ignored while one is queued or under way
    onUpd(l) {
        const c = this.caches[l[1]];
        if (this.inEntry) c.entry = true;
        if (c.inflight || c.need !== null) return;
        if (c.pending !== undefined || c.rec) {
            // the answer has arrived, but whether the program has taken it over already is not known
            if (l[3]) c.late = true;
            if (l[2]) c.loadingNext = 'maybe';
            return;
        }
        const sure = c.uninit || !this.maybeExpired(c);
        if (l[3]) {
            c.force = true;
            if (!c.unsure) c.need = { t: this.b.mono, why: 'told to refresh', soft: !c.uninit && this.maybeExpired(c) };
        } else if (c.uninit || this.expired(c)) {
            c.need = { t: this.b.mono, why: 'told to update', soft: !c.uninit };
        }
        if (l[2]) c.loadingNext = sure ? 'sure' : 'maybe';
    }

    reqMatches(rec, j) {
        const m = METHODS.includes(j.m) ? j.m : 'GET';
        if (rec.method !== m || rec.url !== (j.url || '')) return false;
        const want = {};
        for (const k of Object.keys(j.h || {})) want[k.toLowerCase()] = String(j.h[k]).trim();
        let body = null;
        if (j.b) {
            if (typeof j.b.text === 'string') {
                body = { text: j.b.text };
                if (want['content-type'] === undefined) want['content-type'] = 'text/plain; charset=utf-8';
            } else if (Array.isArray(j.b.bin)) {
                body = { bin: j.b.bin };
                if (want['content-type'] === undefined) want['content-type'] = 'application/octet-stream';
            } else if (j.b.json !== undefined) {
                body = { json: j.b.json };
                if (want['content-type'] === undefined) want['content-type'] = 'application/json; charset=utf-8';
            }
        }
        if (body && typeof body.json === 'string' && rec.body && rec.body.text === body.json && rec.headers['content-type'] === ((j.h || {})['content-type'] || 'text/plain; charset=utf-8')) {
            // known finding: a json body which is a string is sent as plain text
            rec.rawJson = true;
            return isKnown('C11', 'json-string-body');
        }
        if (!deepEq(want, rec.headers)) return false;
        if (body === null) return rec.body === null;
        if (rec.body === null) return false;
        if (body.json !== undefined) {
            try {
                return this.jsonEq(JSON.parse(rec.body.text), body.json) || deepEq(JSON.parse(rec.body.text), body.json);
            } catch (e) {
                return false;
            }
        }
        return deepEq(body, rec.body);
    }

    onReq(rec) {
        if (this.stop) return;
        this.count('requests');
        const k = this.expectedReqs.findIndex((x) => !x.rec && this.reqMatches(rec, x.spec));
        if (k >= 0) {
            if (rec.rawJson && typeof ((this.expectedReqs[k].spec.b || {}).json) === 'string') this.known('C11', 'json-string-body', `${J(this.expectedReqs[k].spec)} went out as ${J(rec.body)}`);
            this.expectedReqs[k].rec = rec;
            rec.owner = this.expectedReqs[k];
            return;
        }
        const c = this.caches.find((x) => (x.spec.url || '') === rec.url);
        if (!c) {
            this.fail(['C11'], 'unexpected-request', `a request nobody issued (or a second time): ${rec.method} ${rec.url} ${J(rec.headers)} ${J(rec.body)}`);
            return;
        }
        if (!this.reqMatches(rec, c.spec)) {
            this.fail(['C11', 'C12'], 'wrong-request', `cache ${c.i} asked for ${J(c.spec)} but ${rec.method} ${rec.url} ${J(rec.headers)} ${J(rec.body)} was sent`);
            return;
        }
        if (c.inflight) {
            this.fail(['C12'], 'second-request', `cache ${c.i} sent a request while one was under way`);
            return;
        }
        if (!c.uninit && !c.force && !c.late && !this.maybeExpired(c)) {
            this.fail(['C12'], 'needless-request', `cache ${c.i} sent a request although its result had not expired (settled at ${c.netMono}, now ${this.b.mono}, ttl ${c.spec.ttl}s)`);
            return;
        }
        let other;
        if (c.crossed) {
            other = c.pending;
            c.pending = undefined;
            c.crossed = false;
        } else if (c.pending !== undefined) this.commitCache(c);
        c.inflight = true;
        c.rec = rec;
        rec.cache = c;
        c.need = null;
        c.force = false;
        c.late = false;
        c.alt = other;
        if (c.loadingNext === 'sure') c.cur = ['L'];
        else if (c.loadingNext === 'maybe') c.alt = ['L'];
        if (c.loadingNext) this.count('cache-with-loading');
        c.loadingNext = null;
    }
    onNet(rec) {
        rec.settled = true;
        rec.settledAt = this.b.mono;
        const c = rec.cache;
        if (c) {
            c.inflight = false;
            c.netWall = this.b.wall();
            c.netMono = this.b.mono;
            c.pending = this.cacheOutcome(rec);
        }
    }

    checkBarrier() {
        for (const c of this.caches) {
            if (!c.entry) continue;
            if (c.uninit && (c.inflight || (!c.rec && c.pending === undefined))) {
                this.fail(['C13'], 'shown-early', `the page was shown while cache ${c.i}, requested by the first rendering, had not settled`);
            }
        }
    }

    // ---------------------------------------------------------------- routes
    onRouteSeen(r, v) {
        const want = this.address(r.kind);
        if (!r.past) r.past = new Set();
        this.count('route-reads');
        if (v !== want) {
            const mayLag = ((r.seen && v === r.cur) || r.past.has(v)) && this.routeLagging();
            if (!mayLag) {
                this.fail(['C15'], 'stale-route', `the route reads ${J(v)}, the address bar says ${J(want)}`);
                return;
            }
        }
        r.cur = v;
        r.seen = true;
    }
    routeLagging() {
        for (const t of this.b.tasks.values()) if (t.source === 'history') return true;
                // several routers are told one after another
        return this.inHistory === true || this.nav !== null || (this.moved && this.routers.length + this.lroutes.size > 1);
    }
    navStart(l) {
        const b = this.b;
        const kind = l[0] === 'push' ? (typeof l[1] === 'string' ? this.lroutes.get(+l[1].slice(1)) : this.routers[l[1]]).kind : 'history';
        const target = l[0] === 'push' ? l[2] : l[1];
        this.nav = { l, kind, target, index: b.index, n: b.entries.length, before: this.address(kind), href: b.entries[b.index] };
    }
    navEnd(l) {
        const b = this.b;
        const n = this.nav;
        this.nav = null;
        if (!n) return;
        this.count('navigations');
        const same = n.before === n.target;
        let href;
        try {
            if (n.kind === 'hash') {
                const u = new URL(n.href);
                u.hash = n.target;
                href = u.href;
            } else {
                href = new URL(n.target, n.href).href;
            }
        } catch (e) {
            return;
        }
        const gotHref = b.entries[b.index];
        if (same) {
            if (b.entries.length !== n.n || b.index !== n.index || gotHref !== n.href) this.fail(['C15'], 'needless-entry', `navigating to the current address ${J(n.target)} changed the history`);
            return;
        }
        if (gotHref !== href) {
            this.fail(['C15'], 'wrong-address', `after navigating to ${J(n.target)} the address is ${gotHref}, expected ${href}`);
            return;
        }
        const want = l[0] === 'replace.' || href === n.href ? n.index : n.index + 1;
        const wantN = l[0] === 'replace.' || (n.kind === 'hash' && href === n.href) ? n.n : n.index + 2;
        if (b.index !== (n.kind !== 'hash' && l[0] === 'push.' ? n.index + 1 : want) || b.entries.length !== wantN) {
            this.fail(['C15'], 'history-entries', `navigating to ${J(n.target)} left ${b.entries.length} entries at position ${b.index}, expected ${wantN} at ${want}`);
        }
    }
    checkRoutes(final) {
        const all = this.routers.map((r, i) => ['r' + i, r]);
        for (const [uid, r] of this.lroutes) all.push(['l' + uid, r]);
        all.forEach(([name, r]) => {
            if (!this.deps.has(name)) return;
            if (!r.seen) return;
            const want = this.address(r.kind);
            if (r.cur !== want && !this.routeLagging()) {
                this.fail(['C15'], 'route-disagrees', `the route is ${J(r.cur)} but the address bar says ${J(want)}`);
            }
        });
    }

    // ---------------------------------------------------------------- tasks, sleeps, intervals
    onTask2(l) {
        const t = this.tasks.get(l[1]);
        const b = this.b;
        if (!t) {
            this.fail(['C09'], 'phantom-task', `an unknown task ran: ${J(l)}`);
            return;
        }
        const bad = (why) => this.fail(['C09'], 'task-order', `task ${t.id}: ${why} (${J(l)})`);
        if (t.ended) return bad('it ran again after it had ended');
        if (l[2] === 'start') {
            if (t.started) return bad('it was started twice');
            t.started = true;
            return;
        }
        if (!t.started) return bad('a step ran before the task started');
        if (l[2] === 'end') {
            if (t.open || t.at !== t.steps.length - 1) return bad(`it ended after step ${t.at} of ${t.steps.length}`);
            t.ended = true;
            this.count('tasks-done');
            return;
        }
        const k = l[2];
        const what = l[3];
        this.curEnv = t.env;
        if (what === 'q') {
            const w = t.open && k === t.at && t.wait.find((w) => w.kind === 'fetch' && !w.e.due && deepEq(w.e.spec, l[4]));
            if (!w) return bad('it made a request outside of its step');
            w.e.due = true;
            this.expectedReqs.push(w.e);
            return;
        }
        if (what === 'y') {
            if (!t.open || k !== t.at) return bad('it was polled outside of its step');
            for (const w of t.wait) if (w.kind === 'yield') w.due = b.mono + (this.sc.clamp || 0);
            return;
        }
        if (what === 'b' || what === 'x') {
            if (t.open || k !== t.at + 1) return bad(`step ${k} began after step ${t.at}${t.open ? ' which had not finished' : ''}`);
            t.at = k;
            t.open = what === 'b';
            if (what === 'b') {
                const op = t.steps[k];
                const parts = op[0] === 'join' || op[0] === 'race' ? op[1] : [op];
                t.wait = parts.map((p) => this.startWait(p, t, k));
                t.join = op[0] === 'join';
                t.race = op[0] === 'race';
            }
            return;
        }
        if (!t.open || k !== t.at) return bad(`step ${k} finished without having begun`);
        t.open = false;
        if (t.race) {
            const [i, v] = l[4];
            this.endWait(t.wait[i], v, t, k);
            t.wait = null;
            this.count('races');
            return;
        }
        const results = t.join ? l[4] : [l[4]];
        if (!Array.isArray(results) || results.length !== t.wait.length) return bad('a joined step gave the wrong number of results');
        t.wait.forEach((w, n) => this.endWait(w, results[n], t, k));
        t.wait = null;
    }
    startWait(p, t, k) {
        const b = this.b;
        if (p[0] === 'sleep') return { kind: 'sleep', ms: p[1], t: b.mono, due: b.mono + Math.max(p[1], this.sc.clamp || 0) };
        if (p[0] === 'wait') return { kind: 'wait', name: p[1], t: b.mono, had: this.sigTaken(p[1]) };
        if (p[0] === 'fetch') {
            const e = { spec: p[1], rec: null, tid: t.id, k, due: false };
            return { kind: 'fetch', e, t: b.mono };
        }
        if (p[0] === 'yield') return { kind: 'yield', due: b.mono + (this.sc.clamp || 0) };
        return { kind: 'none' };
    }
    sigTaken() { return false; }
    endWait(w, v, t, k) {
        const b = this.b;
        if (w.kind === 'sleep') {
            this.count('sleeps');
            if (b.mono < w.t + w.ms) this.fail(['C09', 'C10'], 'woke-early', `task ${t.id} slept ${b.mono - w.t} ms instead of ${w.ms}`);
        } else if (w.kind === 'wait') {
            if (v === 'nosig') return;
            const s = this.sigs.get(w.name);
            if (!s) this.fail(['C09'], 'phantom-signal', `task ${t.id} received ${J(v)} which nobody sent`);
            else if (!deepEq(s.v, v)) this.fail(['C09'], 'wrong-signal', `task ${t.id} received ${J(v)} instead of ${J(s.v)}`);
        } else if (w.kind === 'fetch') {
            this.count('fetches-settled');
            const rec = w.e.rec;
            if (!rec || !rec.settled) {
                this.fail(['C11'], 'phantom-outcome', `task ${t.id} got an outcome ${J(v)} before its request ${J(w.e.spec)} was answered`);
                return;
            }
            const o = this.outcomeOf(rec);
            if (o.err) {
                if (v.err === undefined || v.status !== null) this.fail(['C11'], 'failure-hidden', `the request ${J(w.e.spec)} failed but its issuer got ${J(v)}`);
            } else if (!v.ok || v.ok.status !== o.status || v.status !== o.status || !this.bodyEq(o.body, v.ok.body)) {
                this.fail(['C11'], 'wrong-outcome', `the request ${J(w.e.spec)} was answered ${J(o)} but its issuer got ${J(v)}`);
            }
        }
    }
    // is it all right that this wait has not ended yet?
    mayWait(w) {
        if (w.kind === 'sleep' || w.kind === 'yield') return this.b.mono < w.due;
        if (w.kind === 'wait') return !this.sigs.has(w.name);
        if (w.kind === 'fetch') return !!w.e.rec && !w.e.rec.settled;
        return false;
    }
    checkTasks(where) {
        for (const t of this.tasks.values()) {
            if (t.ended) continue;
            if (!t.started) {
                this.fail(['C09'], 'task-not-started', `task ${t.id}, spawned at ${t.t}, has not started (${where})`);
                return;
            }
            if (t.open) {
                if (t.race ? t.wait.every((w) => this.mayWait(w)) : t.wait.some((w) => this.mayWait(w))) continue;
                const f = t.wait.find((w) => w.kind === 'fetch');
                const sl = t.wait.find((w) => w.kind === 'sleep');
                if (f && f.e.rec === null) {
                    this.fail(['C11'], 'request-not-sent', `task ${t.id}: the request ${J(f.e.spec)} was never sent (${where})`);
                    return;
                }
                const tags = ['C09'];
                if (f) tags.push('C11');
                if (sl) tags.push('C10');
                this.fail(tags, 'lost-wakeup', `task ${t.id} step ${t.at} (${J(t.steps[t.at])}) is still waiting although what it awaits has completed (${where})`);
                return;
            }
            this.fail(['C09'], 'task-stuck', `task ${t.id} stopped after step ${t.at} (${where})`);
            return;
        }
    }
    onInterval(slot) {
        const v = this.ivls.get(slot);
        this.count('interval-fires');
        if (!v) {
            this.fail(['C10'], 'fired-after-drop', `interval ${slot} fired after its handle had been dropped`);
            return;
        }
        v.n++;
        this.curEnv = v.env;
        if (this.b.mono < v.t + v.n * v.ms) {
            this.fail(['C10'], 'fired-early', `interval ${slot} of ${v.ms} ms fired for the ${v.n}. time after ${this.b.mono - v.t} ms`);
        }
    }
    checkIntervals(where) {
        for (const [slot, v] of this.ivls) {
            const period = Math.max(v.ms, this.sc.clamp || 0, 1);
            const stalls = this.stalls - v.stalls;
            const lost = this.stalled - v.stalled;
            const want = Math.floor((this.b.mono - v.t - lost) / period) - 1 - 2 * stalls;
            if (v.n < want) {
                this.fail(['C10'], 'interval-missed', `interval ${slot} of ${v.ms} ms fired ${v.n} times in ${this.b.mono - v.t} ms (${where})`);
                return;
            }
        }
    }
    onStall(ms) { this.stalls++; this.stalled += ms; }
    onJump(ms) {
        this.jumped++;
        // a resource due for a refresh need not be any more once the clock is moved back
        if (ms < 0) for (const c of this.caches) {
            if (!c.need || !c.need.soft) continue;
            c.need = null;
            c.unsure = true; // it may look again and find that nothing is due; until then it ignores being told to refresh
        }
    }

    // ---------------------------------------------------------------- web sockets
    wsNewSlot(slot, url) {
        const s = { slot, url, alive: true, t: this.b.mono, queue: [], open: false, sends: [], sockets: [], lastBad: this.b.mono, notes: 0 };
        this.wss.set(slot, s);
        this.wsByUrl.set(url, s);
    }
    wsDrop(slot) {
        const s = this.wss.get(slot);
        if (!s) return;
        s.alive = false;
        s.queue = [];
        s.dropT = this.b.mono;
        this.wss.delete(slot);
        this.wsOld.push(s);
    }
    onWsNew(ws) {
        const s = this.wsByUrl.get(ws.url);
        this.count('ws-connections');
        if (!s) {
            this.fail(['C14'], 'phantom-socket', `a connection to ${ws.url} was opened which nobody asked for`);
            return;
        }
        if (!s.alive) {
            this.fail(['C14', 'C07'], 'reconnect-after-drop', `a connection to ${ws.url} was opened after its subscription had been dropped`);
            return;
        }
        for (const o of s.sockets) {
            if (o.readyState < 2) {
                this.fail(['C14'], 'two-sockets', `a second connection to ${ws.url} was opened while one was alive`);
                return;
            }
        }
        if (s.sockets.length > 0 && this.b.mono - s.lastBad < 1000) this.count('ws-fast-retry');
        s.sockets.push(ws);
        if (s.sockets.length > 1) this.count('ws-reconnects');
    }
    onWsOpen(ws) {
        const s = this.wsByUrl.get(ws.url);
        if (s && s.alive) s.queue.push(['open']);
    }
    onWsMsg(ws, text) {
        const s = this.wsByUrl.get(ws.url);
        if (s && s.alive) s.queue.push(['msg', text]);
    }
    onWsLost(ws) {
        const s = this.wsByUrl.get(ws.url);
        if (s && s.alive) {
            s.queue.push(['close']);
            s.lastBad = this.b.mono;
            s.sends = [];
        }
    }
    onWsRefused(ws) {
        const s = this.wsByUrl.get(ws.url);
        if (s) s.lastBad = this.b.mono;
    }
    onWsClose(ws) {
        const s = this.wsByUrl.get(ws.url);
        if (s && s.alive) {
            if (ws._wasOpenSeen || s.open) {
                // the runtime gave up an open connection on its own: only allowed when told or on error
                this.fail(['C14'], 'closed-alive', `the open connection to ${ws.url} was closed although its subscription is held`);
            }
            if (this.b.mono - ws._t < 1000) this.fail(['C14'], 'gave-up-early', `a connection attempt to ${ws.url} was given up after ${this.b.mono - ws._t} ms`);
            s.lastBad = this.b.mono;
        }
    }
    onWsNote(l) {
        const [, slot, kind, text] = l;
        const s = this.wss.get(slot);
        this.count('ws-notes');
        if (!s) {
            this.fail(['C14', 'C03'], 'note-after-drop', `websocket ${slot} got ${J(l.slice(2))} after its subscription had been dropped`);
            return;
        }
        const want = s.queue.shift();
        if (!want || want[0] !== kind || (kind === 'msg' && want[1] !== text)) {
            this.fail(['C14'], 'wrong-note', `websocket ${slot} was told ${J(l.slice(2))}, expected ${J(want || null)}`);
            return;
        }
        s.open = kind === 'open' ? true : kind === 'close' ? false : s.open;
    }
    onWssend(l) {
        const s = this.wss.get(l[1]);
        if (!s) return;
        const ws = s.sockets[s.sockets.length - 1];
        if (ws && ws.readyState === 1) s.sends.push([ws, l[2]]);
    }
    onWsSend(ws, data) {
        const s = this.wsByUrl.get(ws.url);
        this.count('ws-sends');
        if (s && !s.alive) {
            return;
        }
        const want = s && s.sends.shift();
        if (!want || want[0] !== ws || want[1] !== data) {
            this.fail(['C14'], 'wrong-send', `the connection to ${ws.url} was sent ${J(data)}, expected ${J(want ? want[1] : null)}`);
        }
    }
    checkSockets(where) {
        const b = this.b;
        for (const s of this.wss.values()) {
            if (s.queue.length) {
                this.fail(['C14'], 'note-missing', `websocket ${s.slot} was never told ${J(s.queue[0])} (${where})`);
                return;
            }
            if (s.sends.length) {
                this.fail(['C14'], 'send-lost', `what websocket ${s.slot} sent (${J(s.sends[0][1])}) never reached its connection (${where})`);
                return;
            }
            const last = s.sockets[s.sockets.length - 1];
            const slack = 12000 + 2 * (this.sc.clamp || 0) + (this.stalled || 0);
            if (!last || last.readyState >= 2) {
                if (b.mono - s.lastBad > slack) {
                    this.fail(['C14'], 'no-reconnect', `websocket ${s.slot} has had no connection attempt for ${b.mono - s.lastBad} ms (${where})`);
                    return;
                }
            } else if (last.readyState === 0 && b.mono - last._t > 20000 + 2 * (this.sc.clamp || 0) + (this.stalled || 0)) {
                this.fail(['C14'], 'hung-attempt', `websocket ${s.slot} has been connecting for ${b.mono - last._t} ms (${where})`);
                return;
            }
        }
        for (const s of this.wsOld) {
            for (const ws of s.sockets) {
                if (ws.readyState < 2) {
                    this.fail(['C14', 'C07'], 'socket-left-open', `a connection to ${ws.url} is still ${ws.readyState === 0 ? 'being opened' : 'open'} although its subscription was dropped (${where})`);
                    return;
                }
            }
        }
    }

    // ---------------------------------------------------------------- values across the boundary
    onCookie(l, json) {
        const c = this.cookies.get(l[1]);
        const live = c && c.until > this.b.wall();
        if (c && Math.abs(c.until - this.b.wall()) <= 1001) return; // lifetimes are kept in whole seconds
        this.count('cookies');
        let want;
        if (json) want = !live ? null : c.j !== undefined ? c.j : undefined;
        else want = !live ? '' : c.v !== undefined ? c.v : undefined;
        if (!live) {
            const init = (this.sc.cookies || []).find((x) => x[0] === l[1]);
            if (init && !c) {
                if (json) return;
                want = init[1];
            }
        }
        if (want === undefined) return;
        if (json ? !this.jsonEq(want, l[2]) : want !== l[2]) this.fail(['C26'], 'cookie', `cookie ${l[1]} reads ${J(l[2])}, expected ${J(want)}`);
    }
    onJs(l) {
        const f = this.sc.jsWant && this.sc.jsWant[l[1]];
        this.count('js-calls');
        if (f === undefined) return;
        const got = l[2];
        if (!this.jsEq(f, got)) this.fail(['C26'], 'js-value', `browser access ${l[1]} gave ${J(got)}, expected ${J(f)}`);
    }
    // numbers compare by value whatever the wire type
    jsNorm(v) {
        if (v === null || typeof v !== 'object') return typeof v === 'number' ? { n: String(v) } : v;
        if (Array.isArray(v)) return v.map((x) => this.jsNorm(x));
        for (const k of ['u32', 'i32', 'u64', 'i64', 'f64']) {
            if (v[k] !== undefined && Object.keys(v).length === 1) {
                let t = String(v[k]);
                if (t === 'inf') t = 'Infinity';
                if (t === '-inf') t = '-Infinity';
                if (t === '-0') t = '0';
                return { n: k !== 'f64' && /^-?\d+$/.test(t) ? BigInt(t).toString() : String(Number(t)) };
            }
        }
        if (v.$num !== undefined) return { n: String(Number(v.$num === 'inf' ? 'Infinity' : v.$num === '-inf' ? '-Infinity' : v.$num)) };
        if (v.json !== undefined && Object.keys(v).length === 1) return this.jsNorm(v.json);
        if (v.obj !== undefined && Object.keys(v).length === 1) return this.jsNorm(v.obj);
        return Object.fromEntries(Object.keys(v).map((k) => [k, this.jsNorm(v[k])]));
    }
    jsEq(a, b) { return deepEq(this.jsNorm(a), this.jsNorm(b)); }
    onRef(l) {
        // l: ref name prop value; the element with that ref is known from the last check
        const el = this.refEl && this.refEl.get(l[1]);
        this.count('refs');
        if (!el) return;
        let want;
        try {
            want = el[l[2]];
        } catch (e) {
            return;
        }
        if (want === undefined) want = { undef: 1 };
        if (!this.jsEq(want, l[3])) this.fail(['C26'], 'element-ref', `reading ${l[2]} of the element referred to by ${l[1]} gave ${J(l[3])}, the element has ${J(want)}`);
    }

    // ---------------------------------------------------------------- events
    onInvoke(target, event, phase, n) {
        const d = this.dispatching;
        if (!d || event !== d.event) return;
        this.finishInvoke();
        if (phase === 'capture') return;
        const isDoc = target === this.b.document;
        let list;
        const kind = isDoc ? 'hook_' + event.type : event.type;
        if (isDoc) {
            list = [];
            for (const [el, v] of this.vnodeOf) for (const h of v.on) if (h.ev === kind) list.push({ h, v, el });
        } else {
            const v = this.vnodeOf.get(target);
            list = v ? v.on.filter((h) => h.ev === kind).map((h) => ({ h, v, el: target })) : [];
        }
        d.cur = { target, isDoc, list: list.map((x) => ({ ...x, n: 0 })), phase, kind };
    }
    finishInvoke() {
        const d = this.dispatching;
        if (!d || !d.cur) return;
        const cur = d.cur;
        d.cur = null;
        if (this.stop || this.died) return;
        for (const x of cur.list) {
            if (d.async) {
                if (this.stillBound(x) && !d.ignored) this.drops.push({ h: x.h, v: x.v, el: x.el, payload: d.payload, t: this.b.mono });
                continue;
            }
            if (x.n === 0 && this.stillBound(x) && !d.ignored) {
                this.fail(['C06'], 'handler-not-run', `a ${cur.kind} event reached element #${x.v.nid} but its handler was not run`);
                return;
            }
        }
    }
    stillBound(x) {
        const v = this.vnodeOf.get(x.el);
        return !!v && v.nid === x.v.nid && v.on.some((h) => h.key === x.h.key);
    }
    onHandler(l) {
        const [, hid, evn, path, payload] = l;
        this.count('handlers');
        this.count('event:' + evn);
        const d = this.dispatching;
        const hit = (x) => x.v.env.path === path && x.h.ev === evn && this.hidOf(x.h, x.v) === hid;
        let x = null;
        if (d && d.cur) x = d.cur.list.find((y) => hit(y) && y.n === 0) || d.cur.list.find(hit) || null;
        if (!x) {
            let i = this.drops.findIndex((y) => hit(y) && deepEq(y.payload, payload));
            if (i < 0) i = this.drops.findIndex(hit);
            if (i >= 0) {
                x = { ...this.drops[i], n: 0, async: true };
                this.drops.splice(i, 1);
            }
        }
        if (!x) {
            this.fail(['C06'], 'stray-handler', `handler ${hid} for ${evn} at ${path} ran without being the current handler of the event's target${d && d.cur ? ` (expected one of ${J(d.cur.list.map((y) => this.hidOf(y.h, y.v)))})` : ''}`);
            return;
        }
        x.n++;
        if (x.n > 1) {
            this.fail(['C06'], 'handler-twice', `handler ${hid} ran ${x.n} times for one ${evn} event`);
            return;
        }
        const want = x.async ? x.payload : d.payload;
        if (!deepEq(want, payload)) {
            this.fail(['C06'], 'wrong-payload', `handler ${hid} for ${evn} got ${J(payload)}, the event carried ${J(want)}`);
            return;
        }
        this.curEnv = x.v.env;
        this.curHandler = x;
        if (d && !x.async) d.ran.push(x);
    }
    hidOf(h, v) {
        if (h.dyn === undefined) return String(v.nid);
        return `${v.nid}#${str(this.ev(h.dyn, v.env))}`;
    }
    // called by the runner around a simulated user event
    beginEvent(event, payload, opts) {
        this.dispatching = { event, payload, cur: null, ran: [], ...(opts || {}) };
        this.count('user-events');
    }
    endEvent() {
        const d = this.dispatching;
        if (!d) return;
        this.finishInvoke();
        this.dispatching = null;
        if (this.stop || this.died) return;
        const consumers = d.ran.filter((x) => x.consumed);
        if (['keydown', 'mousedown', 'mouseup'].includes(d.event.type) && d.event.cancelable) {
            const want = consumers.length > 0;
            if (d.event.defaultPrevented !== want) {
                this.fail(['C06'], 'consume', `a ${d.event.type} event was ${want ? 'consumed by its handler but its default action was kept' : 'not consumed by any handler but its default action was prevented'}`);
                return;
            }
        }
        if (d.event.type === 'keydown' && consumers.some((x) => !x.h.ev.startsWith('hook')) && !d.event._stop) {
            this.fail(['C06'], 'consume', 'a consumed keydown event was propagated further');
        }
    }

    // ---------------------------------------------------------------- expected document
    build(n, env, ipath, out, deps, next, item) {
        const nid = n.id === undefined ? '?' : typeof n.id === 'string' ? n.id : J(n.id);
        switch (n.t) {
            case 'el': out.push(this.buildEl(n, env, ipath, deps, next, item, nid)); break;
            case 'tx': out.push({ k: 'tx', s: n.s || '' }); break;
            case 'td': case 'te': out.push({ k: 'tx', s: str(this.ev(n.e, env, deps)) }); break;
            case 'rv': {
                const v = this.ev(n.e, env, deps);
                const key = ipath + '/' + nid;
                const gen = this.genFor(key, v, next);
                const e2 = withArg(sub(env, nid), v);
                let body = n.def === undefined ? null : n.def;
                for (const [cv, cb] of n.cases || []) {
                    if (eq(S.fromJ(cv), v)) {
                        body = cb === undefined ? null : cb;
                        break;
                    }
                }
                if (body !== null) this.build(body, e2, key + '@' + gen, out, deps, next, null);
                break;
            }
            case 'ls': {
                const items = S.list(this.ev(n.e, env, deps));
                const single = n.ch && n.ch.t === 'el';
                // an item represented by a comment is placed again, with new content, when it moves: marked ~
                const key = ipath + '/' + nid + (single || (n.ch && (n.ch.t === 'tx' || n.ch.t === 'td' || n.ch.t === 'te')) ? '' : '~');
                for (const it of items) {
                    const k = S.key(it);
                    const ik = key + ':' + J(k);
                    const gen = this.genFor(ik, null, next);
                    const e2 = withArg(sub(env, `${nid}:${str(k)}`), k);
                    const inner = [];
                    const id = ik + '@' + gen;
                    this.build(n.ch || { t: '?' }, e2, id, inner, deps, next, null);
                    if (single && inner.length === 1 && !id.includes('~')) inner[0].item = id;
                    for (const x of inner) {
                        x.inList = true;
                        out.push(x);
                    }
                }
                break;
            }
            case 'fr': for (const c of n.ch || []) this.build(c, env, ipath, out, deps, next, null); break;
            case 'local': {
                const key = ipath + '/' + nid;
                const path = env.path + '/' + nid;
                const had = this.inst.get(key);
                let uids;
                if (had) {
                    uids = had.uids;
                    const newest = this.lastLocals.get(path);
                    if (newest && !eq(newest, uids)) {
                        if (ipath.includes(':') && !ipath.includes('~')) next.rebuilt = path;
                        uids = newest;
                    }
                } else {
                    uids = this.lastLocals.get(path) || [];
                }
                next.map.set(key, { uids });
                const e2 = { args: env.args, locals: [...env.locals, ...uids], path };
                this.build(n.ch || {}, e2, key, out, deps, next, null);
                break;
            }
            case 'cache': {
                const i = n.i || 0;
                if (i >= this.caches.length) {
                    out.push({ k: 'tx', s: '' });
                    break;
                }
                deps.add('x' + i);
                const v = this.cacheVal(i);
                const key = ipath + '/' + nid;
                const gen = this.genFor(key, v, next);
                if (v[0] === 'L') out.push(this.plainEl('vertigo-suspense', [], key));
                else if (v[0] === 'E') out.push(this.plainEl('div', [{ k: 'tx', s: 'error = ' + (v[1] === '?' ? '' : v[1]), any: v[1] === '?' }], key));
                else this.build(n.ch || {}, withArg(sub(env, nid), v[1]), key + '@' + gen, out, deps, next, null);
                break;
            }
            case 'susp': out.push(this.plainEl('vertigo-suspense', [], ipath)); break;
            case 'dm': {
                const v = this.ev(n.e, env, deps);
                const p = this.plainEl('p', [{ k: 'tx', s: 'm:' + str(v) }], ipath);
                p.attrs.set('title', str(v));
                out.push(p);
                out.push(this.plainEl('i', [{ k: 'tx', s: str(int(v) + 1) }], ipath));
                break;
            }
            default: out.push({ k: 'tx', s: '?' });
        }
    }
    plainEl(tag, ch, ipath) { return { k: 'el', tag, attrs: new Map(), cls: [], css: [], on: [], ch, nid: '', ipath, env: ROOT }; }
    genFor(key, v, next) {
        const old = this.inst.get(key);
        let gen;
        if (old && old.gen !== undefined && eq(old.v, v)) gen = old.gen;
        else gen = ++this.genNo;
        next.map.set(key, { gen, v });
        return gen;
    }
    buildEl(n, env, ipath, deps, next, item, nid) {
        const el = { k: 'el', tag: n.tag, attrs: new Map(), cls: [], css: [], on: [], ch: [], nid, ipath, env, susp: n.susp || 0, ref: n.ref, watch: n };
        for (const a of n.attrs || []) {
            const [name, kind, e] = a;
            let v = null;
            if (kind === 's') v = str(constEval(e, env));
            else if (kind === 'd') v = str(this.ev(e, env, deps));
            else {
                const x = this.ev(e, env, deps);
                v = x === null || x === false ? null : str(x);
            }
            if (name === 'class') el.clsAttr = v;
            else if (v === null) el.attrs.delete(name.toLowerCase());
            else el.attrs.set(name.toLowerCase(), v);
        }
        if (el.clsAttr) el.cls = el.clsAttr.split(/\s+/).filter((x) => x);
        if (n.css) el.css = n.css[0] === 'e' ? S.cssVal(this.ev(n.css[1] === undefined ? null : n.css[1], env, deps)) : S.cssGroups(n.css);
        (n.on || []).forEach((on, k) => {
            if (on.dyn !== undefined) this.ev(on.dyn, env, deps);
            el.on.push({ ev: on.ev, dyn: on.dyn, ret: on.ret, ops: on.ops, key: k });
        });
        for (const c of n.ch || []) this.build(c, env, ipath, el.ch, deps, next, null);
        return el;
    }
    buildAll() {
        const deps = new Set();
        const next = { map: new Map(), rebuilt: null };
        this.buildMemo = new Map();
        const head = [];
        for (const n of this.spec.head || []) this.build(n, ROOT, 'h', head, deps, next, null);
        const ctl = { k: 'el', tag: 'input', attrs: new Map([['id', 'ctl']]), cls: [], css: [], on: [], ch: [], nid: 'ctl', ipath: '', env: ROOT };
        const body = [ctl];
        for (const n of this.spec.tree || []) this.build(n, ROOT, 'b', body, deps, next, null);
        for (const s of this.subs.values()) this.ev(s.e, s.env, deps);
        this.buildMemo = null;
        return { head, body, deps, next };
    }

    // ---------------------------------------------------------------- comparison with the document
    check(final) {
        if (this.stop || this.died) return;
        this.checks++;
        const tries = this.hypotheses();
        let first = null;
        const saved = this.genNo;
        for (const h of tries) {
            const undo = h.map(([c]) => [c, { ...c }]);
            for (const [c, how] of h) {
                if (how === 'pending') this.commitCache(c, c.pending);
                else {
                    this.takeAlt(c);
                }
            }
            this.genNo = saved;
            const t = this.buildAll();
            this.mismatch = null;
            if (this.shown) this.compare(t);
            if (this.mismatch === null) {
                this.accept(t);
                return;
            }
            if (first === null) first = this.mismatch;
            for (const [c, old] of undo) Object.assign(c, old);
        }
        this.mismatch = null;
        this.fail(first.tags, first.kind, first.msg);
    }
    // a response that has arrived is taken over by the program some events later
    hypotheses() {
        const p = [];
        for (const c of this.caches) {
            if (c.pending !== undefined) p.push([c, 'pending']);
            else if (c.alt !== undefined) p.push([c, 'alt']);
        }
        const q = p.slice(0, 5);
        const out = [];
        for (let m = 0; m < 1 << q.length; m++) out.push(q.filter((_, i) => m & (1 << i)));
        return out;
    }
    accept(t) {
        this.inst = t.next.map;
        this.deps = t.deps;
        if (t.next.rebuilt) {
            this.fail(['C05'], 'item-rebuilt', `the list item at ${t.next.rebuilt} was rebuilt although its key is still present`);
            return;
        }
        if (this.shown) {
            this.vnodeOf = this.pairs;
            this.itemEl = this.items;
            this.refEl = this.refs;
            const cost = this.b;
            cost.pageSize = this.pairs.size;
        }
        // sources: connected exactly while observed
        for (const i of this.taintC) {
            const deps = new Set();
            this.ev(['c', i], ROOT, deps);
            for (const d of deps) if (d[0] === 's') this.srcs[Number(d.slice(1))].taint = true;
        }
        this.srcs.forEach((s, i) => {
            const seen = t.deps.has('s' + i);
            if (seen && !s.live) this.fail(['C03'], 'not-connected', `source ${i} is observed but not connected`);
            if (!seen && s.live && !s.taint) this.fail(['C03'], 'not-released', `source ${i} is connected although nothing observes it`);
        });
        for (const c of this.caches) {
            if (t.deps.has('x' + c.i) && c.uninit) this.noteNeed(c, 'shown before it was loaded');
        }
        this.checkRoutes();
    }
    bad(tags, kind, msg) {
        if (this.mismatch === null) this.mismatch = { tags, kind, msg };
    }
    compare(t) {
        const doc = this.b.document;
        this.pairs = new Map();
        this.items = new Map();
        this.refs = new Map();
        const styles = [];
        for (const e of doc.head ? doc.head._kids : []) if (e.localName === 'style' && e._attrs.size === 0) styles.push(e.textContent);
        this.rules = S.rulesOf(styles);
        this.cssSeen = this.cssNames || (this.cssNames = { byId: new Map(), byName: new Map() });
        this.suspUnder = new Map();
        const bodyEl = { k: 'el', ch: t.body };
        const headEl = { k: 'el', ch: t.head };
        this.markSusp(bodyEl);
        this.markSusp(headEl);
        if (!doc.body || !doc.head) {
            this.bad(['C04'], 'no-body', 'the page has no body or head');
            return;
        }
        this.compareKids(t.body, doc.body, bodyEl, 'body', false);
        if (this.mismatch) return;
        // the head also holds the generated styles, appended after what the program put there
        this.compareKids(t.head, doc.head, headEl, 'head', true);
    }
    markSusp(v) {
        let n = v.tag === 'vertigo-suspense';
        for (const c of v.ch || []) if (c.k === 'el' && this.markSusp(c)) n = true;
        v.hasSusp = n;
        return n;
    }
    compareKids(want, parent, pv, where, skipStyles) {
        const got = [];
        let lastText = false;
        for (const k of parent._kids) {
            if (k.nodeType === 8) continue;
            if (k.nodeType === 3) {
                if (lastText) got[got.length - 1].s += k._data;
                else {
                    got.push({ s: k._data });
                    lastText = true;
                }
                continue;
            }
            if (skipStyles && k.localName === 'style' && k._attrs.size === 0) continue;
            lastText = false;
            got.push({ el: k });
        }
        const exp = [];
        lastText = false;
        for (const w of want) {
            if (w.k === 'tx') {
                if (lastText) exp[exp.length - 1] = { s: exp[exp.length - 1].s + w.s, any: w.any || exp[exp.length - 1].any, inList: w.inList };
                else {
                    exp.push({ s: w.s, any: w.any, inList: w.inList });
                    lastText = true;
                }
            } else {
                lastText = false;
                exp.push({ v: w, inList: w.inList });
            }
        }
        const g = got.filter((x) => x.el || x.s !== '');
        const e = exp.filter((x) => x.v || x.s !== '' || x.any);
        const show = (list) => list.map((x) => (x.el ? `<${x.el.localName}${x.el.getAttribute('data-k') ? ' ' + x.el.getAttribute('data-k') : ''}>${x.el.textContent.slice(0, 20)}` : x.v ? `<${x.v.tag}>${textOf(x.v).slice(0, 20)}` : JSON.stringify(x.s))).join(' ').slice(0, 400);
        const listy = want.some((w) => w.inList);
        const tags = ['C04'];
        if (listy) tags.push('C05');
        if (g.length !== e.length) {
            if (this.srcUsed()) tags.push('C01');
            this.bad(tags, 'children', `<${where}> shows [${show(g)}], a fresh rendering gives [${show(e)}]`);
            return;
        }
        for (let i = 0; i < e.length; i++) {
            const a = e[i];
            const b = g[i];
            if (!!a.v !== !!b.el) {
                this.bad(tags, 'children', `<${where}> shows [${show(g)}], a fresh rendering gives [${show(e)}]`);
                return;
            }
            if (a.v) {
                this.compareEl(a.v, b.el, pv, where, tags, () => `<${where}> shows [${show(g)}], a fresh rendering gives [${show(e)}]`);
                if (this.mismatch) return;
            } else if (a.any ? !b.s.startsWith(a.s) : a.s !== b.s) {
                this.bad([...tags, 'C01'], 'text', `text in <${where}> is ${JSON.stringify(b.s)}, a fresh rendering gives ${JSON.stringify(a.s)}`);
                return;
            }
        }
    }
    srcUsed() { return false; }
    compareEl(v, el, pv, where, tags, ctx) {
        if (el.localName !== v.tag.toLowerCase() && el.localName !== v.tag) {
            this.bad(tags, 'element', ctx());
            return;
        }
        const isSvg = v.tag === 'svg' || v.tag === 'path';
        if (!this.nsOk(isSvg, el)) {
            this.bad(['C04'], 'namespace', `<${v.tag}> is in the wrong namespace`);
            return;
        }
        for (const [k, val] of v.attrs) {
            if (el.getAttribute(k) !== val) {
                this.bad([...tags, 'C01'], 'attribute', `attribute ${k} of <${v.tag}> #${v.nid} is ${J(el.getAttribute(k))}, a fresh rendering gives ${J(val)}`);
                return;
            }
        }
        for (const k of el.getAttributeNames()) {
            if (k !== 'class' && !v.attrs.has(k)) {
                this.bad(['C04'], 'attribute', `<${v.tag}> #${v.nid} has the attribute ${k}=${J(el.getAttribute(k))}, a fresh rendering has none`);
                return;
            }
        }
        this.compareClass(v, el, pv);
        if (this.mismatch) return;
        if (v.item) {
            const old = this.itemEl.get(v.item);
            if (old && old !== el) {
                this.bad(['C05'], 'identity', `the list item ${v.item} is shown by another node than before although its key is still present`);
                return;
            }
            this.items.set(v.item, el);
        }
        if (v.ref && !v.ipath.includes(':')) this.refs.set(v.ref, el);
        this.pairs.set(el, v);
        this.compareKids(v.ch, el, v, v.tag + (v.nid ? '#' + v.nid : ''), false);
    }
    nsOk(isSvg, el) { return isSvg === (el.namespaceURI === 'http://www.w3.org/2000/svg'); }
    compareClass(v, el, pv) {
        const tokens = (el.getAttribute('class') || '').split(/\s+/).filter((x) => x);
        const groups = [...v.css];
        let suspGroups = [];
        if (v.susp) suspGroups = S.suspCss(v.susp, pv.hasSusp === true);
        const all = [...groups, ...suspGroups];
        const left = tokens.slice();
        for (const c of v.cls) {
            const i = left.indexOf(c);
            if (i < 0) {
                this.bad(['C04', 'C16'], 'class', `<${v.tag}> #${v.nid} has class ${J(el.getAttribute('class'))}, its class ${c} is missing`);
                return;
            }
            left.splice(i, 1);
        }
        // the remaining tokens are generated names: each must have its rule, and together the expected styles
        const got = [];
        for (const name of left) {
            const r = this.rules.get(name);
            if (!r) {
                this.bad(['C17', 'C04'], 'undefined-style', `<${v.tag}> #${v.nid} carries the class ${name} which no style rule defines`);
                return;
            }
            got.push({ name, text: S.ruleText(r.rules) });
        }
        const wanted = all.map((g) => ({ id: g.id, text: S.ruleText(g.rules) }));
        const gs = got.map((x) => x.text).sort();
        const ws = wanted.map((x) => x.text).sort();
        if (gs.join('\u0001') !== ws.join('\u0001')) {
            const tags = ['C04'];
            if (v.susp) {
                tags.push('C16');
                // right styles except for the suspense one?
                const other = S.suspCss(v.susp, pv.hasSusp !== true);
                const ws2 = [...groups, ...other].map((g) => S.ruleText(g.rules)).sort();
                if (ws2.join('\u0001') === gs.join('\u0001')) {
                    this.bad(['C16', 'C04'], 'suspense', `<${v.tag}> #${v.nid} shows itself as ${pv.hasSusp ? 'not loading although something in its part of the page is' : 'loading although nothing in its part of the page is'}`);
                    return;
                }
            }
            const rulesBroken = got.some((x) => !this.knownRule(x.text));
            tags.push('C17');
            this.bad(tags, 'style', `<${v.tag}> #${v.nid} has class ${J(el.getAttribute('class'))} meaning ${J(gs)}, its styles are ${J(ws)}`);
            return;
        }
        // one name per style, one style per name
        const used = new Set();
        for (const w of wanted) {
            const g = got.find((x) => x.text === w.text && !used.has(x));
            used.add(g);
            const key = w.id;
            const same = wanted.filter((x) => x.text === w.text).length;
            if (same > 1) continue;
            const n0 = this.cssNames.byId.get(key);
            if (n0 !== undefined && n0 !== g.name) {
                this.bad(['C17'], 'style-twice', `the style ${J(w.text)} is named ${n0} and ${g.name}`);
                return;
            }
            const i0 = this.cssNames.byName.get(g.name);
            if (i0 !== undefined && i0.key !== key && i0.key[0] === key[0] && i0.text !== w.text) {
                this.bad(['C17'], 'style-confused', `the name ${g.name} stands for two styles`);
                return;
            }
            this.cssNames.byId.set(key, g.name);
            this.cssNames.byName.set(g.name, { key, text: w.text });
        }
    }
    knownRule() { return true; }

    // ---------------------------------------------------------------- links
    linkClick(el) {
        const a = el.closest('a');
        const href = a && a.getAttribute('href');
        if (a && a.parentNode && a.parentNode.closest && a.parentNode.closest('a')) return null; // a link in a link
        if (!a || href === null || href.startsWith('#') || /^(https?:)?\/\//.test(href)) return null;
        const b = this.b;
        this.navSeen = 0;
        return { href, before: b.entries[b.index], index: b.index, n: b.entries.length };
    }
    linkDone(l, event) {
        const b = this.b;
        if (this.stop || this.died || this.navSeen > 0 || event._stop) return;
        let want;
        try {
            want = new URL(l.href, l.before).href;
        } catch (e) {
            return;
        }
        this.count('link-clicks');
        const same = this.addressOf(l.before) === l.href;
        const got = b.entries[b.index];
        if (!event.defaultPrevented) this.fail(['C15', 'C06'], 'link-left-page', `a click on a link to ${l.href} would have left the page`);
        else if ((same ? got !== l.before : got !== want) || b.index !== l.index + (same ? 0 : 1) || b.entries.length !== (same ? l.n : l.index + 2)) {
            this.fail(['C15'], 'link', `a click on a link to ${l.href} at ${l.before} led to ${got} (entry ${b.index} of ${b.entries.length})`);
        }
    }
    addressOf(href) {
        const u = new URL(href);
        return u.pathname + u.search + u.hash;
    }

    // ---------------------------------------------------------------- end of the run
    owes() {
        for (const t of this.tasks.values()) if (!t.ended && t.open && t.wait && t.wait.some((w) => w.kind === 'sleep')) return true;
        return false;
    }
    final() {
        if (this.stop) return;
        if (this.phase === 'before') this.fail(ALL, 'never-started', 'the program was never started');
    }
    // every cycle ends in the same state: nothing may have grown with each of them. With cycles twice as long
    // each time, what grows by one entry at a time shows in the size of its container.
    judgeSnaps(snaps, doubling) {
        const late = snaps.slice(2);
        if (late.some((s) => s.shape !== late[0].shape)) {
            this.count('cycles-not-neutral');
            return;
        }
        this.count('cycles-compared');
        const names = { nodes: 'detached nodes still referenced', listeners: 'event listeners', timeouts: 'timers', intervals: 'periodic timers', sockets: 'open sockets', runtime: 'entries held by the browser runtime', blocks: 'blocks on the heap of the program' };
        for (const k of Object.keys(names)) {
            const v = late.map((s) => s[k]);
            if (v.every((x, i) => i === 0 || x > v[i - 1])) {
                this.fail(['C07'], 'leak-' + k, `${names[k]} after each of ${snaps.length} cycles which end in the same state: ${snaps.map((s) => s[k]).join(', ')}`);
                return;
            }
        }
        if (doubling) {
            // a container which only grows to the size it needs stops growing; what leaks goes on
            const v = late.map((s) => s.bytes);
            const up = v.map((x, i) => (i ? x - v[i - 1] : 0));
            const n = v.length;
            if (snaps.length <= 7) return up[n - 1] > 32 && up[n - 2] > 32;
            if (up.slice(n - 4).every((x) => x > 32) && up[n - 1] >= 500 && up[n - 2] >= 200) {
                this.fail(['C07'], 'leak-bytes', `bytes on the heap of the program after each of ${snaps.length} cycles, each twice as long, which end in the same state: ${snaps.map((s) => s.bytes).join(', ')}`);
            }
        }
        return false;
    }
    nontrivial() {
        const c = this.counts;
        return (c.callbacks || 0) > 3 && this.checks > 2;
    }

    // ---------------------------------------------------------------- quiet moments
    onCalm(now) {
        if (this.stop || this.died || this.phase === 'before') return;
        this.count('calm');
        for (const c of this.caches) c.unsure = false;
        this.liveness('at rest');
    }
    liveness(where) {
        this.checkTasks(where);
        if (this.stop) return;
        this.checkIntervals(where);
        if (this.stop) return;
        for (const c of this.caches) {
            if (c.crossed) {
                c.alt = c.pending;
                c.pending = undefined;
                c.rec = null;
                c.crossed = false;
            } else if (c.pending !== undefined) {
                this.commitCache(c, c.pending);
                c.alt = undefined;
                if (this.checkSubs() && this.ready) this.check(false);
                if (this.stop) {
                    const f = this.fails[this.fails.length - 1];
                    if (!f.tags.includes('C12')) f.tags = [...f.tags, 'C12', 'C24'];
                    return;
                }
            }
            if (c.need && !c.inflight) {
                this.fail(['C12', 'C24'], 'not-loaded', `cache ${c.i} was ${c.need.why} at ${c.need.t} but no request followed (${where})`);
                return;
            }
        }
        for (const e of this.expectedReqs) {
            if (!e.rec) {
                this.fail(['C11'], 'request-not-sent', `the request ${J(e.spec)} of task ${e.tid} was never sent (${where})`);
                return;
            }
        }
        this.checkSockets(where);
        if (this.stop) return;
        if (this.initDone && !this.shown && !this.b.requests.some((r) => !r.settled)) {
            this.fail(['C13', 'C04'], 'never-shown', `the page is not shown although every request has settled (${where})`);
            return;
        }
        if (this.drops.length && this.fileIdle()) {
            const d = this.drops[0];
            if (this.stillBound(d)) this.fail(['C06'], 'drop-lost', `files dropped on #${d.v.nid} never reached its handler (${where})`);
            this.drops = [];
        }
        this.checkRoutes(true);
    }
    fileIdle() {
        for (const t of this.b.tasks.values()) if (t.source === 'file') return false;
        return true;
    }
    onTask(task) { if (this.routers.length + this.lroutes.size) this.noteAddr(); if (task.source === 'history') this.inHistory = true; }
    onTaskEnd(task) {
        this.inHistory = false;
        this.moved = false;
        // several event loops may have passed since the last look at the document
        if (this.stop || this.died) return;
        for (const s of this.wss.values()) {
            if (s.queue.length) {
                this.fail(['C14'], 'note-missing', `websocket ${s.slot} was not told ${J(s.queue[0])}`);
                return;
            }
        }
    }
    onHistory() { this.moved = true; }
    noteAddr() { for (const r of [...this.routers, ...this.lroutes.values()]) (r.past || (r.past = new Set())).add(this.address(r.kind)); }
    onNavigated() { this.moved = true; }
}

function textOf(v) {
    if (v.k === 'tx') return v.s;
    return v.ch.map(textOf).join('');
}

module.exports = { Model, deepEq };
