'use strict';
// Server rendering: runs scenarios in the server simulator (a native process which holds the real server) and
// judges its record with the reference model, page by page.
const crypto = require('crypto');
const fs = require('fs');
const path = require('path');
const { spawn } = require('child_process');
const readline = require('readline');
const { Model, deepEq } = require('./model');
const { parsePage, emptyDocument } = require('./html');
const S = require('./eval');

const root = path.resolve(__dirname, '..');
const BIN = path.join(root, 'target/ssr/release/ssr-sim');
const DEST = path.join(root, 'target/ssr-dest');
const HANG_MS = 25000;
const RECYCLE = 60; // runs served by one simulator process
const TIMEOUT = 10000; // what a page waits for its data at most
const ALL = ['*'];

const J = (x) => {
    const s = JSON.stringify(x);
    return s === undefined ? 'undefined' : s.slice(0, 400);
};

// ---------------------------------------------------------------- the simulator process
class Sim {
    constructor(bin = BIN, args = [DEST], recycle = RECYCLE) {
        this.bin = bin;
        this.args = args;
        this.recycle = recycle;
        this.child = null;
        this.served = [];
    }
    start() {
        const c = spawn(this.bin, this.args, { stdio: ['pipe', 'pipe', 'pipe'] });
        this.child = c;
        this.served = [];
        c.err = '';
        c.waiting = null;
        c.stdin.on('error', () => {});
        c.stderr.on('data', (d) => { c.err = (c.err + d).slice(-2000); });
        readline.createInterface({ input: c.stdout }).on('line', (line) => {
            const w = c.waiting;
            c.waiting = null;
            if (w) w({ line });
        });
        c.on('exit', (code, signal) => {
            if (this.child === c) this.child = null;
            const w = c.waiting;
            c.waiting = null;
            if (w) w({ exit: `${code === null ? signal : code} ${c.err}` });
        });
    }
    stop() {
        if (this.child) {
            const c = this.child;
            this.child = null;
            c.kill('SIGKILL');
        }
    }
    // -> { result } | { hang } | { exit }
    async run(sc) {
        if (!this.child || this.served.length >= this.recycle) {
            this.stop();
            this.start();
        }
        this.served.push(sc);
        const c = this.child;
        const out = await new Promise((res) => {
            const timer = setTimeout(() => {
                c.waiting = null;
                res({ hang: true });
            }, HANG_MS);
            c.waiting = (v) => {
                clearTimeout(timer);
                res(v);
            };
            c.stdin.write(JSON.stringify(sc) + '\n');
        });
        if (out.hang) this.stop();
        if (out.line === undefined) return out;
        const r = JSON.parse(out.line);
        if (r.error) throw new Error('server simulator: ' + r.error);
        return { result: r };
    }
}

// ---------------------------------------------------------------- requests
const METHODS = ['GET', 'HEAD', 'POST', 'PUT', 'DELETE', 'OPTIONS', 'PATCH'];
const canon = (v) => {
    if (v === null || typeof v !== 'object') return JSON.stringify(v);
    if (Array.isArray(v)) return '[' + v.map(canon).join(',') + ']';
    return '{' + Object.keys(v).sort().map((k) => JSON.stringify(k) + ':' + canon(v[k])).join(',') + '}';
};
const bodyOf = (j) => (!j.b ? null : typeof j.b.text === 'string' ? { text: j.b.text } : Array.isArray(j.b.bin) ? { bin: j.b.bin } : j.b.json !== undefined ? { json: j.b.json } : null);
// numbers JSON cannot express are sent as null
const finite = (v) => {
    if (v === null || typeof v !== 'object') return v;
    if (v.$num !== undefined) return Number.isFinite(Number(v.$num)) ? Number(v.$num) : null;
    if (Array.isArray(v)) return v.map(finite);
    return Object.fromEntries(Object.keys(v).map((k) => [k, finite(v[k])]));
};
function specKey(j) {
    const m = METHODS.includes(j.m) ? j.m : 'GET';
    const b = bodyOf(j);
    return canon([m, j.url || '', j.h || {}, b && b.json !== undefined ? { json: finite(b.json) } : b]);
}
function wireMatches(rec, j) {
    const m = METHODS.includes(j.m) ? j.m : 'GET';
    if (rec.method !== m || rec.url !== (j.url || '')) return false;
    const want = {};
    for (const k of Object.keys(j.h || {})) want[k.toLowerCase()] = String(j.h[k]);
    const body = bodyOf(j);
    if (body && want['content-type'] === undefined) {
        if (body.text !== undefined) want['content-type'] = 'text/plain; charset=utf-8';
        if (body.json !== undefined) want['content-type'] = 'application/json; charset=utf-8';
    }
    if (!deepEq(want, rec.headers)) return false;
    if (body === null) return rec.body === null;
    if (rec.body === null) return false;
    if (body.json !== undefined) {
        try {
            return deepEq(JSON.parse(rec.body.text), finite(body.json));
        } catch (e) {
            return false;
        }
    }
    return deepEq([...(body.text !== undefined ? Buffer.from(body.text, 'utf8') : body.bin)], rec.body.bin);
}

// ---------------------------------------------------------------- one page
class ServerModel extends Model {
    constructor(run, n, page) {
        const p = page.url.split(/[?#]/)[0];
        const spec = run.spec.pages[p] || {};
        super({ spec, env: run.env, tz: 0, clamp: 0 });
        this.run = run;
        this.n = n;
        this.page = page;
        this.start = null;
        this.dead = null;
        this.answer = null;
        this.cut = false;
        this.idents = new Map();
        this.lastSettle = null;
        this.phase = 'run';
        this.depth = 1;
        this.inEntry = true;
        this.shown = true;
        this.caches.forEach((c) => { c.may = false; });
        const document = emptyDocument();
        this.attach({
            steps: 0, mono: 0, wall: () => run.wall + this.b.mono + run.jumped, entries: ['http://host.test' + page.url], index: 0, requests: [], tasks: new Map(), t() {}, exports: {}, document,
        });
    }
    fail(tags, kind, msg) {
        if (!tags.includes('*')) {
            const t = new Set();
            for (const x of tags) {
                if (['C18', 'C19', 'C20', 'C21', 'C22', 'C23', 'harness'].includes(x)) t.add(x);
                else if (x === 'C11') t.add('C20').add('C19');
                else t.add('C19');
            }
            // pages rendered beside one which has failed
            if (this.run.failing && !this.dead) t.add('C22');
            tags = [...t];
        }
        super.fail(tags, kind, `page ${this.n} (${this.page.url}): ${msg}`);
    }
    address(kind) {
        if (kind === 'hash') return '';
        return this.page.url;
    }
    newTx() { this.txSeen.clear(); }
    ident(spec) {
        const key = specKey(spec);
        let id = this.idents.get(key);
        if (!id) {
            id = { key, spec, rec: null, sure: false };
            this.idents.set(key, id);
        }
        return id;
    }
    feed(ms, kind, e) {
        this.b.mono = ms;
        this.b.steps++;
        switch (kind) {
            case 'app': this.appLog(e); break;
            case 'page': this.start = ms; break;
            case 'req': this.onServerReq(e); break;
            case 'net': this.onServerNet(e); break;
            case 'cut': this.cut = true; break;
            case 'answer': this.onAnswer(e); break;
            case 'answer-failed': this.fail(['C18'], 'answer-failed', `the answer broke off: ${e}`); break;
            case 'no-answer':
                if (!this.stop) this.fail(['C18', 'C22'], 'no-answer', 'the request was given up without an answer');
                break;
            default: break;
        }
    }
    appLog(l) {
        if (this.stop || this.cut) return;
        if (this.dead) {
            this.fail(['C22'], 'ran-after-failure', `the program was called again after it had failed (${this.dead}): ${J(l)}`);
            return;
        }
        if (this.answer) {
            this.fail(['C18', 'C21'], 'ran-after-answer', `the program went on after its page had been sent: ${J(l)}`);
            return;
        }
        if (l[0] === 'panic!') {
            this.dead = l[1];
            this.run.failing = true;
            this.count('failure:' + l[1]);
            return;
        }
        if (l[0] === 'isb') {
            if (l[1] !== false) this.fail(['C19'], 'is-browser', 'is_browser is true on the server');
            return;
        }
        if (l[0] === 'cget') {
            if (l[2] !== '') this.fail(['C21', 'C19'], 'cookie', `cookie ${l[1]} reads ${J(l[2])} on the server`);
            return;
        }
        if (l[0] === 'cgetj') {
            if (l[2] !== null) this.fail(['C21', 'C19'], 'cookie', `cookie ${l[1]} reads ${J(l[2])} on the server`);
            return;
        }
        if (l[0] === 'N') this.txSeen.clear();
        this.cbLogAfterBatch = false;
        this.refresh = false;
        this.onLog(l);
        if (l[0] === 'T' && l[3] === 'q') {
            const e = this.expectedReqs[this.expectedReqs.length - 1];
            const id = this.ident(e.spec);
            id.sure = true;
            if (id.rec) this.count('shared-requests');
            id.issuers = (id.issuers || 0) + 1;
            e.ident = id;
            Object.defineProperty(e, 'rec', { get: () => id.rec, set() {}, configurable: true });
        }
    }
    // ---- cached resources
    settledOf(c) {
        const id = c.ident;
        return id && id.rec && id.rec.settled ? this.cacheOutcome(id.rec) : null;
    }
    asks(c) {
        c.ident = this.ident(c.spec);
        if (c.asked !== true) {
            c.asked = true;
            c.ident.issuers = (c.ident.issuers || 0) + 1;
        }
    }
    onCacheSeen(i, v) {
        const c = this.caches[i];
        this.count('cache-reads');
        const out = this.settledOf(c);
        if (v[0] === 'L') {
            if (!c.uninit && !c.may) {
                this.fail(['C12', 'C20'], 'cache-value', `cache ${i} reads as loading although it holds ${J(c.cur)}`);
                return;
            }
            c.cur = ['L'];
        } else {
            if (!out || !this.valMatches(out, v)) {
                this.fail(['C12', 'C20'], 'cache-value', `cache ${i} reads ${J(v)}, its request was answered ${J(out)}`);
                return;
            }
            c.cur = v;
            c.uninit = false;
        }
        if (c.uninit) this.asks(c);
    }
    onCacheMap(l) {
        const c = this.caches[l[1]];
        if (!c.ident) c.ident = this.idents.get(specKey(c.spec));
        const rec = c.ident && c.ident.rec;
        if (!rec || !rec.settled) {
            this.fail(['C20', 'C12'], 'phantom-response', `cache ${l[1]} processed a response nobody sent: ${J(l)}`);
            return;
        }
        const o = this.outcomeOf(rec);
        if (o.err || o.status !== l[2] || !this.bodyEq(o.body, l[3])) {
            this.fail(['C20', 'C12'], 'wrong-response', `cache ${l[1]} was given ${J(l.slice(2))}, the response to its request was ${J(o)}`);
            return;
        }
        c.cur = this.cacheOutcome(rec);
        c.uninit = false;
    }
    onUpd(l) {
        const c = this.caches[l[1]];
        if (l[2]) c.may = true;
        if (c.uninit || l[3]) this.asks(c);
    }
    // ---- requests reaching the backends
    onServerReq(rec) {
        if (this.stop) return;
        this.count('requests');
        if (this.answer && !this.cut && this.b.mono > this.answer.ms + 2) {
            this.fail(['C18'], 'request-after-answer', `a request was sent after the page: ${rec.method} ${rec.url}`);
            return;
        }
        let fits = [...this.idents.values()].filter((id) => wireMatches(rec, id.spec));
        if (!fits.length) {
            // a resource read by the view
            const c = this.caches.find((x) => wireMatches(rec, x.spec));
            if (c) {
                this.asks(c);
                fits = [c.ident];
            }
        }
        const id = fits.find((x) => !x.rec);
        if (!id) {
            if (fits.length) this.fail(['C20'], 'fetched-twice', `the request ${J(fits[0].spec)} reached its backend twice while one page was rendered`);
            else this.fail(['C20'], 'wrong-request', `a request nobody issued reached a backend: ${rec.method} ${rec.url} ${J(rec.headers)} ${J(rec.body)}; issued: ${J([...this.idents.values()].filter((x) => !x.rec).map((x) => x.spec))}`);
            return;
        }
        id.rec = rec;
        if (id.issuers > 1) this.count('shared-requests');
    }
    onServerNet({ rec, how }) {
        if (how === 'head') return;
        if (rec.state === undefined && how === 'bodyfail') rec.state = 'bodyfail';
        rec.settled = true;
        rec.settledAt = this.b.mono;
        if (this.answer) this.count('late-answers');
        else this.lastSettle = this.b.mono;
    }
    outstanding() {
        return [...this.idents.values()].filter((x) => x.rec && !x.rec.settled);
    }
    // ---- the answer
    onAnswer({ status, headers, body }) {
        if (this.answer) {
            this.fail(['C18'], 'answered-twice', 'a second answer to one request');
            return;
        }
        const ms = this.b.mono;
        this.answer = { ms, status, headers, body };
        if (this.stop) return;
        this.count('answers:' + status);
        const type = (headers.find(([k]) => k.toLowerCase() === 'content-type') || [])[1] || '';
        const since = (t) => ms - t - this.run.stalledBetween(t, ms);
        const hung = this.outstanding();
        const waited = since(this.start);
        if (this.dead) {
            if (status !== 500) this.fail(['C22'], 'failure-hidden', `the program failed (${this.dead}) but the request was answered with status ${status}`);
            else if (since(this.deadAt()) > 2) this.fail(['C22', 'C18'], 'failure-late', `the program failed (${this.dead}) but the request was answered ${since(this.deadAt())} ms later`);
            return;
        }
        if (status === 500) {
            this.fail(ALL, 'server-error', `answered with an internal error although the program did not fail: ${body.slice(0, 300)}`);
            return;
        }
        if (status !== 200) {
            this.fail(['C18', 'C19'], 'status', `answered with status ${status}`);
            return;
        }
        const plain = (this.spec.plain || {})[this.page.url];
        if (plain !== undefined) {
            this.count('plain-answers');
            if (body !== plain) this.fail(['C19'], 'plain', `the plain answer ${J(plain)} was sent as ${J(body)}`);
            else if (!/^text\/plain/.test(type)) this.fail(['C19'], 'plain-type', `the plain answer was sent as ${type}`);
            else if (since(this.start) > 2) this.fail(['C18'], 'late', `the plain answer came ${since(this.start)} ms after the request`);
            return;
        }
        const nearEnd = [...this.idents.values()].some((x) => x.rec && x.rec.settled && Math.abs(x.rec.settledAt - this.start - TIMEOUT) <= 3 + this.run.stalledBetween(this.start, ms));
        if (hung.length === 0) {
            const t = this.lastSettle === null ? this.start : this.lastSettle;
            if (since(t) > 2) {
                this.fail(['C18'], 'late', `everything had settled at ${t} but the page was sent at ${ms} (requested at ${this.start})`);
                return;
            }
            this.count('answered-complete');
        } else if (!nearEnd) {
            if (ms - this.start < TIMEOUT) {
                this.fail(['C18'], 'early', `the page was sent after ${ms - this.start} ms although ${J(hung[0].spec)} had not settled`);
                return;
            }
            if (waited > TIMEOUT + 2) {
                this.fail(['C18'], 'late', `the page was sent ${waited} ms after its request`);
                return;
            }
            this.count('answered-by-timeout');
        }
        if (nearEnd) return;
        if (!/^text\/html/.test(type)) this.fail(['C19'], 'type', `the page was sent as ${type}`);
        this.checkProgram();
        if (this.stop) return;
        this.checkPage(body);
    }
    deadAt() { return this.b.deadMs === undefined ? this.b.mono : this.b.deadMs; }
    // everything that could happen before the answer has happened
    checkProgram() {
        if (!this.initDone) {
            this.fail(['C18', 'C19'], 'not-started', 'the page was sent before the program had started');
            return;
        }
        for (const c of this.caches) {
            if (c.asked && !c.ident.rec) {
                this.fail(['C20', 'C19'], 'request-not-sent', `cache ${c.i} was read but its request was never sent`);
                return;
            }
            // resources which are equal share one answer
            if (!c.ident) c.ident = this.idents.get(specKey(c.spec));
            const out = this.settledOf(c);
            if (out) {
                c.cur = out;
                c.uninit = false;
            }
        }
        for (const id of this.idents.values()) {
            if (id.sure && !id.rec) {
                this.fail(['C20', 'C18'], 'request-not-sent', `the request ${J(id.spec)} was issued but not sent`);
                return;
            }
        }
        this.checkTasks('when the page was sent');
        if (this.stop) return;
        this.checkSubs();
    }
    mayWait(w) {
        if (w.kind === 'sleep') return w.ms > 0;
        if (w.kind === 'yield') return false;
        return super.mayWait(w);
    }
    checkPage(text) {
        let doc;
        try {
            doc = parsePage(text);
        } catch (err) {
            this.fail(['C19'], 'malformed-page', err.message);
            return;
        }
        const problem = tidy(doc, this.run);
        if (problem) {
            this.fail(['C19'], 'frame', problem);
            return;
        }
        this.b.document = doc;
        const t = this.buildAll();
        this.mismatch = null;
        this.compare(t);
        this.checks++;
        if (this.mismatch) this.fail(this.mismatch.tags, this.mismatch.kind, this.mismatch.msg);
        for (const c of this.caches) {
            if (!this.stop && t.deps.has('x' + c.i) && !(c.ident && c.ident.rec)) this.fail(['C19', 'C18'], 'not-loaded', `cache ${c.i} is shown but was never asked for`);
        }
        this.count('pages-compared');
    }
    compareKids(want, parent, pv, where, skipStyles) {
        // formatting white space, where there is more than text
        if (parent._tidied !== true) {
            parent._tidied = true;
            const structured = parent._kids.some((k) => k.nodeType === 1);
            for (const k of parent._kids) if (k.nodeType === 3 && (structured || /^\n *$/.test(k._data))) k._data = trim(k._data);
        }
        if (want.some((w) => w.k === 'el')) {
            const merged = [];
            for (const w of want) {
                const last = merged[merged.length - 1];
                if (w.k === 'tx' && last && last.k === 'tx') merged[merged.length - 1] = { k: 'tx', s: last.s + w.s, any: w.any || last.any, inList: w.inList };
                else merged.push(w);
            }
            want = merged.map((w) => (w.k === 'tx' ? { ...w, s: trim(w.s) } : w));
        }
        super.compareKids(want, parent, pv, where, skipStyles);
    }
    nsOk() { return true; }
    accept() {}
}
const trim = (s) => s.replace(/^[\n ]+|[\n ]+$/g, '');

// Takes what the server adds to the document of the program out of it again; what is wrong with it is returned.
function tidy(doc, run) {
    const html = doc.documentElement;
    if (html.localName !== 'html' || !doc.head || !doc.body) return 'the page is not an html document with a head and a body';
    const want = {};
    for (const [k, v] of run.envList) want['data-env-' + k] = v;
    for (const k of Object.keys(want)) if (html.getAttribute(k) !== want[k]) return `the environment attribute ${k} is ${J(html.getAttribute(k))}, expected ${J(want[k])}`;
    for (const k of html.getAttributeNames()) if (want[k] === undefined) return `the root element has the attribute ${k}`;
    const kids = doc.body._kids.slice();
    const elements = kids.filter((k) => k.nodeType === 1);
    // styles first
    for (const k of kids) {
        if (k.nodeType === 3 && trim(k._data) === '') continue;
        if (k.nodeType === 1 && k.localName === 'style' && k._attrs.size === 0) {
            doc.head.appendChild(k);
            continue;
        }
        break;
    }
    let last = elements.pop();
    if (run.watch !== null) {
        if (!last || last.localName !== 'script' || !last.textContent.includes(`start_watch('http://127.0.0.1:${run.watch}/events');`)) return 'the page is not watched';
        doc.body.removeChild(last);
        last = elements.pop();
    }
    const scripts = elements.filter((k) => k.localName === 'script');
    if (scripts.length) return 'the page has a second script';
    if (!last || last.localName !== 'script') return 'the page does not load the program';
    const attrs = Object.fromEntries(last.getAttributeNames().map((k) => [k, last.getAttribute(k)]));
    if (attrs.type !== 'module' || attrs.src !== run.index.run_js || attrs['data-vertigo-run-wasm'] !== run.index.wasm) return `the page loads the program with ${J(attrs)}`;
    doc.body.removeChild(last);
    return null;
}

// ---------------------------------------------------------------- one run
class Run {
    constructor(sc, index) {
        this.sc = sc;
        this.index = index;
        this.envList = sc.env || [];
        this.env = Object.fromEntries(this.envList);
        this.spec = JSON.parse(this.env.spec || '{}');
        if (!this.spec.pages) this.spec = { pages: new Proxy({}, { get: () => this.single }), single: this.spec };
        this.wall = sc.wall === undefined ? 1700000000000 : sc.wall;
        this.watch = sc.watch === undefined ? null : sc.watch;
        this.jumped = 0;
        this.stalls = [];
        this.failing = false;
        this.fails = [];
    }
    stalledBetween(a, b) {
        let n = 0;
        for (const [t, ms] of this.stalls) if (t + ms >= a && t <= b) n += ms + 1;
        return n;
    }
    judge(result) {
        const pages = this.sc.pages.map((p, n) => new ServerModel(this, n, p));
        const counts = {};
        const faults = {};
        const fault = (k) => { faults[k] = (faults[k] || 0) + 1; };
        const recs = new Map();
        const nth = {};
        const order = [];
        let overlap = 0;
        let open = 0;
        let t = 0;
        // requests are answered in the order of their arrival, whatever page they belong to
        for (const [us, n, kind, ...e] of result.log) {
            const ms = Math.floor(us / 1000);
            t = ms;
            const p = n === null ? null : pages[n];
            if (kind !== 'log') order.push(`${n}:${kind}${kind === 'net' ? ':' + e[1] : ''}${kind === 'req' ? ':' + e[2] : ''}`);
            switch (kind) {
                case 'log': {
                    const m = /SIM (\[.*\])\s*$/s.exec(e[1]);
                    if (!m) {
                        if (e[0] === 'ERROR') counts['log:' + e[1].replace(/[0-9]+/g, 'N').slice(0, 40)] = (counts['log:' + e[1].replace(/[0-9]+/g, 'N').slice(0, 40)] || 0) + 1;
                        break;
                    }
                    if (!p) {
                        this.fails.push({ tags: ['harness'], kind: 'harness', msg: `a program ran outside of any page: ${m[1].slice(0, 200)}` });
                        return null;
                    }
                    const l = JSON.parse(m[1]);
                    if (l[0] === 'panic!') {
                        p.b.deadMs = ms;
                        order.push(`${n}:fail:${l[1]}`);
                        fault('program-' + l[1]);
                    }
                    p.feed(ms, 'app', l);
                    break;
                }
                case 'req': {
                    const [id, method, url, headers, body] = e;
                    const h = {};
                    for (const [k, v] of headers) h[k.toLowerCase()] = v;
                    const list = (this.sc.net || {})[url];
                    const k = nth[url] || 0;
                    nth[url] = k + 1;
                    const plan = list && list.length ? list[Math.min(k, list.length - 1)] : { k: 'fail' };
                    const outcome = { ...plan, k: plan.k === 'fail' ? 'fail' : 'ok' };
                    const rec = { id, method, url, headers: h, body, outcome, settled: false, page: p };
                    recs.set(id, rec);
                    if (plan.k !== 'ok') fault('backend-' + plan.k);
                    else if (plan.status !== 200) fault('backend-status');
                    if (plan.k === 'ok' && plan.d >= TIMEOUT) fault('backend-late');
                    if (plan.k === 'ok' && /^application\/json/.test(plan.ct || '')) {
                        try {
                            JSON.parse(plan.body);
                        } catch (err) {
                            fault('backend-malformed');
                        }
                    }
                    if (p) p.feed(ms, 'req', rec);
                    break;
                }
                case 'net': {
                    const rec = recs.get(e[0]);
                    if (rec && rec.page) rec.page.feed(ms, 'net', { rec, how: e[1] });
                    break;
                }
                case 'stall': this.stalls.push([ms, e[0]]); fault('stall'); break;
                case 'jump': this.jumped += e[0]; fault('clock-jump'); break;
                case 'host-panic':
                    this.fails.push({ tags: p ? ['*'] : ['*'], kind: 'host-panic', msg: `the server panicked: ${e[0].slice(0, 400)}` });
                    break;
                case 'page':
                    open++;
                    if (open > 1) overlap++;
                    if (p) p.feed(ms, kind, e[0]);
                    break;
                case 'cut': fault('client-gone'); open--; if (p) p.feed(ms, kind); break;
                case 'answer': open--; if (p) p.feed(ms, kind, { status: e[0], headers: e[1], body: e[2] }); break;
                case 'serve-failed': case 'no-app':
                    this.fails.push({ tags: ['*'], kind: 'serve-failed', msg: `the server did not start (${J(e)})` });
                    break;
                default: if (p) p.feed(ms, kind, e[0]); break;
            }
        }
        if (overlap) faults['overlapping-requests'] = overlap;
        for (const p of pages) {
            if (!p.stop && p.start !== null && !p.answer && !p.cut) p.fail(['C18', 'C22'], 'no-answer', `the request of ${p.start} was never answered`);
            if (!p.stop && p.start === null) p.fail(ALL, 'harness', 'the request was never made');
            this.fails.push(...p.fails);
            for (const k of Object.keys(p.counts)) if (!k.startsWith('log:')) counts[k] = (counts[k] || 0) + p.counts[k];
        }
        if (!result.done && !this.fails.length) this.fails.push({ tags: ['C18'], kind: 'not-finished', msg: 'the requests were not all answered in time' });
        this.pages = pages;
        return { counts, faults, order, simMs: t, checks: pages.reduce((a, p) => a + p.checks, 0) };
    }
}

module.exports = { Sim, Run, ServerModel, DEST, BIN, tidy, trim, specKey, wireMatches };
