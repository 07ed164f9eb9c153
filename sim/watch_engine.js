'use strict';
// The engine which decides the properties of the development server: a native process runs the real watch loop,
// build steps, page server and status stream in simulated time; its record is judged here, and the script the
// pages carry is run against the streams the pages received.
const crypto = require('crypto');
const fs = require('fs');
const path = require('path');
const vm = require('vm');
const { Sim } = require('./ssr');
const { emptyDocument } = require('./html');

const clone = (x) => JSON.parse(JSON.stringify(x));
const sha = (s) => crypto.createHash('sha1').update(s).digest('hex');
const BIN = path.resolve(__dirname, '../target/ssr/release/watch-sim');

async function load() {
    if (!fs.existsSync(BIN)) throw new Error('the simulator of the development server has not been built');
    const A = { sim: new Sim(BIN, [], 400) };
    process.on('exit', () => A.sim.stop());
    return A;
}

const SCRIPT = /<script>([^]*?)<\/script>/g;
function watchScript(body) {
    for (const m of body.matchAll(SCRIPT)) if (m[1].includes('EventSource')) return m[1];
    return null;
}

// A page of a browser: its document, its event stream, whether it has asked to be loaded again.
class Page {
    constructor(script) {
        this.document = emptyDocument();
        const html = this.document.createElement('html');
        if (!this.document.documentElement) this.document.appendChild(html);
        for (const n of ['head', 'body']) this.document.documentElement.appendChild(this.document.createElement(n));
        this.sources = [];
        this.reloaded = false;
        const page = this;
        const say = () => {};
        const location = { reload() { page.reloaded = true; }, href: 'http://127.0.0.1/' };
        class EventSource {
            constructor(url) {
                this.url = url;
                this.readyState = 0;
                this.handlers = { message: [], error: [], open: [] };
                page.sources.push(this);
            }
            addEventListener(k, f) { (this.handlers[k] = this.handlers[k] || []).push(f); }
            close() { this.readyState = 2; }
            fire(k, e) {
                if (typeof this['on' + k] === 'function') this['on' + k](e);
                for (const f of this.handlers[k] || []) f(e);
            }
        }
        const window = { document: this.document, location, EventSource, console: { log: say, info: say, error: say, warn: say, debug: say }, setTimeout: (f) => { f(); return 0; }, clearTimeout() {} };
        window.window = window;
        window.self = window;
        vm.runInNewContext(script, window, { timeout: 2000 });
    }
    fire(k, e) { for (const s of this.sources) if (s.readyState !== 2) s.fire(k, e); }
    // what covers the page
    overlay() {
        const out = [];
        for (const n of this.document.documentElement._kids) {
            if (['head', 'body'].includes(n.localName)) out.push(...n._kids.map((x) => x.textContent));
            else out.push(n.textContent);
        }
        return out.filter((x) => /\S/.test(x));
    }
}

function judge(sc, out) {
    const fails = [];
    const counts = {};
    const faults = {};
    const order = [];
    let checks = 0;
    const bump = (o, k) => { o[k] = (o[k] || 0) + 1; };
    const fail = (kind, msg) => { if (!fails.some((f) => f.kind === kind)) fails.push({ tags: ['C25'], kind, msg }); };
    const builds = []; // { n, source, ok, ended, at }
    const newest = () => builds[builds.length - 1];
    const version = new Map(); // what has been announced under a number: the build
    let changed = false; // a change has been noticed since the newest build started
    let listening = 0;
    const pages = new Map(); // "browser/page"
    const key = (b, p) => b + '/' + p;
    let final = null;
    let tooMany = false;
    for (const rec of out.log) {
        const [us, kind, ...x] = rec;
        const at = (us / 1000).toFixed(1) + ' ms';
        if (kind !== 'log') order.push(kind + ':' + (kind === 'message' ? x[0] + x[2] : kind === 'build' ? x[0] + x[1] : kind === 'event' ? x[0] : ''));
        if (kind === 'build' && x[1] === 'start') {
            builds.push({ n: x[0], ended: false });
            changed = false;
            bump(counts, 'builds');
        } else if (kind === 'build') {
            const b = builds.find((y) => y.n === x[0]);
            b.ended = true;
            b.source = x[2];
            b.ok = x[3] && !['static', 'disk', 'wasm'].includes(x[4]);
            if (x[4]) bump(faults, 'build-' + x[4]);
            if (!x[3] && !x[4]) bump(counts, 'broken-sources');
        } else if (kind === 'source') {
            bump(counts, 'changes');
            if (newest() && !newest().ended) bump(faults, 'change-during-build');
            if (x[1] === 'rescan') bump(faults, 'event-queue-overflow');
        } else if (kind === 'event') {
            if (['error', 'output', 'elsewhere'].includes(x[0])) bump(faults, 'event-' + x[0]);
            else changed = true;
        } else if (kind === 'listening') listening++;
        else if (kind === 'closed') listening--;
        else if (kind === 'panic') bump(counts, 'panics');
        else if (kind === 'harness' || kind === 'command?') return { fails: [{ tags: ['harness'], kind: 'harness', msg: JSON.stringify(rec) }], counts, faults, order, checks };
        else if (kind === 'watch-ended') fail('watch-ended', `at ${at} watching ends with ${JSON.stringify(x[0])}`);
        else if (kind === 'page') {
            const [b, id, from, status, said, body] = x;
            bump(counts, 'pages');
            checks++;
            const page = { b, id, from, said, events: [], gap: false, script: null, connected: false, fresh: listening === 1 };
            pages.set(key(b, id), page);
            if (status !== 200 || said === null) fail('page', `at ${at} the page answers ${status}: ${body.slice(0, 200)}`);
            page.script = watchScript(body);
            if (!page.script) fail('page', `at ${at} the page does not carry the script which follows the builds`);
        } else if (kind === 'asset') {
            checks++;
            // (the server may have been stopped between the page and what it refers to)
            if (x[3] !== 200 && listening === 1 && newest() && newest().ended && x[3] !== null) fail('asset', `at ${at} the page refers to ${x[2]}, which is answered with ${x[3]}`);
        } else if (kind === 'refused') fail('no-status', `at ${at} browser ${x[0]} finds no stream of statuses at ${x[2]}`);
        else if (kind === 'connected') {
            const page = pages.get(key(x[0], x[1]));
            page.connected = true;
            checks++;
            if (x[2] !== 200 || !/^text\/event-stream/.test(x[3] || '')) fail('no-status', `at ${at} the stream of statuses answers ${x[2]} ${x[3]}`);
            if (x[4] !== '*' && x[4] !== `http://127.0.0.1:${sc.port}`) fail('no-status', `at ${at} a page of http://127.0.0.1:${sc.port} may not read the stream of statuses (access-control-allow-origin: ${x[4]})`);
        } else if (kind === 'cut' || kind === 'ended') {
            const page = pages.get(key(x[0], x[1]));
            page.connected = false;
            page.events.push(null);
            if (kind === 'cut') bump(faults, 'connection-lost');
            else fail('no-status', `at ${at} the stream of statuses of browser ${x[0]} ends`);
        } else if (kind === 'message') {
            const [b, id, message, served] = x;
            const page = pages.get(key(b, id));
            page.events.push(message);
            bump(counts, 'messages');
            checks++;
            const n = newest();
            if (message === 'Errors') {
                if (!n || !n.ended) fail('superseded', `at ${at} a browser is told of errors while ${n ? `build ${n.n} still runs` : 'nothing has been built'}`);
                else if (n.ok) fail('wrong-outcome', `at ${at} a browser is told of errors, but the newest build (${n.n}) has succeeded`);
            } else if (/^Version = \d+$/.test(message)) {
                if (!n || !n.ended) fail('superseded', `at ${at} a browser is told "${message}" while ${n ? `build ${n.n} still runs` : 'nothing has been built'}`);
                else if (!n.ok) fail('wrong-outcome', `at ${at} a browser is told "${message}", but the newest build (${n.n}) has failed`);
                else if (served === null) {
                    if (!changed) fail('not-served', `at ${at} a browser is told "${message}", but nobody answers requests`);
                } else if (served[0] !== 200 || !served[1] || served[1][0] !== n.n) fail('not-served', `at ${at} a browser is told "${message}" (build ${n.n}), but the page is ${JSON.stringify(served)}`);
                const v = Number(message.slice(10));
                if (n && n.ended && n.ok) {
                    if (version.has(v) && version.get(v) !== n.n) fail('version', `at ${at} "${message}" stands for build ${n.n}, and stood for build ${version.get(v)}`);
                    for (const [w, m] of version) if ((w > v && m < n.n) || (w < v && m > n.n)) fail('version', `at ${at} "${message}" is build ${n.n}, while version ${w} was build ${m}`);
                    version.set(v, n.n);
                }
            } else if (message !== 'Building') fail('message', `at ${at} a browser receives ${JSON.stringify(message)}`);
        } else if (kind === 'toomany') tooMany = true;
        else if (kind === 'final') final = x;
    }
    // in the end
    const n = newest();
    const what = `${sc.changes.length} changes, ${builds.length} builds`;
    checks++;
    if (!n) fail('never-built', 'nothing is ever built');
    else if (!n.ended) fail('unsettled', `build ${n.n} never ends (${what})`);
    else if (n.source !== out.source) fail('change-missed', `the newest build (${n.n}) was made from generation ${n.source} of the sources, the last change made generation ${out.source} (${what})`);
    else {
        if (n.ok && (!final || final[0] !== 200 || !final[1] || final[1][0] !== n.n)) fail('not-served', `in the end the page is ${JSON.stringify(final)}, the newest build is ${n.n}`);
        for (const p of pages.values()) {
            if (!p.connected) continue;
            const last = p.events.filter((e) => e !== null).pop();
            checks++;
            const right = n.ok ? /^Version = \d+$/.test(last || '') : last === 'Errors';
            if (!right) fail('status', `in the end browser ${p.b} has been told "${last}", the newest build (${n.n}) has ${n.ok ? 'succeeded' : 'failed'} (${what})`);
        }
        // what the pages make of it
        if (!tooMany && fails.length === 0) {
            for (const b of new Set([...pages.values()].map((p) => p.b))) {
                let page = pages.get(key(b, 0));
                let hops = 0;
                while (page) {
                    let p;
                    const seen = [];
                    try {
                        p = new Page(page.script);
                        for (const e of page.events) {
                            seen.push(e);
                            if (e === null) p.fire('error', {});
                            else p.fire('message', { data: e });
                            if (p.reloaded) break;
                        }
                    } catch (err) {
                        fail('page-script', `the script of the page fails: ${err.message}`);
                        break;
                    }
                    checks++;
                    if (p.reloaded) {
                        const trigger = seen[seen.length - 1];
                        bump(counts, 'reloads');
                        if (!/^Version/.test(trigger)) { bump(counts, 'reload-otherwise'); break; }
                        if (seen.length === 1) { fail('page-reloads', `a page which is told "${trigger}" at once loads itself again, for ever`); break; }
                        const next = [...pages.values()].find((q) => q.b === b && q.from && q.from[0] === page.id && q.from[1] === trigger && q.id > page.id);
                        if (!next) { bump(counts, 'reload-at-the-end'); break; }
                        page = next;
                        if (++hops > 50) break;
                        continue;
                    }
                    const first = page.events.find((e) => e !== null);
                    const cover = p.overlay();
                    if (!page.connected) break;
                    if (n.ok) {
                        if (cover.length) fail('page-covered', `in the end the page is covered by ${JSON.stringify(cover)}, though the newest build is announced (messages ${JSON.stringify(page.events)})`);
                        // (loaded before that build, connected after it: not told apart by a page which has just been loaded)
                        else if (page.said && page.said[0] !== n.n && !(page.events.filter((e) => e !== null).length === 1)) fail('page-stale', `in the end the page shows build ${page.said[0]}, the newest is ${n.n} (messages ${JSON.stringify(page.events)})`);
                    } else {
                        if (cover.length !== 1) fail('page-errors', `the newest build has failed, the page shows ${JSON.stringify(cover)} (messages ${JSON.stringify(page.events)})`);
                        else if (/progress/i.test(cover[0])) fail('page-errors', `the newest build has failed, the page says ${JSON.stringify(cover[0])}`);
                    }
                    bump(counts, 'final-pages');
                    break;
                }
            }
        }
    }
    return { fails, counts, faults, order, checks };
}

async function run(sc, A, opts) {
    const out = await A.sim.run(sc);
    let r;
    if (out.hang || out.exit) {
        r = { fails: [{ tags: ['*'], kind: 'hang', msg: 'the development server makes no progress any more ' + (out.exit || '') }], counts: {}, faults: {}, order: [], checks: 0 };
    } else r = judge(sc, out.result);
    const log = out.result ? out.result.log : [];
    const res = {
        fails: r.fails, counts: r.counts, faults: r.faults, steps: log.length, simMs: sc.limit, checks: r.checks,
        orderHash: sha(r.order.join('|')).slice(0, 16), traceHash: sha(JSON.stringify(log)),
        nontrivial: (r.counts.builds || 0) > 1 && (r.counts.messages || 0) > 2,
    };
    if (opts.keepTrace) res.trace = log.map((l) => JSON.stringify(l).slice(0, 600));
    return res;
}

function* candidates(sc) {
    const edit = (f) => {
        const c = clone(sc);
        f(c);
        return c;
    };
    for (const [k, min0] of [['changes', 0], ['browsers', 1], ['builds', 1], ['broken', 0]]) {
        for (let size = sc[k].length; size >= 1; size = Math.floor(size / 2)) {
            for (let i = 0; i + size <= sc[k].length; i += size) if (sc[k].length - size >= min0) yield edit((c) => { c[k].splice(i, size); });
        }
    }
    const plain = { port: 4444, events: 5555, dir: '', named: false, public: '/build', opt: 'off', map: false, added: '', late: 0, compile: 0, rustup: 1 };
    for (const k of Object.keys(plain)) if (sc[k] !== plain[k]) yield edit((c) => { c[k] = plain[k]; });
    for (const [i, b] of sc.builds.entries()) {
        if (b.fault) yield edit((c) => { delete c.builds[i].fault; });
        for (const k of ['before', 'after']) if (b[k] > 10) yield edit((c) => { c.builds[i][k] = Math.floor(b[k] / 2); });
    }
    for (const [i, b] of sc.browsers.entries()) {
        if (b.cuts) yield edit((c) => { delete c.browsers[i].cuts; });
        for (const k of ['connect', 'reload']) if (b[k]) yield edit((c) => { c.browsers[i][k] = 0; });
    }
    for (const [i, b] of sc.changes.entries()) {
        if (b.lag) yield edit((c) => { c.changes[i].lag = 0; });
        if (b.kind !== 'modify') yield edit((c) => { c.changes[i].kind = 'modify'; });
    }
}

module.exports = { load, run, candidates };
