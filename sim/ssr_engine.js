'use strict';
// The engine which decides the properties of server rendering.
//  plain   one server, its requests and backends, judged page by page
//  repeat  besides: the same requests with other hash seeds and each of them alone must give the same pages
//  both    besides: the page the browser shows first, given the same answers, must be the page of the server
const crypto = require('crypto');
const fs = require('fs');
const { Sim, Run, DEST, BIN, tidy, trim } = require('./ssr');
const { parsePage } = require('./html');
const { Model } = require('./model');
const S = require('./eval');
const min = require('./min');

const clone = (x) => JSON.parse(JSON.stringify(x));
const sha = (s) => crypto.createHash('sha1').update(s).digest('hex');

async function load() {
    if (!fs.existsSync(BIN)) throw new Error('the server simulator has not been built');
    const A = { sim: new Sim(), index: JSON.parse(fs.readFileSync(DEST + '/index.json', 'utf8')), browser: null };
    process.on('exit', () => A.sim.stop());
    return A;
}

const HANG = { tags: ['*'], kind: 'hang', msg: 'the server makes no progress any more (endless loop)' };

// one execution: { run, res, log, result } or { fails }
async function exec(sc, A) {
    const out = await A.sim.run(sc);
    if (out.hang) return { fails: [HANG] };
    if (out.exit) return { fails: [/^97/.test(out.exit) ? HANG : { tags: ['*'], kind: 'server-died', msg: `the server process ended: ${out.exit.slice(0, 400)}` }] };
    const run = new Run(sc, A.index);
    const res = run.judge(out.result);
    return { run, res, result: out.result, fails: run.fails };
}

const SLACK = 4;
// Is the order of events within the page beyond doubt, so that it cannot depend on what else the server does?
function steady(p, log) {
    const at = [];
    for (const [us, n, kind] of log) if (n === p.n && kind === 'net') at.push(us / 1000);
    at.sort((a, b) => a - b);
    for (let i = 1; i < at.length; i++) if (at[i] - at[i - 1] < 0.5 && at[i] !== at[i - 1]) return false;
    for (const t of at) if (Math.abs(t - p.start - 10000) < SLACK) return false;
    return true;
}
const shapeOf = (p) => (p.dead ? { status: p.answer.status } : { status: p.answer.status, headers: p.answer.headers.filter(([k]) => k.toLowerCase() !== 'date'), body: p.answer.body });
function firstDifference(a, b) {
    if (a.status !== b.status) return `status ${a.status} and ${b.status}`;
    if (JSON.stringify(a.headers) !== JSON.stringify(b.headers)) return `headers ${JSON.stringify(a.headers)} and ${JSON.stringify(b.headers)}`;
    let i = 0;
    while (i < a.body.length && a.body[i] === b.body[i]) i++;
    return `at character ${i}: ${JSON.stringify(a.body.slice(Math.max(0, i - 40), i + 80))} and ${JSON.stringify(b.body.slice(Math.max(0, i - 40), i + 80))}`;
}
function same(p, q, what, counts) {
    if (!p.answer || !q.answer || p.cut || q.cut) return null;
    counts['answers-repeated'] = (counts['answers-repeated'] || 0) + 1;
    const a = shapeOf(p);
    const b = shapeOf(q);
    if (JSON.stringify(a) === JSON.stringify(b)) return null;
    return { tags: ['C21'], kind: 'not-repeatable', msg: `${what}: the answers to ${p.page.url} differ in ${firstDifference(a, b)}` };
}

async function repeat(sc, first, A) {
    const counts = first.res.counts;
    const settled = (x) => x.run.pages.filter((p) => p.answer && steady(p, x.result.log));
    const one = settled(first);
    const texts = [];
    // the same request twice
    for (const p of one) {
        const q = one.find((x) => x.n < p.n && x.page.url === p.page.url);
        if (!q) continue;
        const f = same(q, p, `requests ${q.n} and ${p.n} of one run`, counts);
        if (f) return { fails: [f], texts };
    }
    // again, with other seeds of the hash maps
    const other = await exec({ ...sc, hash: sc.hash + 7919 }, A);
    if (other.fails.length) return { fails: other.fails, texts };
    texts.push(JSON.stringify(other.result.log));
    for (const p of one) {
        const q = other.run.pages[p.n];
        if (!steady(q, other.result.log)) continue;
        const f = same(p, q, 'two executions', counts);
        if (f) return { fails: [f], texts };
    }
    // alone
    const seen = new Set();
    for (const p of one) {
        if (seen.has(p.page.url)) continue;
        seen.add(p.page.url);
        if (sc.pages.length === 1) break;
        const alone = await exec({ ...sc, pages: [{ ...p.page, at: 0 }], stalls: [], jumps: [] }, A);
        if (alone.fails.length) return { fails: alone.fails, texts };
        texts.push(JSON.stringify(alone.result.log));
        const q = alone.run.pages[0];
        if (!steady(q, alone.result.log)) continue;
        const f = same(p, q, 'among other requests and alone', counts);
        if (f) return { fails: [f], texts };
    }
    return { fails: [], texts };
}

// ---------------------------------------------------------------- browser and server
// A document as plain data: classes by what they style, no comments, no styles, formatting white space dropped.
function normal(doc) {
    const styles = [];
    for (const e of doc.head._kids) if (e.localName === 'style' && e._attrs.size === 0) styles.push(e.textContent);
    const rules = S.rulesOf(styles);
    const order = new Map([...rules.keys()].map((k, i) => [k, i]));
    // what an error says is up to the platform
    const text = (s) => s.replace(/^error = [^]*$/, 'error = ');
    const kids = (el, top) => {
        const out = [];
        let structured = false;
        for (const k of el._kids) {
            if (k.nodeType === 8) continue;
            if (top && k.nodeType === 1 && (k.localName === 'style' && k._attrs.size === 0 || (k.localName === 'script' && k.getAttribute('data-vertigo-run-wasm')))) {
                structured = true;
                continue;
            }
            if (k.nodeType === 3) {
                if (typeof out[out.length - 1] === 'string') out[out.length - 1] += k._data;
                else out.push(k._data);
            } else {
                structured = true;
                out.push(one(k));
            }
        }
        return out.map((k) => (typeof k !== 'string' ? k : structured || top || /^\n *$/.test(k) ? text(trim(k)) : text(k))).filter((k) => k !== '');
    };
    const one = (el) => {
        const attrs = {};
        for (const k of el.getAttributeNames().sort()) {
            if (k !== 'class') {
                attrs[k] = el.getAttribute(k);
                continue;
            }
            const names = el.getAttribute('class').split(/\s+/).filter((x) => x);
            const known = names.filter((n) => rules.has(n)).sort((a, b) => order.get(a) - order.get(b)).map((n) => S.ruleText(rules.get(n).rules));
            attrs.class = [names.filter((n) => !rules.has(n)), known];
        }
        return [el.localName, attrs, ...kids(el, false)];
    };
    return { head: kids(doc.head, true), body: kids(doc.body, true) };
}
function diff(a, b, where) {
    if (typeof a === 'string' || typeof b === 'string' || a === undefined || b === undefined) {
        return JSON.stringify(a) === JSON.stringify(b) ? null : `${where}: the server sent ${JSON.stringify(a)}, the browser shows ${JSON.stringify(b)}`;
    }
    if (a[0] !== b[0]) return `${where}: the server sent <${a[0]}>, the browser shows <${b[0]}>`;
    if (JSON.stringify(a[1]) !== JSON.stringify(b[1])) return `${where} <${a[0]}>: the server sent ${JSON.stringify(a[1])}, the browser shows ${JSON.stringify(b[1])}`;
    for (let i = 2; i < Math.max(a.length, b.length); i++) {
        const d = diff(a[i], b[i], `${where} > ${a[0]}`);
        if (d) return d;
    }
    return null;
}
const plainNodes = (list) => list.map((k) => {
    if (k.nodeType === 3) return k._data;
    if (k.nodeType === 8) return { c: k._data };
    return { tag: k.localName, attrs: k.getAttributeNames().map((n) => [n, k.getAttribute(n)]), ch: plainNodes(k._kids) };
});

async function both(sc, first, A) {
    const counts = first.res.counts;
    const p = first.run.pages[0];
    if (!p || !p.answer || p.dead || p.answer.status !== 200 || p.answer.ms - p.start > 9990 || (p.spec.plain || {})[p.page.url] !== undefined) return { fails: [], texts: [] };
    // The browser shows its page when what the first rendering asked for has settled; the server waits for
    // what is asked for after that, too.
    if (first.result.log.some(([us, n, kind]) => kind === 'req' && us / 1000 > p.start)) {
        counts['data-asked-for-later'] = (counts['data-asked-for-later'] || 0) + 1;
        return { fails: [], texts: [] };
    }
    if (!A.browser) A.browser = require('./assets').loadAssets();
    const { runScenario } = require('./run');
    const net = {};
    for (const url of Object.keys(sc.net)) net[url] = sc.net[url].map((o) => (o.k === 'bodyfail' ? { ...o, k: 'ok', bf: 1 } : { ...o }));
    const server = parsePage(p.answer.body);
    const bsc = {
        spec: p.spec, path: p.page.url, env: Object.fromEntries((sc.env || []).filter(([k]) => k !== 'spec')), net, script: [], loadAt: 0, tail: 500, wall: sc.wall,
        driver: sc.driver || 'ts', streaming: 'ok', initialHead: plainNodes(server.head._kids), initialBody: plainNodes(server.body._kids.filter((k) => k.localName !== 'script')),
    };
    let shown = null;
    class FirstShown extends Model {
        endOfCallback() {
            super.endOfCallback();
            if (shown === null && this.shown && this.ready) shown = normal(this.b.document);
        }
    }
    const r = await runScenario(bsc, A.browser, { Model: FirstShown, keepTrace: true });
    if (r.fails.length) return { fails: r.fails.map((f) => ({ ...f, tags: f.tags.includes('harness') ? f.tags : ['C23'], msg: 'in the browser: ' + f.msg })), texts: [r.trace.join('\n')] };
    const texts = [r.trace.join('\n')];
    if (shown === null) return { fails: [{ tags: ['C23', 'C13'], kind: 'never-shown', msg: 'the browser never shows the page' }], texts };
    const problem = tidy(server, first.run);
    if (problem) return { fails: [{ tags: ['C23', 'C19'], kind: 'frame', msg: problem }], texts };
    const want = normal(server);
    counts['pages-shown-by-both'] = (counts['pages-shown-by-both'] || 0) + 1;
    for (const part of ['head', 'body']) {
        const d = diff([part, {}, ...want[part]], [part, {}, ...shown[part]], 'html');
        if (d) return { fails: [{ tags: ['C23'], kind: 'different-page', msg: d }], texts };
    }
    return { fails: [], texts };
}

async function execute(sc, A) {
    const first = await exec(sc, A);
    if (!first.res) return { ...first, texts: [] };
    let extra = { fails: [], texts: [] };
    if (sc.mode === 'repeat' && !first.fails.length) extra = await repeat(sc, first, A);
    // a page which is wrong by itself can still be compared, unless it is not a page at all
    if (sc.mode === 'both' && !first.fails.some((f) => f.tags.includes('C23') || f.tags.includes('*') || f.tags.includes('harness'))) extra = await both(sc, first, A);
    return { ...first, fails: [...first.fails, ...extra.fails], texts: extra.texts };
}

async function run(sc, A, opts = {}) {
    if (sc.prelude) {
        A.sim.stop();
        for (const s of sc.prelude) await exec(s, A);
    }
    const before = A.sim.child && A.sim.served.length < 60 ? A.sim.served.slice() : [];
    let out = await execute(sc, A);
    if (out.fails.length && before.length && !sc.prelude && !out.fails.some((f) => f.tags.includes('harness'))) {
        // once more in a process of its own
        A.sim.stop();
        const again = await execute(sc, A);
        if (again.fails.some((f) => out.fails.some((g) => g.kind === f.kind))) out = again;
        else sc.prelude = before;
    }
    if (out.fails.some((f) => f.kind === 'hang')) A.sim.stop();
    const text = (out.result ? JSON.stringify(out.result.log) : 'none') + out.texts.join('\n');
    const r = out.res || { counts: {}, faults: {}, order: [], simMs: 0, checks: 0 };
    const res = {
        fails: out.fails, counts: r.counts, faults: r.faults, steps: out.result ? out.result.log.length : 0, simMs: r.simMs, checks: r.checks,
        orderHash: sha(r.order.join('|')).slice(0, 16), traceHash: sha(text),
        nontrivial: r.order.length > 6 && (r.counts['requests'] || 0) > 1,
    };
    if (opts.keepTrace) res.trace = out.result ? out.result.log.map((l) => JSON.stringify(l).slice(0, 3000)) : [];
    return res;
}

// ---------------------------------------------------------------- smaller scenarios
function* candidates(sc) {
    const edit = (f) => {
        const c = clone(sc);
        f(c);
        return c;
    };
    const cut = function* (key, min0) {
        const list = sc[key] || [];
        for (let size = list.length; size >= 1; size = Math.floor(size / 2)) {
            for (let i = 0; i + size <= list.length; i += size) if (list.length - size >= min0) yield edit((c) => { c[key].splice(i, size); });
        }
    };
    if (sc.prelude) yield* cut('prelude', 0);
    yield* cut('pages', 1);
    yield* cut('stalls', 0);
    yield* cut('jumps', 0);
    if (sc.watch !== undefined) yield edit((c) => { delete c.watch; });
    const i = sc.env.findIndex(([k]) => k === 'spec');
    for (let k = sc.env.length - 1; k >= 0; k--) if (k !== i) yield edit((c) => { c.env.splice(k, 1); });
    const text = sc.env[i][1];
    const spec = JSON.parse(text);
    const used = new Set(sc.pages.map((p) => p.url.split(/[?#]/)[0]));
    const put = (s) => edit((c) => { c.env[i][1] = JSON.stringify(s); });
    for (const p of Object.keys(spec.pages)) {
        if (used.has(p)) continue;
        const s = clone(spec);
        delete s.pages[p];
        yield put(s);
    }
    for (const url of Object.keys(sc.net)) if (!text.includes(url)) yield edit((c) => { delete c.net[url]; });
    for (const [n, p] of sc.pages.entries()) {
        if (p.cut !== undefined) yield edit((c) => { delete c.pages[n].cut; });
        if (p.at) yield edit((c) => { c.pages[n].at = 0; });
        const short = p.url.split('?')[0];
        if (short !== p.url) yield edit((c) => { c.pages[n].url = short; });
    }
    for (const url of Object.keys(sc.net)) {
        const list = sc.net[url];
        if (list.length > 1) for (let k = 0; k < list.length; k++) yield edit((c) => { c.net[url].splice(k, 1); });
        for (const [k, o] of list.entries()) {
            if (o.k !== 'ok') yield edit((c) => { c.net[url][k].k = 'ok'; });
            for (const x of ['bd', 'y', 'h']) if (o[x] !== undefined) yield edit((c) => { delete c.net[url][k][x]; });
        }
    }
    for (const p of Object.keys(spec.pages)) {
        for (const c of min.candidates({ spec: spec.pages[p] })) {
            const s = clone(spec);
            s.pages[p] = c.spec;
            yield put(s);
        }
    }
}

module.exports = { load, run, candidates };
