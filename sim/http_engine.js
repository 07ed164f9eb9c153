'use strict';
// The front of the server: what the connections get and what reaches the backends, judged against the options.
const crypto = require('crypto');
const fs = require('fs');
const path = require('path');
const { Sim, BIN, DEST } = require('./ssr');

const clone = (x) => JSON.parse(JSON.stringify(x));
const sha = (s) => crypto.createHash('sha1').update(s).digest('hex');
const SLACK = 60; // ms
const SECRET = 'not-to-be-served';

async function load() {
    if (!fs.existsSync(BIN)) throw new Error('the server simulator has not been built');
    const A = { sim: new Sim(), files: new Map() };
    const walk = (rel) => {
        for (const e of fs.readdirSync(path.join(DEST, rel), { withFileTypes: true })) {
            const p = rel ? rel + '/' + e.name : e.name;
            if (e.isDirectory()) walk(p);
            else A.files.set('/build/' + p.split('/').map(encodeURIComponent).join('/'), fs.readFileSync(path.join(DEST, p)));
        }
    };
    walk('');
    process.on('exit', () => A.sim.stop());
    return A;
}

// ---------------------------------------------------------------- what is sent
const bytesOf = (b) => (b.bin ? Buffer.from(b.bin) : Buffer.from(b.t || '', 'utf8'));
function wire(q) {
    let head = `${q.m} ${q.absolute || ''}${q.path}${q.q} HTTP/1.1\r\nhost: front.test\r\n`;
    for (const [k, v] of q.h) head += `${k}: ${v}\r\n`;
    if (!q.b) return Buffer.from(head + '\r\n', 'utf8');
    const body = bytesOf(q.b);
    if (q.b.ct) head += `content-type: ${q.b.ct}\r\n`;
    if (!q.chunks) return Buffer.concat([Buffer.from(head + `content-length: ${body.length}\r\n\r\n`), body]);
    const out = [Buffer.from(head + 'transfer-encoding: chunked\r\n\r\n')];
    for (let i = 0, n = 0; i < body.length; n++) {
        const c = body.subarray(i, i + q.chunks[n % q.chunks.length]);
        out.push(Buffer.from(c.length.toString(16) + '\r\n'), c, Buffer.from('\r\n'));
        i += c.length;
    }
    out.push(Buffer.from('0\r\n\r\n'));
    return Buffer.concat(out);
}
// the parts a connection is sent in; ends[i] is the number of the part which completes request i
function script(c) {
    const parts = [];
    const ends = [];
    const push = (d, b) => parts.push(b.every((x) => x < 128) ? { d, t: b.toString('latin1') } : { d, bin: [...b] });
    for (const [i, q] of c.reqs.entries()) {
        let b = wire(q);
        const last = i === c.reqs.length - 1;
        const cut = last && c.cut !== undefined && !c.garbage;
        if (cut) b = b.subarray(0, Math.floor((b.length - 1) * c.cut / 1000));
        const cuts = (q.split || []).map(([at, d]) => [Math.floor(b.length * at / 1000), d]).sort((x, y) => x[0] - y[0]);
        let from = 0;
        let d = q.d;
        for (const [at, dd] of cuts) {
            if (at <= from || at >= b.length) continue;
            push(d, b.subarray(from, at));
            from = at;
            d = dd;
        }
        if (from < b.length || !cut) push(d, b.subarray(from));
        if (!cut) ends.push(parts.length - 1);
    }
    if (c.garbage) push(5, Buffer.from(c.garbage, 'latin1'));
    return { parts, ends };
}

// ---------------------------------------------------------------- which party a request is for
function classify(sc, q) {
    let best = null;
    for (const [p, t] of sc.proxy) if ((q.path === p || q.path.startsWith(p + '/')) && (!best || p.length > best[0].length)) best = [p, t];
    if (best) {
        const rest = q.path.slice(best[0].length);
        const dots = rest.split(/[/\\]/).some((s) => /^(\.|%2e){1,2}$/i.test(s));
        return { kind: dots ? 'dots' : 'proxy', target: best[1], rest };
    }
    if (q.path === '/build' || q.path.startsWith('/build/')) return { kind: 'file' };
    return { kind: 'page' };
}
const norm = (s) => {
    try {
        return new URL(s).href;
    } catch (e) {
        return null;
    }
};
// what a proxied request may be sent to (with or without the slash, where nothing follows the prefix)
function urlsOf(cls, q) {
    if (cls.rest === '' || cls.rest === '/') return [cls.target + '/' + q.q, cls.target + q.q, cls.target + cls.rest + q.q].map(norm);
    return [norm(cls.target + cls.rest + q.q)];
}
const NO_BODY = [204, 304];
function backendAnswer(a) {
    const body = a.bin ? Buffer.from(a.bin) : Buffer.from(a.body || '', 'utf8');
    const h = (a.h || []).slice();
    if (!NO_BODY.includes(a.status) && a.k === 'ok') {
        if (a.framing === 'length') h.push(['content-length', String(body.length)]);
        else if (a.framing === 'chunked') h.push(['transfer-encoding', 'chunked']);
    }
    return { ...a, h };
}
const HOP = ['connection', 'keep-alive', 'transfer-encoding', 'content-length', 'te', 'trailer', 'upgrade', 'proxy-connection'];

// the scenario as the simulator takes it
function lower(sc) {
    const net = {};
    let end = 0;
    const conns = sc.conns.map((c) => {
        const s = script(c);
        let t = c.at;
        for (const p of s.parts) t += p.d;
        for (const q of c.reqs) t += q.a.d + (q.a.bd || 0) + 100;
        let size = 0;
        for (const q of c.reqs) size += (q.a.body || '').length * 2 + 60000;
        const pace = c.pace ? Math.min(200000, Math.ceil(size / Math.min(c.pipe || 65536, 65536)) * c.pace) : 0;
        const out = { at: c.at, parts: s.parts, hold: c.hold !== undefined ? c.hold : t - c.at + 3000 + pace, pace: c.pace || 0 };
        if (c.pipe) out.pipe = c.pipe;
        end = Math.max(end, c.at + out.hold);
        return out;
    });
    for (const c of sc.conns) for (const q of c.reqs) {
        const cls = classify(sc, q);
        if (cls.kind === 'proxy') for (const u of urlsOf(cls, q)) net[u] = [backendAnswer(q.a)];
    }
    return { proxy: sc.proxy, env: [['spec', '{"pages":{}}']], hash: sc.hash, wall: sc.wall, pages: [], conns, net, stalls: sc.stalls || [], tail: 1000, limit: end + 400000 };
}

// ---------------------------------------------------------------- responses
// strict parser of HTTP/1.1 responses: list of { status, headers, body, head, end (times) }, and what follows
function responses(chunks, methods, ended) {
    const text = chunks.map((c) => c[1]).join('');
    const timeAt = (off) => {
        let n = 0;
        for (const [t, s] of chunks) {
            n += s.length;
            if (off <= n) return t;
        }
        return null;
    };
    const out = [];
    let i = 0;
    while (i < text.length) {
        const e = text.indexOf('\r\n\r\n', i);
        if (e < 0) return { out, partial: text.slice(i) };
        const lines = text.slice(i, e).split('\r\n');
        const m = /^HTTP\/1\.[01] (\d{3})(?: .*)?$/.exec(lines[0]);
        if (!m) return { out, bad: `status line ${JSON.stringify(lines[0].slice(0, 100))}` };
        const headers = [];
        for (const l of lines.slice(1)) {
            const x = /^([!#$%&'*+.^_`|~0-9A-Za-z-]+):[ \t]*(.*?)[ \t]*$/.exec(l);
            if (!x) return { out, bad: `header line ${JSON.stringify(l)}` };
            headers.push([x[1].toLowerCase(), x[2]]);
        }
        const r = { status: Number(m[1]), headers, head: timeAt(e + 4) };
        i = e + 4;
        if (r.status >= 100 && r.status < 200) continue;
        const get = (k) => headers.filter((h) => h[0] === k).map((h) => h[1]);
        const len = get('content-length');
        const te = get('transfer-encoding');
        if (new Set(len).size > 1) return { out, bad: `content-length ${len}` };
        if (len.length && te.length) return { out, bad: 'both content-length and transfer-encoding' };
        const method = methods[out.length];
        if (method === undefined) return { out, bad: `a response nobody has asked for: ${JSON.stringify(text.slice(i - 100, i + 100))}` };
        if (method === 'HEAD' || NO_BODY.includes(r.status)) r.body = '';
        else if (te.length) {
            if (te.join() !== 'chunked') return { out, bad: `transfer-encoding ${te}` };
            let body = '';
            let whole = false;
            for (;;) {
                const n = text.indexOf('\r\n', i);
                if (n < 0) break;
                const x = /^([0-9a-fA-F]+)(;.*)?$/.exec(text.slice(i, n));
                if (!x) return { out, bad: `chunk ${JSON.stringify(text.slice(i, n).slice(0, 50))}` };
                const size = parseInt(x[1], 16);
                if (text.length < n + 2 + size + 2) break;
                if (text.slice(n + 2 + size, n + 4 + size) !== '\r\n') return { out, bad: 'the end of a chunk' };
                body += text.slice(n + 2, n + 2 + size);
                i = n + 4 + size;
                if (size === 0) {
                    whole = true;
                    break;
                }
            }
            if (!whole) return { out, partial: r };
            r.body = body;
        } else if (len.length) {
            const n = Number(len[0]);
            if (!/^\d+$/.test(len[0])) return { out, bad: `content-length ${len}` };
            if (text.length < i + n) return { out, partial: r };
            r.body = text.slice(i, i + n);
            i += n;
        } else {
            if (!ended) return { out, partial: r };
            r.body = text.slice(i);
            i = text.length;
        }
        r.end = timeAt(i);
        r.close = get('connection').some((x) => /close/i.test(x));
        out.push(r);
    }
    return { out };
}

// ---------------------------------------------------------------- judging
function judge(sc, lowered, result, A) {
    const fails = [];
    const counts = {};
    const faults = {};
    const order = [];
    let checks = 0;
    const bump = (o, k, n = 1) => { o[k] = (o[k] || 0) + n; };
    const fail = (kind, msg) => { if (!fails.some((f) => f.kind === kind)) fails.push({ tags: ['C28'], kind, msg }); };
    const conns = sc.conns.map(() => ({ sent: [], data: [], gone: null, end: null }));
    const calls = []; // { n, t, method, url, headers, body, done, result }
    const byId = new Map();
    const stallTime = (sc.stalls || []).reduce((a, s) => a + s[1], 0);
    if (stallTime) bump(faults, 'stall');
    for (const [us, n, kind, ...x] of result.log) {
        const t = us / 1000;
        const c = n !== null && n !== undefined ? conns[n] : null;
        if (kind === 'sent') c.sent.push(t);
        else if (kind === 'data') {
            const l = c.data[c.data.length - 1];
            if (l && l[0] === t) l[1] += x[0];
            else c.data.push([t, x[0]]);
        } else if (kind === 'end' || kind === 'failed') c.end = t;
        else if (kind === 'gone') c.gone = t;
        else if (kind === 'panic') c.panic = true;
        else if (kind === 'host-panic') fail('panic', `the server panics: ${x[0]}`);
        else if (kind === 'req') {
            const call = { n, t, method: x[1], url: x[2], headers: x[3], body: x[4], done: null };
            byId.set(x[0], call);
            calls.push(call);
        } else if (kind === 'net') {
            const call = byId.get(x[0]);
            if (x[1] !== 'head') {
                call.done = t;
                call.result = x[1];
            }
        } else if (kind === 'serve-failed' || kind === 'no-app') fail('start', `the server does not start: ${JSON.stringify(sc.proxy)}`);
    }
    if (!result.done) fail('stuck', 'the connections are not over in time');
    // nothing reaches what no option names
    for (const call of calls) {
        checks++;
        const inside = sc.proxy.some(([, t]) => {
            const b = norm(t).replace(/\/$/, '');
            return call.url === b || call.url.startsWith(b + '/') || call.url.startsWith(b + '?');
        });
        if (!inside) fail('outside', `${call.method} ${call.url} is sent, which is below no target of ${JSON.stringify(sc.proxy)}`);
        bump(counts, 'backend-calls');
    }
    for (const [n, c] of sc.conns.entries()) {
        const rec = conns[n];
        const s = script(c);
        if (c.garbage) bump(faults, 'garbage');
        if (c.cut !== undefined && !c.garbage) bump(faults, 'request-cut');
        if (c.pipe && c.pipe < 1024) bump(faults, 'tiny-pipe');
        if (c.pace) bump(faults, 'slow-reader');
        if (c.reqs.some((q) => q.split)) bump(faults, 'split-sending');
        if (rec.panic) fail('panic', `connection ${n} is ended by a panic`);
        const over = rec.gone !== null ? rec.gone : Infinity;
        if (rec.gone !== null && c.hold !== undefined) bump(faults, 'client-gone');
        const methods = s.ends.map((_, i) => c.reqs[i].m);
        const tail = c.garbage || c.cut !== undefined ? 1 : 0;
        const got = responses(rec.data, tail ? [...methods, 'GET'] : methods, rec.end !== null);
        checks++;
        if (got.bad && !(c.garbage && got.out.length >= methods.length)) fail('malformed', `connection ${n}: the client gets ${got.bad} after ${got.out.length} responses`);
        if (rec.data.some(([, d]) => d.includes(SECRET))) fail('leak', `connection ${n}: a file outside the destination directory is served`);
        const mine = calls.filter((x) => x.n === n);
        // wherever reading is slow, so are answers
        const slow = (len) => {
            if (!c.pace && !(c.pipe && c.pipe < 1024)) return 0;
            return (Math.ceil((len + 2000) / Math.min(c.pipe || 65536, 65536)) + 3) * (c.pace || 0);
        };
        let at = 0; // when the connection is free
        let k = 0; // calls accounted for
        let open = true;
        let unread = false; // what follows a body nobody wants may be left unread, the connection is closed then
        for (let i = 0; open && i < s.ends.length; i++) {
            const q = c.reqs[i];
            const cls = classify(sc, q);
            if (unread && !got.out[i] && rec.end !== null && !got.partial) break;
            unread = q.m === 'POST' && cls.kind !== 'proxy';
            const where = `connection ${n}, request ${i} (${q.m} ${q.absolute || ''}${q.path}${q.q})`;
            const sent = rec.sent[s.ends[i]];
            if (sent === undefined) break;
            const ready = Math.max(sent, at);
            const r = got.out[i];
            if (r && r.end < sent - 0.001 && cls.kind !== 'page' && q.m !== 'POST') fail('early', `${where}: answered before it has been sent`);
            bump(counts, `requests-${cls.kind}`);
            let due = ready + SLACK + stallTime;
            let want = null;
            let wantLen = 0;
            if (cls.kind === 'proxy') {
                const urls = urlsOf(cls, q);
                const call = mine[k];
                checks++;
                if (!call || !urls.includes(call.url)) {
                    if (r || over > ready + SLACK + stallTime + slow(0)) fail('not-forwarded', `${where} should reach ${urls[0]}, but ${call ? `${call.url} is called` : 'nothing is called'}${r ? ` and the answer is ${r.status} ${JSON.stringify(r.body.slice(0, 100))}` : ''}`);
                    break;
                }
                k++;
                order.push(`${q.m}${call.result}`);
                if (call.result === undefined) bump(faults, 'backend-silent');
                else if (call.result !== 'ok') bump(faults, `backend-${call.result}`);
                if (call.t > ready + SLACK + stallTime + slow(0) && call.t > 0) fail('late-call', `${where}: forwarded ${call.t - ready} ms after it has been received`);
                if (call.method !== q.m && !(q.m === 'HEAD' && call.method === 'GET')) fail('method', `${where} is forwarded as ${call.method}`);
                if (q.m === 'POST') {
                    const body = bytesOf(q.b);
                    checks++;
                    const gotBody = call.body === null ? Buffer.alloc(0) : Buffer.from(call.body.bin);
                    if (!gotBody.equals(body)) fail('body', `${where}: of the body ${JSON.stringify(body.toString('latin1').slice(0, 200))} the backend gets ${JSON.stringify(gotBody.toString('latin1').slice(0, 200))}`);
                    const hs = (name) => call.headers.filter((h) => h[0] === name).map((h) => h[1]);
                    if (hs('content-length').some((x) => x !== String(gotBody.length))) fail('framing', `${where}: forwarded with content-length ${hs('content-length')} and ${gotBody.length} bytes`);
                    if (hs('transfer-encoding').length && hs('content-length').length) fail('framing', `${where}: forwarded with both content-length and transfer-encoding`);
                    const host = new URL(cls.target).host;
                    if (hs('host').some((x) => x !== host)) fail('host', `${where}: forwarded to ${host} as host ${hs('host')}`);
                    const sentHeaders = q.h.map(([a, b]) => [a.toLowerCase(), b]);
                    if (q.b.ct) sentHeaders.push(['content-type', q.b.ct]);
                    for (const name of new Set(sentHeaders.map((h) => h[0]))) {
                        if (HOP.includes(name)) continue;
                        checks++;
                        const w = sentHeaders.filter((h) => h[0] === name).map((h) => h[1]);
                        if (hs(name).join(', ') !== w.join(', ')) fail('request-header', `${where}: the header ${name}: ${w} reaches the backend as ${JSON.stringify(hs(name))}`);
                    }
                } else if (call.body !== null && call.body.bin.length) fail('body', `${where}: the backend gets a body`);
                if (call.done === null) {
                    // silence: nothing may be made up
                    if (r) fail('made-up', `${where}: the backend is silent, the answer is ${r.status}`);
                    break;
                }
                due = Math.max(due, call.done + SLACK + stallTime);
                if (call.result === 'ok') {
                    const a = backendAnswer(q.a);
                    const body = NO_BODY.includes(a.status) ? '' : (a.bin ? Buffer.from(a.bin) : Buffer.from(a.body || '', 'utf8')).toString('latin1');
                    const h = a.h.filter((x) => !HOP.includes(x[0]));
                    if (a.ct) h.push(['content-type', a.ct]);
                    want = { status: a.status, body, h };
                } else want = { status: 500 };
            } else if (cls.kind === 'dots') {
                // may be turned away; where it leads has been checked above
                order.push(`dots${r ? r.status : ''}`);
                if (mine[k] && mine[k].url === norm(cls.target + cls.rest + q.q)) k++;
                if (r) {
                    at = r.end;
                    if (r.close) open = false;
                    continue;
                }
                break;
            } else if (cls.kind === 'file') {
                const f = A.files.get(q.path);
                order.push(`file${r ? r.status : ''}`);
                if (f && (q.m === 'GET' || q.m === 'HEAD')) {
                    const range = q.h.find((h) => h[0] === 'Range');
                    if (!range) want = { status: 200, body: f.toString('latin1'), h: [] };
                    else if (f.length > 10) {
                        const x = /bytes=(\d*)-(\d*)/.exec(range[1]);
                        const from = x[1] === '' ? f.length - Number(x[2]) : Number(x[1]);
                        const to = x[1] !== '' && x[2] !== '' ? Number(x[2]) + 1 : f.length;
                        want = { status: 206, body: f.subarray(from, to).toString('latin1'), h: [] };
                    }
                } else if (f === undefined && /missing/.test(q.path)) want = { status: 404 };
            } else {
                order.push('page');
                want = q.m === 'GET' || q.m === 'HEAD' ? { status: 200, page: true } : null;
            }
            due += slow((want && want.body || '').length);
            if (!r) {
                checks++;
                if (over > due) fail('no-answer', `${where}: no answer until ${over === Infinity ? 'the end' : over + ' ms'}, it was due at ${due} ms${got.partial ? ' (there is a part of it)' : ''}`);
                break;
            }
            checks++;
            if (r.end > due) fail('late', `${where}: answered at ${r.end} ms, it was due at ${due} ms`);
            at = r.end;
            if (want) {
                const show = `${r.status} ${JSON.stringify(r.headers)} ${JSON.stringify(r.body.slice(0, 200))}`;
                if (r.status !== want.status) fail(cls.kind === 'proxy' ? 'status' : cls.kind, `${where}: the answer should be ${want.status}, it is ${show}`);
                if (want.body !== undefined && q.m !== 'HEAD' && r.body !== want.body) fail(cls.kind === 'proxy' ? 'answer-body' : cls.kind, `${where}: the body should be ${JSON.stringify(want.body.slice(0, 200))}, the answer is ${show}`);
                if (want.page && q.m === 'GET' && !r.body.includes('data-vertigo-run-wasm="/build/app.wasm"')) fail('page', `${where}: should be answered with a page, is with ${show}`);
                for (const name of new Set((want.h || []).map((h) => h[0]))) {
                    checks++;
                    const w = want.h.filter((h) => h[0] === name).map((h) => h[1]);
                    const g = r.headers.filter((h) => h[0] === name).map((h) => h[1]);
                    if (JSON.stringify(w) !== JSON.stringify(g)) fail('answer-header', `${where}: the header ${name} should be ${JSON.stringify(w)}, it is ${JSON.stringify(g)}`);
                }
            }
            bump(counts, 'answers');
            if (r.close) open = false;
        }
        // one request, one call
        checks++;
        if (mine.length > k) {
            const rest = mine.slice(k);
            for (const call of rest) {
                const whole = s.ends.some((p, i) => rec.sent[p] !== undefined && rec.sent[p] <= call.t && i >= 0 && (() => {
                    const cls = classify(sc, c.reqs[i]);
                    return cls.kind === 'dots' || (cls.kind === 'proxy' && urlsOf(cls, c.reqs[i]).includes(call.url) && mine.filter((x) => x.url === call.url).length <= c.reqs.filter((q, j) => j < s.ends.length && urlsOf(classify(sc, q), q).includes(call.url)).length);
                })());
                if (!whole) fail('unasked', `connection ${n}: ${call.method} ${call.url} is called, which no whole request asks for (or once too often)`);
            }
        }
        order.push('/');
    }
    return { fails, counts, faults, order, checks };
}

// what may differ between executions: how what is read within one moment is divided (files are read by threads), and
// how long the server says it has taken
function tidy(log) {
    const out = [];
    const rank = (l) => (l[1] === null ? -1 : l[1]);
    const data = new Map();
    for (const l of log.slice().sort((a, b) => a[0] - b[0] || rank(a) - rank(b))) {
        if (l[2] === 'log') continue;
        const k = `${l[0]} ${l[1]}`;
        const p = l[2] === 'data' ? data.get(k) : null;
        if (p) p[3] += l[3];
        else {
            const c = l.slice();
            out.push(c);
            if (l[2] === 'data') data.set(k, c);
        }
    }
    return out.sort((a, b) => a[0] - b[0] || rank(a) - rank(b) || (a[2] === 'data' ? 1 : 0) - (b[2] === 'data' ? 1 : 0));
}

async function run(sc, A, opts) {
    const lowered = lower(sc);
    const out = await A.sim.run(lowered);
    let r;
    if (out.hang || out.exit) r = { fails: [{ tags: ['*'], kind: 'hang', msg: 'the server makes no progress any more ' + (out.exit || '') }], counts: {}, faults: {}, order: [], checks: 0 };
    else r = judge(sc, lowered, out.result, A);
    const log = out.result ? tidy(out.result.log) : [];
    const last = log.length ? log[log.length - 1][0] / 1000 : 0;
    const res = {
        fails: r.fails, counts: r.counts, faults: r.faults, steps: log.length, simMs: Math.round(last), checks: r.checks,
        orderHash: sha(r.order.join('|')).slice(0, 16), traceHash: sha(JSON.stringify(log)), nontrivial: r.order.length > 4 && (r.counts['backend-calls'] || 0) > 0,
    };
    if (opts.keepTrace) res.trace = log.map((l) => JSON.stringify(l).slice(0, 600));
    return res;
}

function* candidates(sc) {
    const edit = (f) => {
        const c = clone(sc);
        f(c);
        return c;
    };
    for (let i = 0; i < sc.conns.length; i++) if (sc.conns.length > 1) yield edit((c) => { c.conns.splice(i, 1); });
    for (const [n, x] of sc.conns.entries()) {
        for (let i = 0; i < x.reqs.length; i++) if (x.reqs.length > 1) yield edit((c) => { c.conns[n].reqs.splice(i, 1); });
        for (const k of ['garbage', 'cut', 'hold', 'pipe', 'pace']) if (x[k] !== undefined) yield edit((c) => { delete c.conns[n][k]; });
        if (x.at) yield edit((c) => { c.conns[n].at = 0; });
        for (const [i, q] of x.reqs.entries()) {
            for (const k of ['split', 'absolute', 'chunks']) if (q[k]) yield edit((c) => { delete c.conns[n].reqs[i][k]; });
            if (q.h.length) yield edit((c) => { c.conns[n].reqs[i].h = []; });
            if (q.q) yield edit((c) => { c.conns[n].reqs[i].q = ''; });
            if (q.d) yield edit((c) => { c.conns[n].reqs[i].d = 0; });
            for (const k of ['d', 'bd']) if (q.a[k]) yield edit((c) => { c.conns[n].reqs[i].a[k] = 0; });
            if (q.a.h && q.a.h.length) yield edit((c) => { c.conns[n].reqs[i].a.h = []; });
            if (q.a.body && q.a.body.length > 3) yield edit((c) => { c.conns[n].reqs[i].a.body = q.a.body.slice(0, q.a.body.length >> 1); });
            if (q.b && q.b.t && q.b.t.length > 3) yield edit((c) => { c.conns[n].reqs[i].b.t = q.b.t.slice(0, q.b.t.length >> 1); });
        }
    }
    for (let i = 0; i < sc.proxy.length; i++) yield edit((c) => { c.proxy.splice(i, 1); });
    if (sc.stalls) yield edit((c) => { delete c.stalls; });
}

module.exports = { load, run, candidates };
