'use strict';
// Scenarios for the front of the server: connections which speak HTTP/1, backends behind proxied paths, files, pages.
const { Rng } = require('./rng');

const TARGETS = ['http://back.test', 'http://back.test/v1', 'http://back.test:8080/a/b', 'http://other.test', 'http://other.test/v1'];
const PREFIXES = ['/api', '/api/v2', '/x', '/auth/token', '/ap'];
const FILES = ['included/hello.txt', 'included/empty.css', 'included/sub/long.js', 'included/a%20b.json', 'index.json'];

function generate(seed, prop) {
    const r = new Rng(`http:${prop}:${seed}`);
    const proxy = [];
    for (const p of r.shuffle(PREFIXES).slice(0, r.wpick([[1, 0], [4, 1], [4, 2], [2, 3]]))) proxy.push([p, r.pick(TARGETS)]);
    const calm = r.bool(0.3);
    const withFiles = r.bool(0.5);
    let k = 0;
    const filler = (n) => {
        let s = '';
        while (s.length < n) s += r.pick(['lorem ', '0123456789', '\n', 'ż', '{"a":[1,2]}', '\r\n']);
        return s;
    };
    const body = () => r.wpick([
        [4, () => ({ t: r.pick(['{}', '[]', 'null', '1', '"x"', '{"b":1,"a":2}', '{ "a" : 1 }', '{\n  "n": 12345678901234567890,\n  "m": 0.1e1 }', '{"a":1,"a":2}', '"\\u00e9\\ud83d\\ude00"', '[1.0, 1e3, -0]', ' 7 ', '{"s":"ż\\/"}']), ct: 'application/json' })],
        [1, () => ({ t: r.pick(['{', 'a=1', '', '{"a":}']), ct: 'application/json' })],
        [2, () => ({ t: r.pick(['a=1&b=%20x', 'q=']), ct: 'application/x-www-form-urlencoded' })],
        [1, () => ({ t: filler(r.range(1, 300)), ct: r.pick(['text/plain; charset=utf-8', 'application/x-custom']) })],
        [1.5, () => ({ bin: Array.from({ length: r.range(0, 40) }, () => r.int(256)), ct: 'application/octet-stream' })],
        [0.5, () => ({ t: filler(r.range(1000, 60000)), ct: 'text/plain' })],
        [0.5, () => ({ t: JSON.stringify({ list: Array.from({ length: r.range(100, 4000) }, (_, i) => i) }), ct: 'application/json' })],
        [0.7, () => ({ t: filler(r.range(1, 20)) })],
        [0.7, () => ({ t: '' })],
    ])();
    const answer = () => {
        const o = { k: 'ok', d: r.wpick([[3, 0], [4, r.range(1, 200)], [2, r.range(200, 4000)], [1, r.range(4000, 15000)]]) };
        const what = calm ? 'ok' : r.wpick([[9, 'ok'], [1.2, 'fail'], [1, 'bodyfail'], [0.7, 'hang'], [0.5, 'bodyhang']]);
        o.k = what;
        if (what === 'fail') return o;
        o.status = r.wpick([[8, 200], [1, 201], [0.7, 204], [0.5, 304], [1, 400], [0.5, 401], [1, 404], [0.3, 418], [1, 500], [0.5, 503]]);
        if (r.bool(0.85)) o.ct = r.pick(['application/json', 'text/html', 'text/plain; charset=utf-8', 'image/png']);
        o.h = [];
        if (r.bool(0.3)) for (let i = r.range(1, 3); i > 0; i--) o.h.push(['set-cookie', `c${i}=${r.int(9)}; Path=/`]);
        if (r.bool(0.3)) o.h.push(['x-custom', r.pick(['', 'a', 'a, b', '"q"'])]);
        if (r.bool(0.3)) o.h.push(['cache-control', r.pick(['no-store', 'private, max-age=5'])]);
        if (r.bool(0.15)) o.h.push(['etag', '"abc"']);
        if (r.bool(0.1)) o.h.push(['content-encoding', 'gzip']);
        if (r.bool(0.15)) o.h.push(['date', 'Tue, 15 Nov 1994 08:12:31 GMT']);
        if (o.status !== 204 && o.status !== 304) {
            if (r.bool(0.2)) o.bin = Array.from({ length: r.range(0, 60) }, () => r.int(256));
            else o.body = r.wpick([[2, '{"ok":true}'], [1, ''], [2, filler(r.range(1, 400))], [0.7, filler(r.range(5000, 150000))], [1, '<html><body>x</body></html>']]);
        }
        if (r.bool(0.4)) o.bd = r.wpick([[3, r.range(1, 100)], [1, r.range(100, 5000)]]);
        // how a backend frames its body
        o.framing = r.wpick([[3, 'length'], [2, 'chunked'], [1, 'none']]);
        if (r.bool(0.15)) o.h.push(['connection', r.pick(['keep-alive', 'close'])]);
        if (r.bool(0.1)) o.h.push(['keep-alive', 'timeout=5']);
        return o;
    };
    const rest = () => {
        const n = k;
        const odd = r.wpick([[5, ''], [1, '/deep/er'], [0.6, '/'], [0.6, '/a%20b'], [0.5, '/%2Fx'], [0.5, '/%C5%BC+;:@=,\'()!$&*~'], [0.5, '//x'], [0.3, '/a.b/..c/...'], [0.3, '/http://other.test/v1/x']]);
        return `/r${n}${odd}`;
    };
    const query = () => r.wpick([[5, ''], [2, '?a=1&b=2'], [1, '?q=%20%C5%BC+x'], [0.5, '?'], [0.7, '?u=http://other.test/v1/?x=/../y'], [0.5, '?a=%2e%2e/']]);
    const escape = (p) => p + r.pick(['/../', '/%2e%2e/', '/..\\', '/\\..\\', '/.%2E/', '/x/../../', '/x/%2e%2E/%2e%2e/', '/./../', '/../../', '/x/../', '/%2e/']) + r.pick([`r${k}`, `v1secret/r${k}`, `v1secret${k}`, `r${k}/..`, `secret/r${k}`]);
    const request = () => {
        k++;
        const q = { k };
        const kind = r.wpick([[proxy.length ? 10 : 0, 'proxy'], [withFiles ? 2 : 0, 'file'], [1.5, 'page'], [proxy.length ? 1 : 0, 'like'], [proxy.length ? 1.2 : 0, 'escape'], [withFiles ? 0.8 : 0, 'outside']]);
        q.m = kind === 'proxy' ? r.wpick([[5, 'GET'], [5, 'POST'], [0.7, 'HEAD']]) : r.wpick([[6, 'GET'], [1, 'POST'], [0.7, 'HEAD']]);
        if (kind === 'proxy') {
            const p = r.pick(proxy)[0];
            q.path = p + (r.bool(0.04) ? '' : r.bool(0.04) ? '/' : rest());
        } else if (kind === 'file') {
            q.path = '/build/' + r.wpick([[5, r.pick(FILES)], [1, 'missing.js']]);
            q.m = r.bool(0.85) ? 'GET' : 'HEAD';
        } else if (kind === 'page') {
            q.path = r.pick(['/', `/page/${k}`, '/builds', `/p${k}`, '/%61pi/x', '/API/x']);
            q.m = r.bool(0.9) ? 'GET' : 'HEAD';
        } else if (kind === 'like') {
            q.path = r.pick(proxy)[0] + r.pick([`x/r${k}`, `.r${k}`, `%2Fr${k}`, '%20', `-${k}`]);
            q.m = 'GET';
        } else if (kind === 'escape') q.path = escape(r.pick(proxy)[0]);
        else q.path = '/build/' + r.pick(['../ssr-private.txt', '%2e%2e/ssr-private.txt', '..%2fssr-private.txt', '..%5cssr-private.txt', 'included/../../ssr-private.txt', './../ssr-private.txt', '/../ssr-private.txt', '%2e%2e%2fssr-private.txt', '..', 'included/..%00/ssr-private.txt']);
        q.q = kind === 'outside' ? '' : kind === 'proxy' && !q.path.includes(`/r${k}`) ? `?r=${k}` : query();
        q.h = [];
        if (r.bool(0.3)) q.h.push(['Accept', '*/*']);
        if (r.bool(0.25)) q.h.push(['Authorization', 'Bearer ' + r.int(99)]);
        if (r.bool(0.2)) q.h.push(['Cookie', 'a=1; b="2"']);
        if (r.bool(0.2)) q.h.push(['X-Two', 'one'], ['x-two', 'two']);
        if (r.bool(0.05)) q.h.push(['Connection', 'keep-alive']);
        if (q.m === 'POST') {
            q.b = body();
            if (r.bool(0.3)) q.chunks = Array.from({ length: r.range(1, 4) }, () => r.range(1, 500));
        }
        if (kind === 'file' && q.m === 'GET' && !/empty/.test(q.path) && r.bool(0.15)) q.h.push(['Range', r.pick(['bytes=0-3', 'bytes=2-', 'bytes=-4'])]);
        if (r.bool(0.06)) q.absolute = r.pick(['http://front.test', 'http://127.0.0.1:4444', 'http://back.test']);
        q.a = answer();
        // how it is sent
        q.d = r.wpick([[3, 0], [3, r.range(1, 50)], [3, r.range(50, 3000)], [1, r.range(3000, 12000)]]);
        if (r.bool(0.3)) q.split = Array.from({ length: r.range(1, 5) }, () => [r.int(1000), r.wpick([[2, 0], [2, r.range(1, 20)], [1, r.range(20, 2000)]])]);
        return q;
    };
    const conns = [];
    for (let i = r.wpick([[2, 1], [3, 2], [3, 3], [1, 6]]); i > 0; i--) {
        const c = { at: r.wpick([[4, 0], [3, r.range(1, 50)], [2, r.range(50, 4000)]]), reqs: [] };
        for (let j = r.wpick([[4, 1], [3, 2], [2, 4], [1, 8]]); j > 0; j--) c.reqs.push(request());
        if (!calm && r.bool(0.12)) c.garbage = r.pick(['GET\r\n\r\n', 'GET / HTTP/9.9\r\n\r\n', '\u0000\u0001\u0002', 'POST /api/g HTTP/1.1\r\nhost: x\r\ncontent-length: 5\r\ncontent-length: 6\r\n\r\n12345', 'POST /api/g HTTP/1.1\r\nhost: x\r\ntransfer-encoding: chunked\r\n\r\nzz\r\n', 'GET /api/g\r\n', 'POST /api/g HTTP/1.1\r\nhost: x\r\ncontent-length: -1\r\n\r\n', 'a: b\r\n\r\n', 'GET /\u00ff HTTP/1.1\r\n\r\n']);
        if (!calm && r.bool(0.15)) c.cut = r.range(0, 1000);
        if (!calm && r.bool(0.15)) c.hold = r.wpick([[1, r.range(0, 100)], [2, r.range(100, 9000)]]);
        if (r.bool(0.15)) c.pipe = r.pick([1, 7, 64, 1024]);
        // (files are read by threads of their own: not timed that closely)
        if (r.bool(0.15) && !c.reqs.some((q) => q.path.startsWith('/build'))) c.pace = r.pick([1, 20, 300]);
        conns.push(c);
    }
    const sc = { http: true, seed, proxy, conns, hash: 1 + r.int(1000000), wall: 1700000000000 + r.int(1000000000) };
    if (!withFiles && !calm && r.bool(0.2)) sc.stalls = [[r.range(0, 4000), r.pick([5, 700, 12000])]];
    return sc;
}

module.exports = { generate, FILES };
