'use strict';
// The commands which make files, run in the simulator with the file system failing under them: what they leave,
// and whether they say so, is judged here.
const crypto = require('crypto');
const fs = require('fs');
const path = require('path');
const { Sim } = require('./ssr');

const clone = (x) => JSON.parse(JSON.stringify(x));
const sha = (s) => crypto.createHash('sha1').update(s).digest('hex');
const BIN = path.resolve(__dirname, '../target/ssr/release/watch-sim');
const TEMPLATE = path.resolve(process.env.VERTIGO_REPO || '/repo', 'crates/vertigo-cli/src/new/template');

// as the simulator names contents
function fnv(buf) {
    let h = 0xcbf29ce484222325n;
    for (const b of buf) h = BigInt.asUintN(64, (h ^ BigInt(b)) * 0x100000001b3n);
    return h.toString(16).padStart(16, '0');
}
function template() {
    const out = new Map();
    const walk = (d, rel) => {
        for (const e of fs.readdirSync(d, { withFileTypes: true })) {
            const p = rel ? rel + '/' + e.name : e.name;
            if (e.isDirectory()) walk(path.join(d, e.name), p);
            else out.set(p, fs.readFileSync(path.join(d, e.name), 'utf8'));
        }
    };
    walk(TEMPLATE, '');
    return out;
}

async function load() {
    if (!fs.existsSync(BIN)) throw new Error('the simulator of the commands has not been built');
    const A = { sim: new Sim(BIN, [], 400), template: template() };
    process.on('exit', () => A.sim.stop());
    return A;
}

const SOFT = ['short', 'eintr'];
function judge(sc, log, tpl) {
    const fails = [];
    const counts = {};
    const faults = {};
    const order = [];
    let checks = 0;
    const bump = (o, k) => { o[k] = (o[k] || 0) + 1; };
    const fail = (kind, msg) => { if (!fails.some((f) => f.kind === kind)) fails.push({ tags: ['C27'], kind, msg }); };
    const at = (dir, rel) => path.posix.normalize((dir ? dir + '/' : '') + rel).replace(/\/$/, '');
    let files = new Map(); // what is there
    let step = null;
    let cur = null;
    const made = new Map(); // target directory -> name -> content
    const names = new Map(); // of hashed files: name -> content
    const byContent = new Map();
    const included = new Map(); // of the builds in which cargo has done its part: name -> content
    let good = null; // the newest build which has been said to be complete
    const made0 = (t) => { if (!made.has(t)) made.set(t, new Map()); return made.get(t); };

    const inDir = (map, dir) => {
        const out = new Map();
        for (const [p, v] of map) if (p.startsWith(dir + '/') && v[0] !== 'dir') out.set(p.slice(dir.length + 1), v);
        return out;
    };
    const judgeBuild = (before, after) => {
        const dest = at(step.cwd, step.dest);
        const here = inDir(after, dest);
        const m = made0(step.target);
        const said = `the build (step ${cur.n}) ends well`;
        checks++;
        let index = null;
        try { index = JSON.parse(here.get('index.json')[1]); } catch (e) { return fail('index', `${said}, but index.json is ${JSON.stringify(here.get('index.json'))}`); }
        const known = new Set(['index.json']);
        const want = (p, content, what) => {
            checks++;
            const prefix = step.public + '/';
            if (typeof p !== 'string' || !p.startsWith(prefix)) return fail('index', `${said}, but index.json says ${what} is at ${p}`);
            const f = p.slice(prefix.length);
            known.add(f);
            const is = here.get(f);
            if (!is) return fail('incomplete', `${said}, but ${what} (${f}) is not there`);
            if (is[0] !== content) return fail('content', `${said}, but ${what} (${f}) is not what has been built`);
            if (names.has(f) && names.get(f) !== content) return fail('name', `${f} has stood for another content before`);
            const k = what + content;
            if (byContent.has(k) && byContent.get(k) !== f) fail('name', `the same content is called ${byContent.get(k)} and ${f}`);
            names.set(f, content);
            byContent.set(k, f);
            return f;
        };
        const run = want(index.run_js, m.get('static/wasm_run.js'), 'the script');
        want(index.wasm, step.opt === 'ok' ? cur.optimized : m.get('app_one.wasm'), 'the program');
        if (step.opt === 'ok' && cur.optimized === undefined) fail('content', `${said}, the program has not been optimized`);
        if (step.map && run) {
            known.add('wasm_run.js.map');
            const is = here.get('wasm_run.js.map');
            checks++;
            if (!is || is[1] !== `{"file":"${run}"}`) fail('incomplete', `${said}, but the source map is ${JSON.stringify(is)}`);
        }
        for (const [name, content] of m) {
            if (!name.startsWith('static/included/')) continue;
            const f = name.slice('static/included/'.length);
            known.add(f);
            checks++;
            if (!here.get(f)) fail('incomplete', `${said}, but ${f}, which the program includes, is not there`);
            else if (here.get(f)[0] !== content) fail('content', `${said}, but ${f} is not what the program includes`);
        }
        for (const f of here.keys()) {
            // (what a failing wasm-opt leaves)
            if (f === 'app_one.wasm' && ['half', 'killed'].includes(step.opt)) continue;
            if (!known.has(f)) fail('leftover', `${said}, but ${f} of before is still there`);
        }
        good = { n: cur.n, dest, public: step.public, source: step.source, index, here, lastBuild: cur.n };
    };
    const judgeNew = (before, after, result) => {
        const dir = at(step.dest, step.name);
        const was = new Map([...before].filter(([p]) => p === dir || p.startsWith(dir + '/')));
        const here = inDir(after, dir);
        // what was there is there
        for (const [p, v] of before) {
            checks++;
            const now = after.get(p);
            if (!now || now[0] !== v[0]) fail('overwritten', `"new" (step ${cur.n}) has ${now ? 'changed' : 'removed'} ${p}`);
        }
        const empty = ![...was.keys()].some((p) => p !== dir) && (!was.has(dir) || was.get(dir)[0] === 'dir');
        checks++;
        if (result === 'ok') {
            if (!empty) fail('not-empty', `"new" (step ${cur.n}) ends well, though ${dir} was not empty: ${[...was.keys()]}`);
            for (const [f, text] of tpl) {
                const name = f === 'Cargo.toml_' ? 'Cargo.toml' : f;
                const content = f === 'Cargo.toml_' ? text.replaceAll('my_app', step.name) : text;
                checks++;
                if (!here.has(name)) fail('incomplete', `"new" (step ${cur.n}) ends well, but ${name} is not there`);
                else if (here.get(name)[0] !== fnv(Buffer.from(content))) fail('content', `"new" (step ${cur.n}) ends well, but ${name} is ${JSON.stringify(here.get(name)[1])}`);
            }
            for (const f of here.keys()) if (!tpl.has(f) && f !== 'Cargo.toml' || f === 'Cargo.toml_') fail('leftover', `"new" (step ${cur.n}) ends well and leaves ${f}`);
        } else if (empty && !cur.hard && !cur.locked) fail('refused', `"new" (step ${cur.n}) fails (${result}), though nothing stands against it`);
    };
    let locked = false;
    for (const [kind, ...x] of log) {
        if (kind === 'step') {
            step = sc.steps[x[0]];
            cur = { n: x[0], hard: false, page: null, got: new Map(), locked };
            order.push(`${x[1]}`);
            if (step.cmd === 'mode') locked = true;
        } else if (kind === 'op') bump(counts, 'calls');
        else if (kind === 'fault') {
            bump(faults, `${x[1]}-${x[2]}`);
            order.push(`${x[1]}-${x[2]}@${x[0]}`);
            if (!SOFT.includes(x[1])) cur.hard = true;
        } else if (kind === 'made') {
            if (x[0] === 'optimized') cur.optimized = x[1];
            else made0(step.target).set(x[0], x[1]);
        } else if (kind === 'page') cur.page = x;
        else if (kind === 'got') cur.got.set(x[0], [x[1], x[2]]);
        else if (kind === 'panic') bump(counts, 'panics');
        else if (kind === 'harness') return { fails: [{ tags: ['harness'], kind: 'harness', msg: JSON.stringify(x) }], counts, faults, order, checks };
        else if (kind === 'exit') {
            cur.result = x[1];
            order.push(x[1]);
            bump(counts, `${step.cmd}-${x[1].split(' ')[0]}`);
        } else if (kind === 'files') {
            const before = files;
            files = new Map(x[1].map(([p, h, text]) => [p, [h, text]]));
            const result = cur.result;
            if (result && result.startsWith('ended')) fail('ended', `"${step.cmd}" (step ${cur.n}) is ended: ${result}`);
            if (step.cmd === 'build') {
                const cargo = step.cargo === 'ok';
                if (!cargo) bump(faults, `cargo-${step.cargo}`);
                else included.set(cur.n, [...made0(step.target)].filter(([f]) => f.startsWith('static/included/')).map(([f, c]) => [f.slice(16), c]));
                if (['fail', 'half', 'killed'].includes(step.opt)) bump(faults, `wasm-opt-${step.opt}`);
                checks++;
                if (result === 'ok') {
                    if (!cargo) fail('success', `the build (step ${cur.n}) ends well, but cargo has failed`);
                    else judgeBuild(before, files);
                } else {
                    if (!cur.hard && cargo) fail('refused', `the build (step ${cur.n}) fails (${result}), though nothing stands against it`);
                    good = null;
                }
            } else if (step.cmd === 'new') judgeNew(before, files, result);
            else if (step.cmd === 'serve') {
                if (cur.page && cur.page[0] === 200) {
                    // whatever has happened before
                    const said = /build:(\d+) source:\d+\./.exec(cur.page[1]);
                    const refs = [...cur.page[1].matchAll(/(?:data-vertigo-run-wasm|src)="([^"]*)"/g)].map((m) => m[1].split('/').pop());
                    checks++;
                    if (!said) fail('torn', `what is served (step ${cur.n}) is not what a build has made: ${cur.page[1]}`);
                    for (const f of refs) if (!cur.got.has(f) || cur.got.get(f)[0] !== 200) fail('torn', `the page served (step ${cur.n}) refers to ${f}, which is not there`);
                    for (const [f, content] of (said && included.get(Number(said[1]) - 1)) || []) {
                        const g = cur.got.get(f);
                        if (!g || g[0] !== 200 || g[1] !== content) fail('torn', `the page served (step ${cur.n}) is one of build ${said[1] - 1}, whose ${f} is ${JSON.stringify(g)}`);
                    }
                }
                if (!good || (cur.hard && result !== 'ok')) continue;
                checks++;
                const page = cur.page;
                const text = `build:${good.n + 1} source:${good.source}.`;
                if (!page || page[0] !== 200 || !page[1].includes(text)) fail('not-served', `what the build (step ${good.n}) has left is served as ${result} ${JSON.stringify(page)}`);
                else {
                    for (const p of [good.index.run_js, good.index.wasm]) if (!page[1].includes(p)) fail('not-served', `the page does not refer to ${p}: ${page[1]}`);
                    for (const [f, v] of good.here) {
                        if (f.includes('/')) continue;
                        checks++;
                        const g = cur.got.get(f);
                        if (!g || g[0] !== 200 || g[1] !== v[0]) fail('not-served', `${good.public}/${f} is served as ${JSON.stringify(g)}`);
                    }
                }
            }
        }
    }
    return { fails, counts, faults, order, checks };
}

async function run(sc, A, opts) {
    const out = await A.sim.run(sc);
    let r;
    if (out.hang || out.exit) r = { fails: [{ tags: ['*'], kind: 'hang', msg: 'the command does not end ' + (out.exit || '') }], counts: {}, faults: {}, order: [], checks: 0 };
    else r = judge(sc, out.result.log, A.template);
    const log = out.result ? out.result.log : [];
    const res = {
        fails: r.fails, counts: r.counts, faults: r.faults, steps: log.length, simMs: 0, checks: r.checks,
        orderHash: sha(r.order.join('|')).slice(0, 16), traceHash: sha(JSON.stringify(log)), nontrivial: r.order.length > 3,
    };
    if (opts.keepTrace) res.trace = log.map((l) => JSON.stringify(l).slice(0, 600));
    return res;
}

function* candidates(sc) {
    const edit = (f) => {
        const c = clone(sc);
        f(c);
        return c;
    };
    for (let size = sc.steps.length; size >= 1; size = Math.floor(size / 2)) {
        for (let i = 0; i + size <= sc.steps.length; i += size) if (sc.steps.length > size) yield edit((c) => { c.steps.splice(i, size); });
    }
    const plain = { cwd: '', dest: './build', target: '', public: '/build', named: false, map: false, opt: 'off', order: 1, cargo: 'ok', source: 0 };
    for (const k of Object.keys(plain)) {
        if (sc.steps.some((s) => s[k] !== undefined && s[k] !== plain[k]) && !sc.steps.some((s) => s.cmd === 'new' && k === 'dest')) yield edit((c) => { for (const s of c.steps) if (s[k] !== undefined) s[k] = plain[k]; });
    }
    for (const [i, s] of sc.steps.entries()) {
        for (const k of ['faults', 'included']) {
            for (let j = 0; j < (s[k] || []).length; j++) yield edit((c) => { c.steps[i][k].splice(j, 1); });
        }
        for (const k of Object.keys(plain)) if (s[k] !== undefined && s[k] !== plain[k] && s.cmd !== 'new') yield edit((c) => { c.steps[i][k] = plain[k]; });
    }
}

module.exports = { load, run, candidates };
