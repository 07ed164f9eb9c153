'use strict';
// check ID [--tier quick|thorough] [--budget S] [--seed N] [--jobs N]   search simulated runs for a violation
// replay FILE                                                         execute a recorded scenario again
// determinism ID N                                                    every seed twice; the traces must be equal
const fs = require('fs');
const os = require('os');
const path = require('path');
const { fork } = require('child_process');
const { engineFor } = require('./engines');
const { minimize } = require('./min');
const { loadKnown } = require('./known');

const root = path.resolve(__dirname, '..');
const HANG_MS = 30000;

function arg(name, dflt) {
    const i = process.argv.indexOf('--' + name);
    return i < 0 ? dflt : process.argv[i + 1];
}

// A worker which is a process of its own: threads of one process wait for each other when they collect garbage,
// and one which does not end can not be ended.
class Process {
    constructor(workerData, heapMb) {
        this.p = fork(path.join(__dirname, 'worker.js'), [JSON.stringify(workerData)], { execArgv: [`--max-old-space-size=${heapMb}`], serialization: 'advanced', stdio: ['ignore', 'inherit', 'pipe', 'ipc'] });
        this.handlers = { message: [], error: [] };
        this.last = '';
        this.p.stderr.on('data', (d) => { this.last = (this.last + d).slice(-2000); });
        this.p.on('message', (m) => { for (const f of this.handlers.message.slice()) f(m); });
        this.gone = new Promise((res) => this.p.on('exit', (code, signal) => {
            res();
            if (!this.ended) for (const f of this.handlers.error.slice()) f(new Error(`the worker has ended (${signal || code}) ${this.last.slice(-300)}`));
        }));
        this.p.on('error', () => {});
    }
    on(k, f) { this.handlers[k].push(f); }
    once(k, f) {
        const g = (x) => {
            this.handlers[k] = this.handlers[k].filter((y) => y !== g);
            f(x);
        };
        this.on(k, g);
    }
    removeAllListeners(k) { this.handlers[k] = []; }
    postMessage(m) { if (this.p.connected) this.p.send(m, () => {}); }
    async terminate() {
        this.ended = true;
        this.p.kill('SIGTERM');
        const timer = setTimeout(() => this.p.kill('SIGKILL'), 1000);
        await this.gone;
        clearTimeout(timer);
    }
}
function newWorker(workerData, heapMb) {
    return new Process(workerData, heapMb);
}

class Pool {
    constructor(prop, n, handlers) {
        this.prop = prop;
        this.h = handlers;
        this.workers = [];
        for (let i = 0; i < n; i++) this.spawn(i);
    }
    spawn(i) {
        const w = newWorker({ prop: this.prop, n: i }, 1500);
        const slot = { w, i, seed: null, since: Date.now(), ready: false };
        this.workers[i] = slot;
        w.on('message', (m) => {
            if (this.workers[i] !== slot) return;
            slot.since = Date.now();
            if (m.type === 'begin') slot.seed = m.seed;
            else if (m.type === 'ready') {
                slot.ready = true;
                this.h.idle(slot);
            } else if (m.type === 'idle') {
                slot.seed = null;
                this.h.idle(slot);
            } else if (m.type === 'run') this.h.run(m);
            else if (m.type === 'error') this.h.error(slot, m.msg);
        });
        w.on('error', (err) => {
            if (this.workers[i] === slot) this.h.crash(slot, err);
        });
    }
    async replace(slot) {
        this.workers[slot.i] = null;
        await slot.w.terminate();
        this.spawn(slot.i);
    }
    async close() {
        const all = this.workers.filter(Boolean);
        this.workers = [];
        await Promise.all(all.map((s) => s.w.terminate()));
    }
}

// a worker of its own for single runs, replaced when it hangs
class Solo {
    constructor(prop) {
        this.prop = prop;
        this.n = 0;
    }
    async start() {
        this.w = newWorker({ prop: this.prop, n: 99 }, 1500);
        await new Promise((res, rej) => {
            this.w.once('message', (m) => (m.type === 'ready' ? res() : rej(new Error(m.msg))));
            this.w.once('error', rej);
        });
    }
    // a result, or { hang: true }
    async run(sc, opts = {}) {
        if (!this.w) await this.start();
        const id = ++this.n;
        const w = this.w;
        const out = await new Promise((res) => {
            const timer = setTimeout(() => res({ hang: true }), opts.hangMs || HANG_MS);
            const done = (v) => {
                clearTimeout(timer);
                w.removeAllListeners('message');
                w.removeAllListeners('error');
                res(v);
            };
            w.on('message', (m) => {
                if (m.type === 'done' && m.id === id) done({ r: m.r });
                else if (m.type === 'error') done({ error: m.msg });
            });
            w.on('error', (err) => done({ crash: String(err) }));
            w.postMessage({ type: 'one', id, sc, keepTrace: opts.keepTrace, opts: opts.opts });
        });
        if (out.hang || out.crash) {
            await w.terminate();
            this.w = null;
        }
        return out;
    }
    async close() {
        if (this.w) await this.w.terminate();
        this.w = null;
    }
}

const concerns = (prop, fail) => fail.tags.includes(prop) || fail.tags.includes('*');

async function check(prop) {
    const tier = arg('tier', process.env.VERIF_TIER || 'quick');
    const seed = Number(arg('seed', process.env.VERIF_SEED || '1'));
    const jobs = Number(arg('jobs', String(Math.max(2, Math.min(8, os.cpus().length)))));
    const t0 = Date.now();
    const engine = engineFor(prop);
    const budget = Number(arg('budget', tier === 'thorough' ? 600 : engine.quick || 36)) * 1000;
    const known = loadKnown();
    console.log(`property ${prop}: ${tier} search by deterministic simulation (${engine.name}), base seed ${seed}, ${jobs} workers`);

    const base = seed * 10000000;
    let next = base;
    const stat = { runs: 0, steps: 0, simMs: 0, checks: 0, faults: {}, counts: {}, orders: new Set(), nontrivial: new Set(), other: {}, knownSeen: {} };
    const samples = [];
    let found = null;
    let harness = null;
    const suspects = [];
    let open = 0;
    let finish;
    const finished = new Promise((r) => { finish = r; });
    const over = () => found || harness || Date.now() - t0 >= budget;

    const pool = new Pool(prop, jobs, {
        idle(slot) {
            if (over()) {
                slot.seed = null;
                slot.stopped = true;
                if (pool.workers.every((s) => !s || s.stopped)) finish();
                return;
            }
            const from = next;
            next += engine.batch || 8;
            slot.w.postMessage({ type: 'seeds', from, to: next });
        },
        run(m) {
            const r = m.r;
            stat.runs++;
            stat.steps += r.steps;
            stat.simMs += r.simMs;
            stat.checks += r.checks || 0;
            for (const k of Object.keys(r.faults)) stat.faults[k] = (stat.faults[k] || 0) + r.faults[k];
            for (const k of Object.keys(r.counts)) stat.counts[k] = (stat.counts[k] || 0) + r.counts[k];
            for (const k of Object.keys(r.knownSeen || {})) if (!stat.knownSeen[k]) stat.knownSeen[k] = `seed ${m.seed}: ${r.knownSeen[k]}`;
            stat.orders.add(r.orderHash);
            if (r.nontrivial) stat.nontrivial.add(r.orderHash);
            if (samples.length < 3 && r.nontrivial) samples.push({ seed: m.seed, steps: r.steps, sim_ms: r.simMs, order: r.orderHash, trace: r.traceHash, faults: r.faults });
            for (const f of r.fails) {
                if (f.tags.includes('harness')) {
                    harness = harness || f.msg;
                    return;
                }
                if (concerns(prop, f)) {
                    if (!found) found = { seed: m.seed, sc: m.sc, fail: f, traceHash: r.traceHash };
                } else {
                    const k = `${f.tags.join('+')}:${f.kind}`;
                    stat.other[k] = stat.other[k] || { n: 0, first: m.seed, msg: f.msg.slice(0, 300) };
                    stat.other[k].n++;
                }
            }
        },
        error(slot, msg) {
            harness = harness || msg;
            finish();
        },
        crash(slot, err) {
            suspects.push({ seed: slot.seed, why: String(err) });
            if (suspects.length > 3) found = found || { suspect: true };
            pool.replace(slot);
        },
    });
    const watchdog = setInterval(() => {
        for (const s of pool.workers) {
            if (!s || s.stopped) continue;
            const age = Date.now() - s.since;
            if (s.seed !== null && age > (over() ? Math.min(HANG_MS, 8000) : HANG_MS)) {
                suspects.push({ seed: s.seed, why: 'no progress' });
                pool.replace(s);
            } else if (s.ready && s.seed === null && over()) {
                s.stopped = true;
            }
        }
        if (over() && pool.workers.every((s) => !s || s.stopped || (s.seed === null && s.ready))) finish();
        if (Date.now() - t0 > budget + 120000) finish();
    }, 250);
    await finished;
    clearInterval(watchdog);
    for (const s of suspects) console.log(`note: seed ${s.seed}: ${s.why}`);
    await pool.close();
    if (found && found.suspect) found = null;

    const solo = new Solo(prop);
    if (!found && !harness) {
        // a run that hung or crashed its worker is executed again, alone
        for (const s of suspects.slice(0, 3)) {
            if (s.seed === null) continue;
            const sc = engine.generate(s.seed, prop);
            const out = await solo.run(sc, { hangMs: 60000 });
            if (out.hang || out.crash) {
                found = { seed: s.seed, sc, fail: { tags: ['*'], kind: 'hang', msg: out.hang ? 'the run makes no progress any more (endless loop)' : 'the run exhausts the memory: ' + out.crash }, traceHash: null };
                break;
            }
        }
    }
    if (harness && !found) {
        console.error('harness error: ' + harness);
        process.exitCode = 2;
        await solo.close();
        return;
    }

    let violation = null;
    if (found) {
        let best = found.sc;
        let tries = 0;
        if (found.fail.kind !== 'hang') {
            const still = async (c) => {
                const out = await solo.run(c, { hangMs: 15000 });
                return !!(out.r && out.r.fails.some((f) => f.kind === found.fail.kind && concerns(prop, f)));
            };
            // the failing run again, in a process of its own
            const again = await solo.run(found.sc);
            found.same = !!(again.r && again.r.traceHash === found.traceHash);
            const m = await minimize(found.sc, still, engine.shrink, Number(arg('minbudget', tier === 'thorough' ? '60' : '25')) * 1000);
            best = m.sc;
            tries = m.tries;
        }
        const fin = await solo.run(best, { keepTrace: true });
        const dir = path.join(root, 'build', 'replays');
        fs.mkdirSync(dir, { recursive: true });
        const file = path.join(dir, `${prop}-${found.seed}.json`);
        const fail = (fin.r && fin.r.fails.find((f) => concerns(prop, f))) || found.fail;
        fs.writeFileSync(file, JSON.stringify({
            property: prop, engine: engine.name, seed: found.seed, kind: fail.kind, msg: fail.msg, traceHash: fin.r ? fin.r.traceHash : null,
            reproducible: found.same, shrinking_runs: tries, original: found.sc, scenario: best, trace: fin.r ? fin.r.trace : [],
        }, null, 1));
        violation = { file, fail, seed: found.seed };
        console.log(`seed ${found.seed}: ${fail.kind}: ${fail.msg}`);
        console.log(`minimised from ${JSON.stringify(found.sc).length} to ${JSON.stringify(best).length} bytes in ${tries} runs; replay with: node sim/main.js replay ${file}`);
        console.log(`VIOLATION property=${prop} replay=${file}`);
        process.exitCode = 1;
    }
    await solo.close();

    for (const k of known.filter((x) => x.property === prop)) {
        console.log(`KNOWN-FINDING: property=${prop} ${k.what} [${k.id}; met ${stat.counts[`known:${prop}:${k.id}`] || 0} times in this run${stat.knownSeen[`${prop}:${k.id}`] ? ', first ' + stat.knownSeen[`${prop}:${k.id}`].slice(0, 160) : ''}]`);
    }
    for (const k of Object.keys(stat.other)) console.log(`note: ${stat.other[k].n} runs stopped at a violation of other properties (${k}), first seed ${stat.other[k].first}: ${stat.other[k].msg}`);

    const wall = (Date.now() - t0) / 1000;
    const probes = {};
    for (const k of Object.keys(stat.counts).sort()) if (!k.startsWith('console:')) probes[k] = stat.counts[k];
    const evidence = {
        property: prop, tier, seed, level: 'exploration',
        coverage: {
            evaluations: stat.runs,
            distinct_nontrivial: stat.nontrivial.size,
            rule: engine.rule || 'one evaluation is one simulated run of a generated scenario (program, user, network, sockets, clocks, faults) judged event by event by the reference model; distinct runs are counted by the sequence of executed scheduler events (kind and identity); non-trivial means that the run passed through more than three callbacks into the program and more than two full comparisons with the model',
            samples: samples.length ? samples : [{ note: 'no run was finished' }],
            distinct_interleavings: stat.orders.size,
            runs_per_hour: Math.round(stat.runs / Math.max(wall, 0.001) * 3600),
            seeds_per_hour: Math.round(stat.runs / Math.max(wall, 0.001) * 3600),
            seed_range: [base, next - 1],
            simulated_seconds: Math.round(stat.simMs / 1000),
            scheduler_events: stat.steps,
            model_comparisons: stat.checks,
            faults_injected: stat.faults,
            probes,
            components: engine.components,
            other_findings: stat.other,
        },
        assumptions: engine.assumptions || ['the simulated browser behaves as the specifications of DOM events, timers, fetch, WebSocket and history demand for the parts the runtime uses', 'WebAssembly execution by V8 is deterministic'],
        wall_s: wall,
        violations: violation ? 1 : 0,
    };
    fs.mkdirSync(path.join(root, 'evidence'), { recursive: true });
    fs.writeFileSync(path.join(root, 'evidence', `${prop}.json`), JSON.stringify(evidence, null, 1) + '\n');
    console.log(`${prop}: ${stat.runs} runs, ${stat.nontrivial.size} distinct non-trivial, ${Math.round(stat.simMs / 1000)} s simulated, ${stat.checks} comparisons, ${Object.keys(stat.faults).length} fault kinds, ${wall.toFixed(1)} s`);
    if (!violation && stat.runs === 0) {
        console.error('no run was finished');
        process.exitCode = 2;
    }
}

async function replay(file) {
    const rec = JSON.parse(fs.readFileSync(file, 'utf8'));
    const solo = new Solo(rec.property);
    const out = await solo.run(rec.scenario, { keepTrace: true, hangMs: 60000 });
    await solo.close();
    if (out.error) {
        console.error(out.error);
        process.exitCode = 2;
        return;
    }
    if (arg('trace', null) !== null || process.argv.includes('--trace')) console.log((out.r && out.r.trace || []).join('\n'));
    const f = out.r ? out.r.fails.find((x) => concerns(rec.property, x)) : { kind: 'hang', msg: 'the run makes no progress any more' };
    if (!f) {
        console.log('the recorded scenario passes');
        return;
    }
    console.log(`${f.kind}: ${f.msg}`);
    if (out.r) console.log(out.r.traceHash === rec.traceHash ? 'the same execution, event by event' : 'a different execution (the code has changed)');
    console.log(`VIOLATION property=${rec.property} replay=${file}`);
    process.exitCode = 1;
}

async function determinism(prop, n) {
    const engine = engineFor(prop);
    const a = new Solo(prop);
    const b = new Solo(prop);
    let bad = 0;
    for (let i = 0; i < n; i++) {
        const sc = engine.generate(77000 + i, prop);
        const [x, y] = await Promise.all([a.run(sc), b.run(sc)]);
        if (!x.r || !y.r || x.r.traceHash !== y.r.traceHash) {
            bad++;
            console.log(`seed ${77000 + i}: the two executions differ`);
        }
    }
    await a.close();
    await b.close();
    console.log(`${prop}: ${n} seeds twice, ${bad} differ`);
    if (bad) process.exitCode = 1;
}

(async () => {
    const [, , cmd, x, y] = process.argv;
    if (cmd === 'check') await check(x);
    else if (cmd === 'replay') await replay(x);
    else if (cmd === 'determinism') await determinism(x, Number(y || 50));
    else {
        console.error('usage: main.js check ID | replay FILE | determinism ID N');
        process.exitCode = 2;
    }
    process.exit();
})().catch((err) => {
    console.error(err);
    process.exit(2);
});
