'use strict';
// Scenarios for the development server: when sources change, how long builds take and how they end, which
// browsers look at it and how their connections fare.
const { Rng } = require('./rng');

function generate(seed, prop) {
    const r = new Rng(`watch:${prop}:${seed}`);
    const ms = () => r.wpick([[2, r.range(0, 20)], [4, r.range(20, 400)], [3, r.range(400, 3000)], [0.5, r.range(3000, 9000)]]);
    const faulty = r.bool(0.35);
    const builds = [];
    for (let i = r.range(1, 5); i > 0; i--) {
        const b = { before: ms(), after: ms() };
        if (faulty && r.bool(0.35)) b.fault = r.pick(['cargo', 'static', 'disk', 'wasm']);
        builds.push(b);
    }
    const longest = Math.max(...builds.map((b) => b.before + b.after));
    const added = r.bool(0.25) ? r.pick(['shared', 'root', '.']) : '';
    const kinds = [[8, 'modify'], [2, 'create'], [2, 'remove'], [2, 'rename'], [1.5, 'movein'], [1, 'similar'], [1, 'rescan'], [2, 'output'], [1, 'elsewhere'], [0.7, 'error']];
    if (added) kinds.push([3, 'added']);
    const changes = [];
    let t = r.wpick([[2, r.range(0, 250)], [3, r.range(0, longest + 400)], [3, r.range(longest, longest + 3000)]]);
    for (let i = r.wpick([[1, 0], [3, 1], [3, 2], [3, r.range(3, 6)], [1, r.range(6, 12)]]); i > 0; i--) {
        changes.push({ at: t, kind: r.wpick(kinds), file: r.pick(['main.rs', 'lib.rs', 'target/mod.rs', 'build/page.rs']), lag: r.wpick([[4, r.range(0, 5)], [2, r.range(5, 60)], [0.5, r.range(60, 900)]]) });
        t += r.wpick([[3, r.range(0, 30)], [3, r.range(150, 260)], [4, r.range(0, longest + 300)], [3, r.range(longest, longest + 2500)]]);
    }
    const broken = [];
    const p = r.wpick([[3, 0], [3, 0.3], [1, 0.7]]);
    for (let g = 0; g <= changes.length; g++) if (r.bool(p)) broken.push(g);
    const browsers = [];
    let last = t;
    for (let i = r.wpick([[5, 1], [3, 2], [1, 4]]); i > 0; i--) {
        const b = {
            at: r.wpick([[3, r.range(0, longest + 800)], [2, r.range(0, t + 1000)]]),
            connect: r.wpick([[4, r.range(0, 10)], [2, r.range(10, 200)], [0.5, r.range(200, 2500)]]),
            reload: r.wpick([[3, r.range(0, 5)], [2, r.range(5, 400)]]),
            retry: r.pick([0, 10, 1000, 3000, 5000]),
        };
        last = Math.max(last, b.at);
        if (r.bool(0.3)) {
            b.cuts = [];
            for (let k = r.range(1, 3); k > 0; k--) b.cuts.push(r.range(0, t + 500));
            last = Math.max(last, b.at + b.cuts.reduce((a, x) => a + x + b.retry, 0));
        }
        browsers.push(b);
    }
    const sc = {
        seed: 1 + r.int(1000000), builds, changes, broken, browsers,
        port: r.pick([4444, 4444, 8080]), events: r.wpick([[3, 5555], [1, 5556], [1, 9000]]),
        dir: r.wpick([[2, ''], [1, 'crates/app']]), named: r.bool(0.5), public: r.wpick([[3, '/build'], [1, '/static/app']]),
        opt: r.wpick([[2, 'none'], [2, 'off'], [2, 'ok'], [0.5, 'fail'], [0.7, 'half']]), optms: r.range(1, 300), rustup: r.range(1, 40), compile: r.wpick([[2, 0], [2, r.range(1, 50)], [1, r.range(50, 1500)]]),
        map: r.bool(0.3), added, late: r.wpick([[3, 0], [2, 10], [2, 30]]), latems: r.pick([2, 10, 60, 250]),
        probes: [r.range(0, 3), r.wpick([[3, r.range(0, 20)], [1, r.range(20, 700)]])],
    };
    const round = longest + sc.rustup + sc.optms + sc.compile + 200;
    // pages loaded late, then connected, cut and loaded again
    sc.limit = last + 4 * round + 25000;
    return sc;
}

module.exports = { generate };
