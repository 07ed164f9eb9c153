'use strict';
// Scenarios for the commands which make files: projects generated, built and served, with the file system failing
// or the command ending at any of its calls.
const { Rng } = require('./rng');

function generate(seed, prop) {
    const r = new Rng(`files:${prop}:${seed}`);
    const steps = [];
    // a command makes some 15 (new), 30 to 60 (build) calls
    const faults = (most) => {
        const out = [];
        const kind = () => r.wpick([[4, 'error'], [2, 'full'], [2, 'short'], [2, 'eintr'], [3, 'crash']]);
        const at = () => r.wpick([[1, r.range(1, 12)], [3, r.range(1, most)]]);
        const style = r.wpick([[4, 'one'], [2, 'some'], [1, 'soft']]);
        if (style === 'one') out.push({ at: at(), kind: kind(), e: r.range(0, 5) });
        else if (style === 'some') for (let i = r.range(2, 5); i > 0; i--) out.push({ at: at(), kind: kind(), e: r.range(0, 5) });
        else for (let i = r.range(3, 40); i > 0; i--) out.push({ at: at(), kind: r.pick(['short', 'eintr']), e: 0 });
        return out.sort((a, b) => a.at - b.at);
    };
    if (r.bool(0.3)) {
        const names = r.pick([['my_site'], ['app'], ['my-shop', 'my-shop2'], ['my_app'], ['x']]);
        const dest = r.wpick([[2, './'], [1, 'projects'], [1, 'a/b']]);
        const at = (n) => (dest === './' ? '' : dest + '/') + n;
        if (r.bool(0.5)) {
            // something is there already
            const n = r.pick(names);
            for (let i = r.range(1, 2); i > 0; i--) steps.push({ cmd: 'put', path: at(n) + '/' + r.pick(['Cargo.toml', 'src/lib.rs', 'notes.txt', '.gitignore', 'Cargo.toml_', 'src/main.rs']), text: 'mine ' + r.int(1000) });
            if (r.bool(0.3)) steps.push({ cmd: 'mode', path: at(n), mode: r.pick([0o300, 0o500, 0o000]) });
        } else if (r.bool(0.3)) steps.push({ cmd: 'putdir', path: at(r.pick(names)) });
        else if (r.bool(0.15)) steps.push({ cmd: 'put', path: at(r.pick(names)), text: 'a file' });
        for (let i = r.range(1, 3); i > 0; i--) {
            const s = { cmd: 'new', name: r.pick(names), dest, order: 1 + r.int(1000) };
            if (r.bool(0.6)) s.faults = faults(15);
            steps.push(s);
        }
        return { files: true, seed, steps };
    }
    const cwd = r.wpick([[4, ''], [1, 'crates/app']]);
    const dest = r.wpick([[4, './build'], [1, 'out/site'], [1, 'build']]);
    const target = r.wpick([[5, ''], [1, 'elsewhere']]);
    const pub = r.wpick([[3, '/build'], [1, '/static/app'], [1, '/s']]);
    const opt = r.wpick([[2, 'none'], [2, 'off'], [3, 'ok'], [0.7, 'fail'], [0.7, 'half'], [0.5, 'killed']]);
    const pool = ['logo.AbC-_1.svg', 'data.json', 'a b.txt', 'style.x.css', 'photo.Zz9.png', '.hidden', 'LICENSE'];
    const named = r.bool(0.5);
    const map = r.bool(0.4);
    const common = () => ({ cwd, dest, target, public: pub, named, map, opt, order: 1 + r.int(1000) });
    let source = r.int(6);
    // (what an image is included for stays)
    let included = target ? [] : pool.filter(() => r.bool(0.35));
    const before = cwd ? cwd + '/' : '';
    if (r.bool(0.4)) for (let i = r.range(1, 3); i > 0; i--) steps.push({ cmd: 'put', path: before + dest + '/' + r.pick(['old.txt', 'sub/dir/old.wasm', 'index.json', 'app_one.wasm', 'sub/x']), text: '{"run_js":"/build/old.js","wasm":"/build/old.wasm"}' });
    // built by other means, long ago
    if (r.bool(0.3)) steps.push({ cmd: 'put', path: before + 'target/wasm32-unknown-unknown/release/app_one.wasm', text: 'stale' });
    else if (r.bool(0.2)) steps.push({ cmd: 'put', path: 'target/wasm32-unknown-unknown/release/deps/libapp_one.rlib', text: 'old' });
    const faulty = r.bool(0.75);
    for (let i = r.range(1, 3); i > 0; i--) {
        const s = { cmd: 'build', ...common(), source, included, cargo: 'ok' };
        if (faulty && r.bool(0.7)) s.faults = faults(30 + 6 * included.length + r.pick([0, 10]));
        if (r.bool(0.12)) s.cargo = r.pick(['fail', 'signal', 'partial', 'missing']);
        if (r.bool(0.15)) s.opt = r.pick(['none', 'off', 'ok', 'fail', 'half', 'killed']);
        if (r.bool(0.1)) s.map = !map;
        steps.push(s);
        if (r.bool(0.5)) {
            const v = { cmd: 'serve', ...common() };
            if (faulty && r.bool(0.3)) v.faults = faults(6);
            steps.push(v);
        }
        if (r.bool(0.5)) source = r.int(6);
        if (!target && r.bool(0.2)) included = [...new Set([...included, r.pick(pool)])];
    }
    // everything works again
    steps.push({ cmd: 'build', ...common(), source, included, cargo: 'ok' });
    steps.push({ cmd: 'serve', ...common() });
    return { files: true, seed, steps };
}

module.exports = { generate };
