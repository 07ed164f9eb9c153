'use strict';
const fs = require('fs');
const path = require('path');
const root = path.resolve(__dirname, '..');
function loadAssets() {
    const wasmBytes = fs.readFileSync(path.join(root, 'target/app/wasm32-unknown-unknown/release/sim_app.wasm'));
    return {
        wasmBytes,
        wasmModule: new WebAssembly.Module(wasmBytes),
        drivers: {
            ts: fs.readFileSync(path.join(root, 'target/js/driver.js'), 'utf8'),
            bundle: fs.readFileSync('/repo/crates/vertigo/src/driver_module/wasm_run.js', 'utf8'),
        },
    };
}
module.exports = { loadAssets, root };
