#!/bin/bash
# build.sh [browser|ssr|both]: builds what the simulators run.
#  browser: the simulated program (WebAssembly, from /repo's crates) and the browser runtime (from /repo's
#           TypeScript sources; the shipped bundle is used as it is)
#  ssr:     the simulated program and the server (from /repo's crates) under the simulated clock and network
set -e
what="${1:-browser}"
here="$(cd "$(dirname "$0")" && pwd)"
. /opt/vp/env.sh >/dev/null 2>&1 || true
mkdir -p "$here/target"
(
    cd "$here/sim-app"
    export CARGO_TARGET_DIR="$here/target/app" RUSTFLAGS=""
    cargo build --release --offline --locked --target wasm32-unknown-unknown >"$here/target/build-app.log" 2>&1 || {
        cat "$here/target/build-app.log" >&2
        exit 3
    }
)
if [ "$what" != ssr ]; then
    mkdir -p "$here/target/js"
    /opt/veriftools/node/node_modules/.bin/esbuild /repo/crates/vertigo/src/driver_module/src_js/index.ts \
        --bundle --format=iife --target=es2022 --outfile="$here/target/js/driver.js" --log-level=error
fi
if [ "$what" != browser ]; then
    (
        cd "$here/ssr-sim"
        export CARGO_TARGET_DIR="$here/target/ssr" RUSTFLAGS="--cfg vertigo_sim --cfg tokio_unstable"
        cargo build --release --offline --locked >"$here/target/build-ssr.log" 2>&1 || {
            cat "$here/target/build-ssr.log" >&2
            exit 3
        }
    )
    mkdir -p "$here/target/ssr-dest"
    echo '{"run_js":"/build/run.js","wasm":"/build/app.wasm"}' >"$here/target/ssr-dest/index.json"
    cp "$here/target/app/wasm32-unknown-unknown/release/sim_app.wasm" "$here/target/ssr-dest/app.wasm"
    # static files, and one which must not be served
    mkdir -p "$here/target/ssr-dest/included/sub"
    printf 'hello, world\n' >"$here/target/ssr-dest/included/hello.txt"
    : >"$here/target/ssr-dest/included/empty.css"
    seq 1 30000 >"$here/target/ssr-dest/included/sub/long.js"
    printf 'zażółć' >"$here/target/ssr-dest/included/a b.json"
    echo 'not-to-be-served' >"$here/target/ssr-private.txt"
fi
