'use strict';
// Which simulator decides which property.
const browser = {
    name: 'browser',
    props: ['C01', 'C02', 'C03', 'C04', 'C05', 'C06', 'C08', 'C09', 'C10', 'C11', 'C12', 'C13', 'C14', 'C15', 'C16', 'C17', 'C24', 'C26'],
    async load() { return require('./assets').loadAssets(); },
    generate: (seed, prop) => require('./gen').generate(seed, prop),
    run: (sc, assets, opts) => require('./run').runScenario(sc, assets, opts),
    shrink: (sc) => require('./min').candidates(sc),
    components: {
        real: ['crates/vertigo compiled to wasm32 (reactive graph, driver, DOM, fetch, cache, router, sockets, timers, css, render)', 'crates/vertigo-macro (dom!, bind!, main)',
            'src_js browser runtime (from TypeScript) or the shipped wasm_run.js, alternating by seed', 'V8 WebAssembly engine'],
        stub: ['DOM, events, cookies', 'timers and clocks', 'fetch and responses', 'WebSocket', 'history and location', 'user', 'Math.random'],
    },
};
// C07: long runs which collect garbage
const accounting = { ...browser, props: ['C07'], batch: 2, quick: 90 };
const server = {
    name: 'server',
    batch: 4,
    props: ['C18', 'C19', 'C20', 'C21', 'C22', 'C23'],
    load: () => require('./ssr_engine').load(),
    generate: (seed, prop) => require('./gen_ssr').generate(seed, prop),
    run: (sc, assets, opts) => require('./ssr_engine').run(sc, assets, opts),
    shrink: (sc) => require('./ssr_engine').candidates(sc),
    rule: 'one evaluation is one simulated run of a server with its requests, backends, clocks and faults (C21: with its repetitions; C23: with the browser session beside it), judged page by page by the reference model; distinct runs are counted by the sequence of requests, backend calls, answers and failures; non-trivial means more than six of these and more than one backend call',
    assumptions: ['the simulated HTTP client transport (below reqwest) behaves as connections to backends do: answers, status, headers, bodies, failures before and inside the body, silence', 'tokio\'s current-thread runtime with virtual time stands for the multi-threaded one (pages share no state but the compiled program)', 'the nesting of elements is one HTML permits, so that a browser parses the page into the tree it was written from'],
    components: {
        real: ['crates/vertigo-cli serve: router, page handler, request loop, wasmtime host, virtual DOM and HTML output', 'crates/vertigo compiled to wasm32', 'axum, tower, hyper body, tokio scheduler and timers (paused clock), wasmtime',
            'reqwest request building and body reading'],
        stub: ['connections to backends (vendored reqwest with an in-process transport)', 'listening socket and HTTP/1 framing', 'system clock, random numbers (seeded)', 'the client which makes requests and goes away'],
    },
};
const watch = {
    name: 'watch',
    props: ['C25'],
    load: () => require('./watch_engine').load(),
    generate: (seed, prop) => require('./gen_watch').generate(seed, prop),
    run: (sc, assets, opts) => require('./watch_engine').run(sc, assets, opts),
    shrink: (sc) => require('./watch_engine').candidates(sc),
    rule: 'one evaluation is one simulated session of the development server (source changes, builds, browsers, faults) judged message by message; distinct runs are counted by the sequence of changes, builds, listeners and messages; non-trivial means more than one build and more than two messages',
    assumptions: ['a task is preempted where it blocks (external programs, compiling) or where the scheduler delays its next step, not between two plain instructions', 'changes are noticed through the events notify delivers on Linux', 'a page and its connection to the status stream are made within one round'],
    components: {
        real: ['crates/vertigo-cli watch: watch loop, debounce, status channel, status stream (poem SSE, CORS)', 'crates/vertigo-cli build: steps, hashing, destination directory (real files in a scratch directory)', 'crates/vertigo-cli serve: state, page handler, static files, watch script', 'tokio timers and channels, tokio-retry, wasmtime', 'watch.js of the served page (V8)'],
        stub: ['cargo, rustup, wasm-opt (external programs)', 'file change notification', 'sockets of both servers and of the probe', 'task spawning of SpawnOwner (real tasks on threads of their own, one at a time)', 'EventSource, document and location of the browser'],
    },
};
const files = {
    name: 'files',
    batch: 8,
    props: ['C27'],
    load: () => require('./files_engine').load(),
    generate: (seed, prop) => require('./gen_files').generate(seed, prop),
    run: (sc, assets, opts) => require('./files_engine').run(sc, assets, opts),
    shrink: (sc) => require('./files_engine').candidates(sc),
    rule: 'one evaluation is one simulated life of a project directory (files put there, the commands new, build and serve, each in a process of its own, with faults at its calls to the file system), judged after every command; distinct runs are counted by the sequence of commands, faults (kind and call) and results; non-trivial means more than one command or a fault',
    assumptions: ['a call to the file system fails as a whole or writes a prefix; what has been written survives the end of a process (no loss of power)', 'the external programs stand for cargo, rustup and wasm-opt: their results, files and ways of failing', 'a failing stat is not injected'],
    components: {
        real: ['crates/vertigo-cli new: template, checks, files', 'crates/vertigo-cli build: steps, hashing, destination directory', 'crates/vertigo-cli serve: index, page, static files (wasmtime)', 'std::fs on a real scratch directory'],
        stub: ['cargo, rustup, wasm-opt (external programs)', 'the calls open, read, write, mkdir, unlink, rmdir, opendir, readdir (pass through, or fail)', 'listening socket'],
    },
};
const front = {
    name: 'front',
    batch: 8,
    props: ['C28'],
    load: () => require('./http_engine').load(),
    generate: (seed, prop) => require('./gen_http').generate(seed, prop),
    run: (sc, assets, opts) => require('./http_engine').run(sc, assets, opts),
    shrink: (sc) => require('./http_engine').candidates(sc),
    rule: 'one evaluation is one simulated run of a server with its connections, backends and faults, judged request by request and backend call by backend call; distinct runs are counted by the sequence of requests (by party), backend results and connections; non-trivial means more than four of these and a backend call',
    assumptions: ['the simulated HTTP client transport (below reqwest) behaves as connections to backends do, and frames a request as the headers it is given say', 'a pipe inside the process stands for a TCP connection', 'tokio\'s current-thread runtime with virtual time stands for the multi-threaded one'],
    components: {
        real: ['crates/vertigo-cli serve: router, proxy, static files, page handler', 'hyper HTTP/1 server connections, axum, tower-http', 'reqwest request building and body reading (URLs by the url crate)', 'wasmtime and crates/vertigo (pages)'],
        stub: ['connections to backends (vendored reqwest with an in-process transport)', 'listening socket (pipes inside the process)', 'system clock, random numbers (seeded)', 'the clients'],
    },
};
const engines = [browser, accounting, server, watch, files, front];
function engineFor(prop) {
    const e = engines.find((x) => x.props.includes(prop));
    if (!e) throw new Error('no engine for ' + prop);
    return e;
}
module.exports = { engineFor, engines };
