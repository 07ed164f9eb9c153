'use strict';
// The simulated browser: one page, its clock, timers, network, sockets, history and user, all driven by
// an explicit scenario. Nothing here reads the real clock, the real network or real randomness.
const { Rng } = require('./rng');
const { makeDom } = require('./dom');

const realSetImmediate = setImmediate;
const drainMicrotasks = () => new Promise((r) => realSetImmediate(r));

class Browser {
    // opts: { scenario, driverSource, wasmModule, wasmBytes, observer }
    constructor(opts) {
        this.sc = opts.scenario;
        this.driverSource = opts.driverSource;
        this.wasmModule = opts.wasmModule;
        this.wasmBytes = opts.wasmBytes;
        this.m = opts.observer;
        this.mono = 0;
        this.wallOffset = this.sc.wall0 === undefined ? 1700000000000 : this.sc.wall0;
        this.tie = new Rng('tie' + (this.sc.tie === undefined ? 0 : this.sc.tie));
        this.rnd = new Rng('rand' + (this.sc.rand === undefined ? 0 : this.sc.rand));
        this.seq = 0;
        this.tasks = new Map(); // id -> { id, at, seq, source, run, label }
        this.trace = [];
        this.order = []; // source/identity of every executed macro event
        this.timerNo = 0;
        this.netCount = new Map();
        this.wsCount = new Map();
        this.pendingNet = 0;
        this.requests = [];
        this.sockets = [];
        this.depth = 0; // nesting of calls into the program
        this.allocs = 0;
        this.dead = false; // the program trapped
        this.faults = {};
        this.steps = 0;
        this.listeners = 0;
        this.memGrow = 0;
        this.mutations = 0;
        this.stalledUntil = 0;
        this.timers = new Map();
        this.pageErrors = [];
        this.liveNodes = opts.trackNodes ? [] : null;
        this.exports = null;
        this.setup();
    }

    fault(kind) { this.faults[kind] = (this.faults[kind] || 0) + 1; }
    t(line) { this.trace.push(line); }
    wall() { return this.mono + this.wallOffset; }

    schedule(delay, source, label, run) {
        const id = ++this.seq;
        this.tasks.set(id, { id, at: this.mono + Math.max(0, delay), seq: id, source, label, run });
        return id;
    }
    cancel(id) { this.tasks.delete(id); }

    setup() {
        const self = this;
        const owner = {
            now: () => self.mono,
            wall: () => self.wall(),
            onMutation: (kind, node, detail) => { self.mutations++; self.m.onMutation(kind, node, detail); },
            onListener: (target, type, d) => { self.listeners += d; },
            onInvoke: (target, event, phase, n) => self.m.onInvoke && self.m.onInvoke(target, event, phase, n),
            onFocus: () => {},
            onCookie: () => {},
            uncaught: (err) => self.uncaught('listener', err),
            track: (node) => { if (self.liveNodes) self.liveNodes.push(new WeakRef(node)); },
        };
        const D = makeDom(owner);
        this.D = D;
        this.owner = owner;
        const document = new D.Document();
        owner.document = document;
        this.document = document;

        const html = document.createElement('html');
        document.appendChild(html);
        const build = (j) => {
            if (typeof j === 'string') return document.createTextNode(j);
            if (j.c !== undefined && j.tag === undefined) return document.createComment(j.c);
            const e = document.createElement(j.tag);
            for (const [k, v] of j.attrs || []) e.setAttribute(k, v);
            for (const k of j.ch || []) e.appendChild(build(k));
            return e;
        };
        const head = document.createElement('head');
        const body = document.createElement('body');
        html.appendChild(head);
        html.appendChild(body);
        for (const k of this.sc.initialHead || [{ tag: 'title', ch: ['loading'] }]) head.appendChild(build(k));
        for (const k of this.sc.initialBody || [{ tag: 'p', ch: ['please wait'] }]) body.appendChild(build(k));
        const script = document.createElement('script');
        script.setAttribute('data-vertigo-run-wasm', '/build/app.wasm');
        body.appendChild(script);
        html.setAttribute('data-env-spec', JSON.stringify(this.sc.spec));
        for (const k of Object.keys(this.sc.env || {})) html.setAttribute('data-env-' + k, this.sc.env[k]);
        for (const [k, v] of this.sc.cookies || []) document.cookie = `${k}=${v}`;
        this.initialNodes = [...head._kids, ...body._kids];

        const window = new D.EventTarget();
        owner.window = window;
        this.window = window;

        // ---- history and location
        this.base = 'http://app.test';
        this.entries = [new URL(this.sc.path || '/', this.base).href];
        this.index = 0;
        const cur = () => new URL(self.entries[self.index]);
        const fireHash = (oldURL, newURL) => {
            self.schedule(self.sc.hashDelay || 0, 'history', 'hashchange', () => {
                self.dispatchTo(window, new D.HashChangeEvent('hashchange', { oldURL, newURL }));
            });
        };
        const navigateFragment = (url) => {
            const old = self.entries[self.index];
            if (url === old) return;
            self.entries = self.entries.slice(0, self.index + 1);
            self.entries.push(url);
            self.index++;
            if (self.sc.popstateOnHash) {
                self.schedule(self.sc.hashDelay || 0, 'history', 'popstate', () => {
                    self.dispatchTo(window, new D.PopStateEvent('popstate', { state: null }));
                });
            }
            fireHash(old, url);
        };
        this.userHash = (h) => {
            const u = cur();
            u.hash = h;
            navigateFragment(u.href);
        };
        const traverse = (delta) => {
            self.schedule(self.sc.navDelay || 0, 'history', 'traverse' + delta, () => {
                const target = self.index + delta;
                if (target < 0 || target >= self.entries.length) return;
                const old = self.entries[self.index];
                self.index = target;
                const now = self.entries[self.index];
                self.m.onNavigated && self.m.onNavigated();
                self.dispatchTo(window, new D.PopStateEvent('popstate', { state: null }));
                const a = new URL(old);
                const b = new URL(now);
                if (a.hash !== b.hash) fireHash(old, now);
            });
        };
        this.traverse = traverse;
        const history = {
            get length() { return self.entries.length; },
            get state() { return null; },
            scrollRestoration: 'auto',
            pushState(_s, _t, url) {
                const u = self.resolveUrl(url);
                self.entries = self.entries.slice(0, self.index + 1);
                self.entries.push(u);
                self.index++;
                self.m.onHistory && self.m.onHistory('push', u);
            },
            replaceState(_s, _t, url) {
                const u = self.resolveUrl(url);
                self.entries[self.index] = u;
                self.m.onHistory && self.m.onHistory('replace', u);
            },
            back() { traverse(-1); },
            forward() { traverse(1); },
            go(n) { if (n) traverse(n); },
        };
        const location = {
            get href() { return cur().href; },
            set href(v) { self.leave(v); },
            get pathname() { return cur().pathname; },
            get search() { return cur().search; },
            get hash() { return cur().hash; },
            set hash(v) { self.m.onHistory && self.m.onHistory('hash', v); self.userHash(v); },
            get origin() { return cur().origin; },
            get host() { return cur().host; },
            get hostname() { return cur().hostname; },
            get protocol() { return cur().protocol; },
            get port() { return cur().port; },
            assign(v) { self.leave(v); },
            replace(v) { self.leave(v); },
            reload() { self.leave(cur().href); },
            toString() { return cur().href; },
        };
        this.resolveUrl = (url) => {
            if (url === undefined || url === null) return self.entries[self.index];
            let u;
            try {
                u = new URL(String(url), self.entries[self.index]);
            } catch (e) {
                throw new D.DOMException(`Failed to execute 'pushState' on 'History': A history state object with URL '${url}' cannot be created`, 'SecurityError');
            }
            if (u.origin !== self.base) {
                throw new D.DOMException(`Failed to execute 'pushState' on 'History': A history state object with URL '${url}' cannot be created in a document with origin '${self.base}'`, 'SecurityError');
            }
            return u.href;
        };

        // ---- clock
        const RealDate = Date;
        class SimDate extends RealDate {
            constructor(...args) {
                if (args.length === 0) super(self.wall());
                else super(...args);
            }
            static now() { return self.wall(); }
            getTimezoneOffset() { return self.sc.tz === undefined ? 0 : self.sc.tz; }
        }

        // ---- timers
        const clamp = this.sc.clamp || 0;
        const addTimer = (fn, delay, repeat, args) => {
            const id = ++self.timerNo;
            let ms = Number(delay);
            if (!(ms >= 0) || !Number.isFinite(ms)) ms = 0;
            ms = Math.floor(ms);
            if (ms > 2147483647) ms = 0; // overflow, as in browsers
            const arm = () => {
                const wait = Math.max(ms, clamp, repeat ? 1 : 0);
                const timer = { id, task: 0, repeat, ms };
                timer.task = self.schedule(wait, 'timer', (repeat ? 'ivl' : 'to') + ms, () => {
                    if (repeat) arm();
                    else self.timers.delete(id);
                    try {
                        if (typeof fn === 'function') fn(...args);
                    } catch (err) {
                        self.uncaught('timer', err);
                    }
                });
                self.timers.set(id, timer);
            };
            arm();
            return id;
        };
        const clear = (id) => {
            const t = self.timers.get(id);
            if (t) {
                self.cancel(t.task);
                self.timers.delete(id);
            }
        };
        const setTimeoutSim = (fn, delay, ...args) => addTimer(fn, delay === undefined ? 0 : delay, false, args);
        const setIntervalSim = (fn, delay, ...args) => addTimer(fn, delay === undefined ? 0 : delay, true, args);

        // ---- console
        const con = {};
        for (const level of ['debug', 'info', 'log', 'warn', 'error', 'trace', 'group', 'groupEnd', 'table', 'time', 'timeEnd']) {
            con[level] = (...args) => self.console(level, args);
        }
        con.assert = (c, ...args) => { if (!c) self.console('error', args); };

        // ---- network
        class SimResponse {
            constructor(status, headers, body, rec) {
                this.status = status;
                this.ok = status >= 200 && status < 300;
                this.headers = headers;
                this.statusText = '';
                this.url = rec ? rec.url : '';
                this.redirected = false;
                this.type = 'basic';
                this.bodyUsed = false;
                this._body = body;
            }
            _take() {
                if (this.bodyUsed) return Promise.reject(new TypeError('body stream already read'));
                this.bodyUsed = true;
                return this._body();
            }
            text() { return this._take().then((b) => new TextDecoder().decode(b)); }
            json() { return this.text().then((t) => JSON.parse(t)); }
            arrayBuffer() { return this._take().then((b) => b.buffer.slice(b.byteOffset, b.byteOffset + b.byteLength)); }
            bytes() { return this._take(); }
            blob() { return this.arrayBuffer(); }
            clone() { return new SimResponse(this.status, this.headers, this._body, null); }
        }
        const fetchSim = (input, init = {}) => self.fetch(SimResponse, input, init);

        // ---- web sockets
        class SimWebSocket extends D.EventTarget {
            constructor(url) {
                super();
                let u;
                try {
                    u = new URL(String(url), self.base);
                } catch (e) {
                    throw new D.DOMException(`Failed to construct 'WebSocket': The URL '${url}' is invalid.`, 'SyntaxError');
                }
                if (u.protocol === 'http:') u.protocol = 'ws:';
                if (u.protocol === 'https:') u.protocol = 'wss:';
                if (u.protocol !== 'ws:' && u.protocol !== 'wss:') {
                    throw new D.DOMException(`Failed to construct 'WebSocket': The URL's scheme must be either 'ws' or 'wss'.`, 'SyntaxError');
                }
                this.url = String(url);
                this.readyState = 0;
                this.bufferedAmount = 0;
                this.binaryType = 'blob';
                this.onopen = this.onclose = this.onerror = this.onmessage = null;
                self.openSocket(this);
            }
            send(data) {
                if (this.readyState === 0) throw new D.DOMException("Failed to execute 'send' on 'WebSocket': Still in CONNECTING state.", 'InvalidStateError');
                if (this.readyState !== 1) return;
                this._sent.push(data);
                self.t(`ws.send ${this._n} ${JSON.stringify(data)}`);
                self.m.onWsSend(this, data);
            }
            close() {
                if (this.readyState >= 2) return;
                const was = this.readyState;
                this.readyState = 2;
                this._clientClosed = true;
                self.t(`ws.close ${this._n}`);
                self.m.onWsClose(this);
                for (const id of this._tasks) self.cancel(id);
                this._tasks = [];
                self.wsTask(this, self.sc.wsCloseDelay || 1, 'closed', () => {
                    this.readyState = 3;
                    if (was === 0) this._fire('error', new D.Event('error'));
                    this._fire('close', new D.CloseEvent('close', { code: was === 0 ? 1006 : 1005, wasClean: was === 1 }));
                });
            }
            _fire(type, ev) {
                ev.target = this;
                const on = this['on' + type];
                if (typeof on === 'function') {
                    try { on.call(this, ev); } catch (err) { self.uncaught('ws', err); }
                }
                D.dispatch(this, ev);
            }
        }
        SimWebSocket.CONNECTING = 0; SimWebSocket.OPEN = 1; SimWebSocket.CLOSING = 2; SimWebSocket.CLOSED = 3;
        SimWebSocket.prototype.CONNECTING = 0; SimWebSocket.prototype.OPEN = 1; SimWebSocket.prototype.CLOSING = 2; SimWebSocket.prototype.CLOSED = 3;

        // ---- the language boundary
        const wrapImports = (imports) => {
            const out = {};
            for (const ns of Object.keys(imports)) {
                out[ns] = {};
                for (const name of Object.keys(imports[ns])) {
                    const fn = imports[ns][name];
                    out[ns][name] = typeof fn === 'function' ? (...args) => {
                        if (name === 'panic_message') {
                            self.panicked = true;
                        }
                        return fn(...args);
                    } : fn;
                }
            }
            return out;
        };
        const wrapExports = (exports) => {
            const out = {};
            for (const name of Object.keys(exports)) {
                const fn = exports[name];
                if (typeof fn !== 'function') {
                    out[name] = fn;
                    continue;
                }
                if (name === 'wasm_callback' || name === 'vertigo_entry_function') {
                    out[name] = (...args) => self.enter(name, fn, args);
                } else if (name === 'alloc' || name === 'free') {
                    out[name] = (...args) => {
                        self.allocs += name === 'alloc' ? 1 : -1;
                        return self.guard(() => fn(...args));
                    };
                } else {
                    out[name] = fn;
                }
            }
            return out;
        };
        const instantiate = (imports) => {
            const inst = new WebAssembly.Instance(self.wasmModule, wrapImports(imports));
            self.exports = inst.exports;
            self.memory = inst.exports.memory;
            return { module: self.wasmModule, instance: { exports: wrapExports(inst.exports) } };
        };
        const WA = {
            Memory: WebAssembly.Memory, Module: WebAssembly.Module, Instance: WebAssembly.Instance, Table: WebAssembly.Table,
            Global: WebAssembly.Global, RuntimeError: WebAssembly.RuntimeError, CompileError: WebAssembly.CompileError,
            LinkError: WebAssembly.LinkError,
            instantiate: async (_bytes, imports) => instantiate(imports),
            compile: async () => self.wasmModule,
        };
        if (this.sc.streaming !== 'none') {
            WA.instantiateStreaming = async (stream, imports) => {
                await stream;
                if (self.sc.streaming === 'mime') throw new TypeError('Incorrect response MIME type. Expected \'application/wasm\'.');
                return instantiate(imports);
            };
        }

        const MathSim = {};
        for (const k of Object.getOwnPropertyNames(Math)) MathSim[k] = Math[k];
        MathSim.random = () => self.rnd.u32() / 4294967296;

        let api = undefined;
        Object.defineProperty(window, '$vertigoApi', {
            configurable: true,
            get: () => api,
            set: (v) => {
                api = v;
                self.api = v;
                const orig = v.dom.dom_bulk_update;
                v.dom.dom_bulk_update = function (commands) {
                    self.batchBegin(commands);
                    try {
                        return orig.apply(this, arguments);
                    } finally {
                        self.batchEnd(commands);
                    }
                };
            },
        });

        const globals = {
            window, self: window, globalThis: window, document, location, history, console: con,
            navigator: { userAgent: 'sim', language: 'en', onLine: true, languages: ['en'] },
            performance: { now: () => self.mono, timeOrigin: 0, mark() {}, measure() {} },
            setTimeout: setTimeoutSim, setInterval: setIntervalSim, clearTimeout: clear, clearInterval: clear,
            requestAnimationFrame: (f) => setTimeoutSim(() => f(self.mono), 16), cancelAnimationFrame: clear,
            fetch: fetchSim, Headers, Response: SimResponse, WebSocket: SimWebSocket, Date: SimDate, Math: MathSim, WebAssembly: WA,
            XMLHttpRequest: undefined, process: undefined, require: undefined, module: undefined,
            alert: () => {}, confirm: () => true, prompt: () => null,
            localStorage: makeStorage(), sessionStorage: makeStorage(),
            crypto: { getRandomValues: (a) => { for (let i = 0; i < a.length; i++) a[i] = self.rnd.u32(); return a; } },
            matchMedia: () => ({ matches: false, addEventListener() {}, removeEventListener() {} }),
        };
        for (const k of ['Event', 'UIEvent', 'MouseEvent', 'InputEvent', 'FocusEvent', 'KeyboardEvent', 'DragEvent', 'CustomEvent', 'MessageEvent',
            'CloseEvent', 'PopStateEvent', 'HashChangeEvent', 'EventTarget', 'Node', 'NodeList', 'CharacterData', 'Text', 'Comment', 'DocumentFragment',
            'Element', 'HTMLElement', 'SVGElement', 'HTMLInputElement', 'HTMLTextAreaElement', 'HTMLSelectElement', 'HTMLAnchorElement', 'HTMLStyleElement',
            'HTMLHeadElement', 'HTMLBodyElement', 'HTMLHtmlElement', 'HTMLUnknownElement', 'Document', 'DOMException']) globals[k] = D[k];
        for (const k of Object.keys(globals)) {
            if (!(k in window)) window[k] = globals[k];
        }
        window.scrollTo = () => {};
        window.scrollX = 0;
        window.scrollY = 0;
        window.simEcho = { id: (x) => x, args: (...a) => a, count: (...a) => a.length, keys: (o) => Object.keys(o).length, make: (n) => { const o = {}; for (let i = 0; i < n; i++) o['k' + i] = i; return o; }, len: (x) => x.length, p1: 1, p2: 'two' };
        window.innerWidth = 1024;
        window.innerHeight = 768;
        window.parent = window;
        window.top = window;
        document.location = location;
        this.globals = globals;
    }

    leave(v) { this.left = v; }

    // What is held at this moment: page nodes which cannot be collected, their listeners, timers, sockets,
    // everything reachable from the runtime, and the program's heap.
    census(gc) {
        if (this.liveNodes) gc();
        const live = [];
        const keep = [];
        for (const w of this.liveNodes || []) {
            const n = w.deref();
            if (n !== undefined) {
                live.push(n);
                keep.push(w);
            }
        }
        this.liveNodes = keep;
        const listenersOf = (t) => { let k = 0; for (const l of t._listeners.values()) k += l.length; return k; };
        let inDoc = 0;
        const shape = [];
        const walk = (n) => {
            for (const k of n._kids || []) {
                inDoc++;
                shape.push(k.nodeType === 1 ? k.localName : k.nodeType);
                walk(k);
                shape.push('/');
            }
        };
        walk(this.document);
        let listeners = listenersOf(this.window) + listenersOf(this.document);
        for (const n of live) listeners += listenersOf(n);
        let ivl = 0;
        for (const t of this.timers.values()) if (t.repeat) ivl++;
        return {
            nodes: live.length - inDoc, inDoc, shape: shape.join(' '), listeners, timeouts: this.timers.size - ivl, intervals: ivl,
            sockets: this.sockets.filter((s) => s.readyState < 2).length,
            runtime: this.reach(this.api), blocks: this.exports.sim_heap_blocks(), bytes: this.exports.sim_heap_bytes(),
        };
    }
    // the number of entries of all containers reachable from an object of the runtime
    reach(root) {
        const stop = new Set([...Object.values(this.globals), this.window, this.document, this.memory, this.exports]);
        const seen = new Set();
        const todo = [root];
        let n = 0;
        while (todo.length) {
            const x = todo.pop();
            if (x === null || typeof x !== 'object' || seen.has(x) || stop.has(x)) continue;
            seen.add(x);
            if (x instanceof this.D.EventTarget || ArrayBuffer.isView(x) || x instanceof ArrayBuffer || x instanceof WebAssembly.Memory || x instanceof WeakRef || x instanceof Promise) continue;
            if (x instanceof Map) {
                n += x.size;
                for (const [k, v] of x) todo.push(k, v);
            } else if (x instanceof Set) {
                n += x.size;
                for (const v of x) todo.push(v);
            } else {
                if (Array.isArray(x)) n += x.length;
                for (const k of Object.getOwnPropertyNames(x)) {
                    const d = Object.getOwnPropertyDescriptor(x, k);
                    if (d && 'value' in d) {
                        if (!Array.isArray(x)) n++;
                        todo.push(d.value);
                    }
                }
            }
        }
        return n;
    }

    console(level, args) {
        if (level === 'info' || level === 'log' || level === 'debug' || level === 'warn' || level === 'error') {
            const a = args[0];
            if (typeof a === 'string') {
                const i = a.indexOf('SIM [');
                if (i >= 0 && level === 'info') {
                    const text = a.slice(i + 4);
                    this.t('log ' + text);
                    let v;
                    try {
                        v = JSON.parse(text);
                    } catch (err) {
                        this.m.fail(['C26'], 'garbled-log', `a log line arrived damaged: ${text.slice(0, 200)}`);
                        return;
                    }
                    this.m.onLog(v);
                    return;
                }
            }
        }
        const text = args.map((x) => {
            if (typeof x === 'string') return x;
            if (x instanceof Error) return x.name + ': ' + x.message;
            try {
                return JSON.stringify(x, (_k, v) => (typeof v === 'bigint' ? v.toString() + 'n' : v)) || String(x);
            } catch (e) {
                return String(x);
            }
        }).join(' ').slice(0, 600);
        this.t(`console.${level} ${text}`);
        this.m.onConsole(level, text, args);
    }

    uncaught(where, err) {
        const text = err && err.message ? `${err.name}: ${err.message}` : String(err);
        this.t(`uncaught ${where} ${text}`);
        this.pageErrors.push(text);
        this.m.onUncaught(where, err, text);
    }

    guard(f) {
        try {
            return f();
        } catch (err) {
            if (err instanceof WebAssembly.RuntimeError || err instanceof RangeError) {
                if (!this.dead) {
                    this.dead = true;
                    this.t('trap ' + err.message);
                    this.m.onTrap(err);
                }
            }
            throw err;
        }
    }

    enter(name, fn, args) {
        this.depth++;
        this.t(`> ${name === 'wasm_callback' ? 'cb' : 'entry'} ${this.depth}`);
        this.m.onEnter(name, this.depth);
        try {
            return this.guard(() => fn(...args));
        } finally {
            this.depth--;
            this.t(`< ${this.depth + 1}`);
            this.m.onExit(name, this.depth + 1, this.dead);
        }
    }

    batchBegin(commands) {
        let plain;
        try {
            plain = JSON.stringify(commands);
        } catch (e) {
            plain = '?';
        }
        this.t('batch ' + plain);
        this.m.onBatchBegin(commands);
    }
    batchEnd(commands) { this.m.onBatchEnd(commands); }

    dispatchTo(target, event) {
        this.D.dispatch(target, event);
    }

    // ---- network
    outcomeFor(table, counter, key) {
        const list = (table || {})[key] || (table || {})['*'];
        const n = counter.get(key) || 0;
        counter.set(key, n + 1);
        if (!list || list.length === 0) return null;
        return list[Math.min(n, list.length - 1)];
    }

    fetch(SimResponse, input, init) {
        const D = this.D;
        const url = String(input);
        if (url === '/build/app.wasm') {
            return Promise.resolve(new SimResponse(200, new Headers({ 'content-type': 'application/wasm' }), () => Promise.resolve(this.wasmBytes), null));
        }
        let method = init.method === undefined ? 'GET' : String(init.method);
        if (/^(get|head|post|put|delete|options)$/i.test(method)) method = method.toUpperCase();
        let headers;
        try {
            headers = new Headers(init.headers || {});
        } catch (err) {
            return Promise.reject(err);
        }
        let body = init.body;
        if (body === undefined || body === null) body = null;
        else if (body instanceof Uint8Array) body = { bin: Array.from(body) };
        else if (body instanceof ArrayBuffer) body = { bin: Array.from(new Uint8Array(body)) };
        else body = { text: String(body) };
        const rec = { n: this.requests.length, url, method, headers: Object.fromEntries([...headers]), body, t: this.mono, state: 'sent' };
        const rejectNow = (msg) => {
            rec.state = 'rejected';
            rec.outcome = { k: 'fail' };
            rec.refused = true;
            this.requests.push(rec);
            this.t(`req! ${rec.n} ${method} ${url} ${msg}`);
            this.m.onReq(rec);
            this.m.onNet(rec);
            return Promise.reject(new TypeError(msg));
        };
        if ((method === 'GET' || method === 'HEAD') && body !== null) return rejectNow('Request with GET/HEAD method cannot have body.');
        if (/^(connect|trace|track)$/i.test(method)) return rejectNow(`'${method}' HTTP method is unsupported.`);
        try {
            // eslint-disable-next-line no-new
            new URL(url, this.base);
        } catch (e) {
            return rejectNow(`Failed to parse URL from ${url}`);
        }
        const o = this.outcomeFor(this.sc.net, this.netCount, url) || { k: 'ok', d: 5, status: 404, ct: 'text/plain', body: 'nothing here' };
        rec.outcome = o;
        this.requests.push(rec);
        this.t(`req ${rec.n} ${method} ${url} ${JSON.stringify(rec.headers)} ${JSON.stringify(body)}`);
        this.m.onReq(rec);
        this.pendingNet++;
        if (o.d > 1000) this.fault('net-delay');
        if (o.k === 'fail') this.fault('net-fail');
        return new Promise((resolve, reject) => {
            this.schedule(o.d || 0, 'net', `net${rec.n}`, () => {
                if (o.k === 'fail') {
                    this.pendingNet--;
                    rec.state = 'failed';
                    this.t(`net ${rec.n} fail`);
                    this.m.onNet(rec);
                    reject(new TypeError('Failed to fetch'));
                    return;
                }
                const h = new Headers();
                if (o.ct !== undefined && o.ct !== null) h.set('content-type', o.ct);
                const bytes = o.bin ? Uint8Array.from(o.bin) : new TextEncoder().encode(o.body === undefined ? '' : o.body);
                let taken = false;
                const done = () => {
                    if (!taken) {
                        taken = true;
                        this.pendingNet--;
                    }
                };
                rec.state = 'headers';
                this.t(`net ${rec.n} ${o.status}`);
                // the body: available after bd more, or failing there
                const ready = new Promise((res, rej) => {
                    this.schedule(o.bd || 0, 'net', `body${rec.n}`, () => {
                        done();
                        if (o.bf) {
                            this.fault('net-body-fail');
                            rec.state = 'bodyfail';
                            this.t(`body ${rec.n} fail`);
                            this.m.onNet(rec);
                            rej(new TypeError('network error'));
                        } else {
                            rec.state = 'done';
                            this.t(`body ${rec.n}`);
                            this.m.onNet(rec);
                            res(bytes);
                        }
                    });
                });
                ready.catch(() => {});
                resolve(new SimResponse(o.status, h, () => ready, rec));
            });
        });
    }

    // ---- sockets
    wsTask(ws, delay, label, run) {
        const id = this.schedule(delay, 'ws', `ws${ws._n}${label}`, () => {
            ws._tasks = ws._tasks.filter((x) => x !== id);
            run();
        });
        ws._tasks.push(id);
    }

    openSocket(ws) {
        const D = this.D;
        ws._n = this.sockets.length;
        ws._tasks = [];
        ws._sent = [];
        ws._t = this.mono;
        this.sockets.push(ws);
        const o = this.outcomeFor(this.sc.ws, this.wsCount, ws.url) || { k: 'open', d: 5, ev: [] };
        ws._o = o;
        this.t(`ws.new ${ws._n} ${ws.url}`);
        this.m.onWsNew(ws);
        if (o.k === 'hang') {
            this.fault('ws-hang');
            return;
        }
        if (o.k === 'refuse') {
            this.fault('ws-refuse');
            this.wsTask(ws, o.d || 0, 'refused', () => {
                ws.readyState = 3;
                this.t(`ws.refused ${ws._n}`);
                this.m.onWsRefused(ws);
                ws._fire('error', new D.Event('error'));
                ws._fire('close', new D.CloseEvent('close', { code: 1006 }));
            });
            return;
        }
        this.wsTask(ws, o.d || 0, 'open', () => {
            ws.readyState = 1;
            this.t(`ws.open ${ws._n}`);
            this.m.onWsOpen(ws);
            ws._fire('open', new D.Event('open'));
            let at = 0;
            for (const e of o.ev || []) {
                at += e[0];
                this.wsTask(ws, at, e[1], () => {
                    if (ws.readyState !== 1) return;
                    if (e[1] === 'msg') {
                        this.t(`ws.msg ${ws._n} ${JSON.stringify(e[2])}`);
                        this.m.onWsMsg(ws, e[2]);
                        ws._fire('message', new D.MessageEvent('message', { data: e[2] }));
                    } else if (e[1] === 'bin') {
                        this.fault('ws-binary');
                        ws._fire('message', new D.MessageEvent('message', { data: new ArrayBuffer(3) }));
                    } else {
                        this.fault(e[1] === 'error' ? 'ws-error' : 'ws-drop');
                        for (const id of ws._tasks) this.cancel(id);
                        ws._tasks = [];
                        ws.readyState = 3;
                        this.t(`ws.lost ${ws._n}`);
                        this.m.onWsLost(ws);
                        if (e[1] === 'error') ws._fire('error', new D.Event('error'));
                        ws._fire('close', new D.CloseEvent('close', { code: e[1] === 'error' ? 1006 : 1000 }));
                    }
                });
            }
        });
    }

    // ---- the loop
    loadDriver() {
        const names = Object.keys(this.globals);
        const fn = new Function(...names, `"use strict";\n${this.driverSource}`);
        fn(...names.map((k) => this.globals[k]));
    }

    next() {
        let first = null;
        for (const t of this.tasks.values()) {
            if (first === null || t.at < first.at || (t.at === first.at && t.seq < first.seq)) first = t;
        }
        if (first === null) return null;
        const limit = Math.max(this.mono, first.at);
        const heads = new Map();
        for (const t of this.tasks.values()) {
            if (t.at > limit) continue;
            const h = heads.get(t.source);
            if (!h || t.at < h.at || (t.at === h.at && t.seq < h.seq)) heads.set(t.source, t);
        }
        const list = [...heads.values()].sort((a, b) => (a.source < b.source ? -1 : 1));
        if (list.length === 1) return list[0];
        return list[this.tie.int(list.length)];
    }

    nextAt() {
        let at = Infinity;
        for (const t of this.tasks.values()) if (t.at < at) at = t.at;
        return at;
    }

    async step() {
        const task = this.next();
        if (task === null) return false;
        if (task.at > this.mono) {
            if (task.at - Math.max(this.mono, this.lastRun || 0) >= 100 + (this.sc.clamp || 0)) this.m.onCalm(this.mono);
            this.mono = task.at;
        }
        this.tasks.delete(task.id);
        this.steps++;
        this.lastRun = this.mono;
        this.order.push(task.label);
        this.t(`@${this.mono} ${task.source} ${task.label}`);
        this.m.onTask(task);
        try {
            task.run();
        } catch (err) {
            this.uncaught(task.source, err);
        }
        await drainMicrotasks();
        this.m.onTaskEnd(task);
        return true;
    }

    stall(ms) {
        this.fault('stall');
        this.mono += ms;
        this.stallTotal = (this.stallTotal || 0) + ms;
        this.lastStall = this.mono;
        this.m.onStall && this.m.onStall(ms);
    }
    jump(ms) {
        this.fault(ms < 0 ? 'clock-back' : 'clock-forward');
        this.wallOffset += ms;
        this.m.onJump && this.m.onJump(ms);
    }
}

function makeStorage() {
    const m = new Map();
    return {
        getItem: (k) => (m.has(k) ? m.get(k) : null), setItem: (k, v) => m.set(String(k), String(v)),
        removeItem: (k) => m.delete(k), clear: () => m.clear(), get length() { return m.size; },
    };
}

module.exports = { Browser, drainMicrotasks };
