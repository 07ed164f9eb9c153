'use strict';
// Executes one scenario: one simulated page with its user, network, sockets and clocks, followed by the
// reference model. Everything that happens is a function of the scenario and the code.
const crypto = require('crypto');
const { Browser, drainMicrotasks } = require('./browser');
const { Model } = require('./model');

let gcFn = null;
function gc() {
    if (!gcFn) {
        require('v8').setFlagsFromString('--expose-gc');
        gcFn = require('vm').runInNewContext('gc');
    }
    gcFn();
}

const BUBBLES = new Set(['click', 'input', 'change', 'keydown', 'mousedown', 'mouseup', 'drop']);

function docElements(b) {
    const out = [];
    const walk = (n) => {
        for (const k of n._kids || []) {
            if (k.nodeType === 1) {
                out.push(k);
                walk(k);
            }
        }
    };
    if (b.document.body) walk(b.document.body);
    return out;
}

const valueless = (el) => el.value === undefined;

function pickTarget(b, m, type, k) {
    const all = docElements(b).filter((e) => m.vnodeOf.has(e) && e.getAttribute('id') !== 'ctl');
    let list = all;
    if (type === 'input') list = all.filter((e) => e.localName === 'input' || e.localName === 'textarea');
    if (type === 'change') list = all.filter((e) => ['input', 'textarea', 'select'].includes(e.localName));
    if (k % 4 !== 0) {
        const bound = list.filter((e) => m.vnodeOf.get(e).on.some((h) => h.ev === type) || (type === 'click' && e.localName === 'a'));
        if (bound.length) list = bound;
    }
    return list.length ? list[Math.floor(k / 4) % list.length] : null;
}

function makeEvent(b, m, type, el, data) {
    const D = b.D;
    const d = data || {};
    const init = { bubbles: BUBBLES.has(type), cancelable: !['input', 'change', 'mouseenter', 'mouseleave', 'blur', 'load'].includes(type) };
    let payload = null;
    let event;
    switch (type) {
        case 'input':
        case 'change':
            if (d.v !== undefined) {
                b.simAct = true;
                el.value = d.v;
                b.simAct = false;
            }
            payload = el.value;
            event = type === 'input' ? new D.InputEvent('input', init) : new D.Event('change', init);
            break;
        case 'keydown':
            payload = [d.key || 'a', d.code || 'KeyA', !!d.alt, !!d.ctrl, !!d.shift, !!d.meta];
            event = new D.KeyboardEvent('keydown', { ...init, key: payload[0], code: payload[1], altKey: payload[2], ctrlKey: payload[3], shiftKey: payload[4], metaKey: payload[5] });
            break;
        case 'blur':
            event = new D.FocusEvent('blur', init);
            break;
        case 'load':
            event = new D.Event('load', init);
            break;
        case 'drop': {
            const files = d.files || [];
            payload = files.map((f) => [f.name, f.data]);
            const items = files.map((f, n) => ({
                kind: 'file', type: '',
                getAsFile: () => ({
                    name: f.name,
                    arrayBuffer: () => new Promise((res, rej) => {
                        b.schedule(f.d || 0, 'file', 'file' + n, () => (f.fail ? rej(new D.DOMException('The requested file could not be read', 'NotReadableError')) : res(Uint8Array.from(f.data).buffer)));
                    }),
                }),
            }));
            event = new D.DragEvent('drop', { ...init, dataTransfer: { items, files: [], types: ['Files'] } });
            break;
        }
        default:
            event = new D.MouseEvent(type, init);
    }
    return { event, payload };
}

async function runScenario(sc, assets, opts = {}) {
    const m = new (opts.Model || Model)(sc);
    const b = new Browser({
        scenario: sc, driverSource: assets.drivers[sc.driver === 'bundle' ? 'bundle' : 'ts'], wasmModule: assets.wasmModule, wasmBytes: assets.wasmBytes,
        observer: m, trackNodes: !!sc.cycle,
    });
    m.attach(b);

    const act = (a) => {
        const [kind, x, y, z] = a;
        switch (kind) {
            case 'ops': {
                const ctl = b.document.getElementById('ctl');
                if (!ctl) {
                    m.count('skipped-actions');
                    return;
                }
                b.simAct = true;
                ctl.value = JSON.stringify(x);
                b.simAct = false;
                const event = new b.D.InputEvent('input', { bubbles: true });
                m.beginEvent(event, null, { ctl: true });
                b.dispatchTo(ctl, event);
                m.endEvent();
                break;
            }
            case 'ev': {
                const el = pickTarget(b, m, x, y);
                if (!el) {
                    m.count('skipped-actions');
                    return;
                }
                const { event, payload } = makeEvent(b, m, x, el, z);
                const opts2 = {};
                if (x === 'drop') {
                    opts2.async = true;
                    if (!z.files || z.files.length === 0 || z.files.some((f) => f.fail)) opts2.ignored = true;
                }
                if (x === 'input' || x === 'change') {
                    if (valueless(el)) opts2.ignored = true;
                }
                const link = x === 'click' ? m.linkClick(el) : null;
                m.beginEvent(event, payload, opts2);
                b.dispatchTo(el, event);
                m.endEvent();
                if (link) m.linkDone(link, event);
                if (x === 'click' && !event.defaultPrevented) {
                    const a2 = el.closest('a');
                    const href = a2 && a2.getAttribute('href');
                    if (href && href.startsWith('#')) b.userHash(href);
                }
                break;
            }
            case 'back': b.traverse(-1); b.fault('user-back'); break;
            case 'fwd': b.traverse(1); b.fault('user-forward'); break;
            case 'hash': b.userHash(x); b.fault('user-address'); break;
            case 'stall': b.stall(x); break;
            case 'wall': b.jump(x); break;
            case 'snap': wantSnap = true; break;
            default: throw new Error('unknown action ' + kind);
        }
    };

    let wantSnap = false;
    const snaps = [];
    const script = (sc.script || []).slice();
    if (sc.cycle) {
        // the same actions again and again, each time back to the same state
        let t = script.length ? script[script.length - 1][0] + 500 : sc.cycleFrom;
        for (let k = 0; k < sc.cycles; k++) {
            for (let rep = sc.doubling ? 2 ** k : 1; rep > 0; rep--) {
                for (const [dt, ...a] of sc.cycle) {
                    t += dt;
                    script.push([t, ...a]);
                }
                t += 20;
                for (const ops of sc.cycleEnd) script.push([t, 'ops', ops]);
                t += sc.settle;
            }
            script.push([t, 'snap']);
            t += 50;
        }
    }
    const tail = sc.tail === undefined ? 2500 : sc.tail;
    let end = 0;
    let last = 0;
    for (const line of script) {
        const [t, ...a] = line;
        if (t > last) last = t;
        b.schedule(t, 'user', 'u:' + a[0], () => {
            act(a);
            if (b.mono + tail > end) end = b.mono + tail;
        });
    }
    if (sc.loadAt !== null && sc.loadAt !== undefined) {
        b.schedule(sc.loadAt, 'page', 'load', () => {
            b.document.readyState = 'complete';
            b.dispatchTo(b.window, new b.D.Event('load'));
        });
    }
    b.loadDriver();
    await drainMicrotasks();

    const cap = sc.cap || 4000;
    const quiet = 100 + (sc.clamp || 0);
    end = Math.max(end, last + tail, 3000 + tail);
    const hardEnd = end + 120000;
    const heavy = () => !sc.cycle && (m.counts.commands || 0) > 120000;
    while (b.steps < cap && !heavy() && !m.stop) {
        const at = b.nextAt();
        if (at === Infinity) {
            m.onCalm(b.mono);
            break;
        }
        if (at > end) {
            // keep going while something is still owed, then stop at the next calm moment
            const owed = b.pendingNet > 0 || m.owes();
            if (owed && at < hardEnd) {
                end = at;
            } else {
                if (at - b.mono >= quiet) {
                    m.onCalm(b.mono);
                    break;
                }
                if (b.mono > end + 6000) break;
            }
        }
        await b.step();
        if (wantSnap) {
            wantSnap = false;
            if (!m.stop && !b.dead) {
                const c = b.census(gc);
                const { shape, ...rest } = c;
                b.t('census ' + JSON.stringify(rest));
                snaps.push(c);
            }
        }
    }
    if (sc.cycle && !m.stop && snaps.length === sc.cycles && m.judgeSnaps(snaps, sc.doubling)) {
        m.count('cycles-prolonged');
        return runScenario({ ...sc, cycles: sc.cycles + 2, cap: sc.cap * 5 }, assets, opts);
    }
    if (b.steps >= cap || heavy()) m.count('capped');
    if (!m.stop) m.final();
    const text = b.trace.join('\n');
    const res = {
        fails: m.fails,
        counts: m.counts,
        faults: b.faults,
        steps: b.steps,
        simMs: b.mono,
        orderHash: crypto.createHash('sha1').update(b.order.join('|')).digest('hex').slice(0, 16),
        traceHash: crypto.createHash('sha1').update(text).digest('hex'),
        checks: m.checks,
        pageSize: b.pageSize || 0,
        shown: m.shown,
        nontrivial: m.nontrivial(),
        knownSeen: m.knownSeen,
    };
    if (opts.keepTrace) res.trace = b.trace;
    if (opts.inspect) opts.inspect(b, m);
    return res;
}

module.exports = { runScenario };
