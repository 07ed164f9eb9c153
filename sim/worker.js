'use strict';
// One worker: executes simulated runs it is handed, one at a time.
const workerData = JSON.parse(process.argv[2]);
const post = (m) => { if (process.connected) process.send(m, () => {}); };
process.on('disconnect', () => process.exit());
process.on('SIGTERM', () => process.exit());
const { engineFor } = require('./engines');

(async () => {
    const engine = engineFor(workerData.prop);
    const assets = await engine.load(workerData);
    post({ type: 'ready' });
    process.on('message', async (msg) => {
        try {
            if (msg.type === 'seeds') {
                for (let seed = msg.from; seed < msg.to; seed++) {
                    post({ type: 'begin', seed });
                    const sc = engine.generate(seed, workerData.prop);
                    const r = await engine.run(sc, assets, {});
                    post({ type: 'run', seed, r: slim(r), sc: r.fails.length ? sc : undefined });
                }
                post({ type: 'idle' });
            } else if (msg.type === 'one') {
                const r = await engine.run(msg.sc, assets, { keepTrace: msg.keepTrace, ...(msg.opts || {}) });
                post({ type: 'done', id: msg.id, r });
            }
        } catch (err) {
            post({ type: 'error', msg: String(err && err.stack || err) });
        }
    });
})().catch((err) => post({ type: 'error', msg: String(err && err.stack || err) }));

function slim(r) {
    const { trace, ...rest } = r;
    return rest;
}
