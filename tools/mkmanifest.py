#!/usr/bin/env python3
# Generates /verif/MANIFEST.json (kept as a script so that claimed / unclaimed lists stay in step with properties.jsonl).
import json,jsonschema
SSR=set('C18 C19 C20 C21 C22 C23'.split())
UNCLAIMED={
 'N01':'a pure function of one value: no schedule, clock, I/O, fault or second party for a simulation to control; property-based testing or proof is the right tool',
 'N02':'a pure function of a style text: no schedule, clock, I/O or fault involved',
 'N03':'happens at compile time in a procedural macro: there is no execution to schedule or to inject faults into',
 'N04':'a pure function of an address and a configuration: no schedule, clock or fault involved',
}
NOTE={
 'default':'Seeded search over programs, histories, schedules and faults; no proof. Trusts the simulated browser (DOM, timers, fetch, WebSocket, history, cookies), the executable reference model, rustc and node.',
 'ssr':'Seeded search over programs, page requests, backend behaviours and schedules; no proof. Runs the real server request loop and wasm host in simulated time; trusts the simulated backend transport, the reference model, wasmtime, tokio\'s paused clock.',
 'C25':'Seeded search over change and build timings, outcomes, full disks, connections and thread scheduling. The watch loop, build steps, page server, status stream and the script of the pages are real; cargo, rustup, wasm-opt, the notification of file changes, sockets and browsers are stand-ins.',
 'C28':'Seeded search over proxies, requests, their framing and timing, and the behaviour of backends and clients; no proof. Runs the real router, proxy, static files, page handler and HTTP/1 connection code over pipes inside the process; trusts the simulated backend transport (below reqwest), the response parser of the oracle and tokio\'s paused clock.',
 'C27':'Seeded search over destination states, failing file system calls, crash points and tool failures. The commands are real and run on a real scratch directory, as an unprivileged user, each in a process of its own; cargo, rustup and wasm-opt are stand-ins. What a loss of power does to unsynced data is not simulated.',
}
HOOK_COMMITS=['e0fdb3676c0d6a0195b075b01debf6a43095b72a','4d8e175c1c13e1364e0efa12550dcace5d1f6f67','f8d305a8cd1fd94a39ab0e4a9993b82cb604ed1f']
props=[json.loads(l)['id'] for l in open('/verif/properties.jsonl')]
checks=[]
for p in props:
    if p in UNCLAIMED: continue
    note=NOTE.get(p) or (NOTE['ssr'] if p in SSR else NOTE['default'])
    checks.append(dict(property=p,quick_cmd=f'./check.sh {p} --tier quick',thorough_cmd=f'./check.sh {p} --tier thorough',
      technique='deterministic simulation with fault injection: seeded search over schedules, faults and histories against an executable reference model',
      level='exploration',level_note=note))
m=dict(version=1,setup_cmd='./build.sh both',
  hooks=dict(guard='cfg(vertigo_sim)',enable='RUSTFLAGS="--cfg vertigo_sim" in /verif/build.sh, with target directories under /verif/target',source_commits=HOOK_COMMITS),
  checks=checks,not_applicable=[dict(property=k,reason=v) for k,v in UNCLAIMED.items()])
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1); open('/verif/MANIFEST.json','a').write('\n')
print(len(checks),'checks')
