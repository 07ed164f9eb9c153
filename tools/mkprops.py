#!/usr/bin/env python3
# Generates /verif/properties.jsonl (kept as a script so that the list is easy to review and edit).
import json
V='crates/vertigo/src/'; J=V+'driver_module/src_js/'; S='crates/vertigo-cli/src/serve/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=hook))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    P.append(d)

p('C01','Derived values are always consistent with their sources (no glitches)',
 'After every event, each computed value that anyone observes, and each value last delivered to a subscriber, equals what re-evaluating its definition over the current source values gives. A reader never sees a derived value computed from a mixture of old and new sources, and a read inside a transaction sees the writes already made by that transaction.',
 ['programs','histories','schedules'],'Every dependency graph (dynamic dependencies, diamonds, chains, list values), every sequence of writes grouped in any way into transactions, every order of subscribing and unsubscribing, writes arriving from events, timers, tasks and network responses.',
 'The unit tests exercise a few fixed graphs with a handful of writes; consistency is a statement over all graphs, histories and interleavings of asynchronous writers.',
 [V+'computed/value.rs',V+'computed/computed_box.rs',V+'computed/graph_value.rs',V+'computed/dependencies/graph.rs',V+'computed/dependencies/graph_connections.rs',V+'computed/dependencies/refresh.rs',V+'computed/dependencies/transaction_state.rs'],
 [('invalidation of dependants on write and recomputation in creation order',V+'computed/dependencies/graph.rs'),('dependency recording through Context',V+'computed/context.rs')],
 ['values passed to subscriber callbacks','values returned by reads inside event handlers','rendered document'])
p('C02','Subscribers are notified once per transaction, after it ends, only on change',
 'All writes of an outermost transaction become visible to subscribers together, after that transaction has finished: a subscriber is called at most once per transaction, never for an intermediate state, and only when the value it observes differs from the one it was last given. A subscriber of a value that did change is always called.',
 ['programs','histories','schedules'],'Every nesting of transactions, every set of writes (including writes that restore the old value), every graph between the written values and the subscribers.',
 'Tests check single writes and one or two nested transactions; the guarantee is about every batch of writes and every graph.',
 [V+'computed/dependencies/transaction_state.rs',V+'computed/dependencies/mod.rs',V+'computed/graph_value.rs',V+'computed/value.rs'],
 [('transaction depth counter and refresh at outermost end',V+'computed/dependencies/transaction_state.rs'),('equality check before calling a client',V+'computed/graph_value.rs')],
 ['order and content of subscriber callbacks'])
p('C03','A dropped subscription is silent and external sources are live iff observed',
 'Once a subscription is dropped its callback is never invoked again, also when it is dropped from inside another callback of the same update. A connectable source that is used only through subscriptions and mounted views is connected exactly while at least one of them depends on it (directly or through derived values), is connected once however many observers it has, and is released when the last one goes.',
 ['histories','programs','schedules'],'Every history of subscribing, reading, unsubscribing, conditionally depending and mounting or unmounting views.',
 'Tests contain one connect/disconnect sequence; the guarantee quantifies over all histories and all shapes of dependency.',
 [V+'computed/value.rs',V+'computed/drop_resource.rs',V+'computed/dependencies/external_connections.rs',V+'computed/dependencies/graph_connections.rs',V+'computed/dependencies/graph_one_to_many.rs'],
 [('DropResource unregisters the client',V+'computed/drop_resource.rs'),('external connections follow graph edges',V+'computed/dependencies/external_connections.rs')],
 ['connect/disconnect callbacks','subscriber callbacks'])
p('C04','The document always equals a fresh rendering of the current state',
 'After every event has been processed, the page in the browser (elements, nesting, order, text, attributes, classes) is exactly what rendering the component tree from scratch with the current values would produce. No stale, duplicated, missing or misplaced node ever remains, whatever sequence of changes led there.',
 ['programs','histories','schedules'],'Every component tree built from static markup, dynamic text, dynamic and optional attributes, conditional views, lists and nested combinations; every history of state changes, batched in any way and arriving from any source.',
 'Tests render a tree once and compare the command list; no test applies sequences of updates to a real document and compares with a fresh rendering.',
 [V+'render/dom_value.rs',V+'render/dom_list.rs',V+'dom/dom_element.rs',V+'dom/dom_text.rs',V+'dom/dom_comment.rs',V+'dom/dom_node.rs',V+'driver_module/dom.rs',V+'driver_module/dom_command.rs',J+'api_browser/dom/dom.ts',J+'api_browser/dom/map_nodes.ts'],
 [('buffered command list flushed at the end of every transaction',V+'driver_module/dom.rs'),('application of command batches to the real document',J+'api_browser/dom/dom.ts')],
 ['the document after each event','DOM command batches'])
p('C05','Keyed lists keep order and identity',
 'A keyed list always shows its items in data order, and an item rendered as an element whose key is still present keeps that very same document element (and so its focus, input and inner state) across any insertion, removal or permutation. Nodes of removed keys leave the document and nodes are created only for new keys.',
 ['histories','inputs'],'Every sequence of list contents with unique keys, for items that render to an element, text, several nodes or a nested dynamic view.',
 'Tests check a few hand-written permutations at command level; order and identity must hold for every pair of successive lists.',
 [V+'render/dom_list.rs',V+'dom/dom_node.rs',V+'dom/dom_comment.rs',J+'api_browser/dom/dom.ts'],
 [('top/bottom matching and key-based reuse',V+'render/dom_list.rs')],
 ['document children and node identity after each update'])
p('C06','Every user event reaches exactly the current handlers, once, with its data',
 'Each browser event on a mounted element runs the handler currently bound to that element and event kind exactly once, with the event\'s own payload, and the handler\'s decision to consume it (prevent default, stop propagation) is honoured. After the element or handler is removed or replaced, the old handler is never run; a file drop is delivered once all its files have been read, and not at all if it holds no files or one cannot be read.',
 ['histories','schedules','inputs'],'Every mix of events of every supported kind interleaved with re-rendering, handler replacement, list changes and asynchronous activity.',
 'There are no tests that dispatch events; the handler registry lives on both sides of the wasm boundary.',
 [V+'dom/dom_element.rs',V+'dom/callback.rs',V+'driver_module/api/callbacks.rs',J+'api_browser/dom/dom.ts',V+'driver_module/dom.rs'],
 [('callback ids registered in the document on mount and removed on drop',V+'dom/dom_element.rs'),('event dispatch',J+'api_browser/dom/dom.ts')],
 ['handler invocations','preventDefault/stopPropagation calls'])
p('C07','Nothing outlives its owner: no leaked nodes, handlers, timers, sockets or memory',
 'When views, subscriptions, timers, connections and requests have ended, everything they acquired on the browser side and across the language boundary has been released: returning to an earlier state returns the number of live nodes, event listeners, registered callbacks, timers, sockets and transfer buffers to what it was in that state.',
 ['histories','schedules','fault_sequences'],'Every history that mounts and unmounts views, opens and closes connections, completes or fails requests, in every order.',
 'Leak freedom is a statement over unbounded histories; no test counts resources.',
 [V+'driver_module/api/callbacks.rs',V+'driver_module/api/arguments.rs',V+'computed/drop_resource.rs',V+'dom/dom_element.rs',J+'api_browser/dom/dom.ts',J+'api_browser/dom/map_nodes.ts',J+'wasm_module.ts'],
 [('DropResource chain',V+'computed/drop_resource.rs'),('alloc/free of argument blocks',V+'driver_module/api/arguments.rs')],
 ['size of the node registry, listener sets, timers, sockets','alloc/free calls at the boundary'])
p('C08','Page updates are atomic and well formed',
 'Once the page is shown, all document changes caused by one event are handed to the browser as one batch after the event\'s handlers have finished, never in the middle. Every batch refers only to nodes that exist at that point (or are created in it) and applies without error.',
 ['programs','histories','schedules'],'Every program and history, including events delivered while others are pending and renders triggered by nested transactions.',
 'No test observes batching; command validity is only checked for a few fixed renders.',
 [V+'driver_module/dom.rs',V+'driver_module/dom_command.rs',V+'computed/dependencies/hook.rs',J+'api_browser/dom/dom.ts'],
 [('flush on the end-of-transaction hook',V+'driver_module/dom.rs'),('ordering of removal commands inside a batch',V+'driver_module/dom_command.rs')],
 ['DOM command batches','console errors of the browser driver'])
p('C09','Spawned tasks run to completion exactly once and never lose a wake-up',
 'A spawned task makes progress whenever what it awaits has completed, in whatever order the awaited things complete, and each of its steps runs exactly once. A sleep completes no earlier than its duration and, once due, after a bounded number of events.',
 ['schedules','programs','fault_sequences'],'Every set of tasks awaiting sleeps, fetches and each other in every completion order, including completions delivered within the same turn and long delays.',
 'Tests do not run the executor against timers at all; wake-up loss depends on interleavings.',
 [V+'driver_module/utils/futures_spawn.rs',V+'future_box.rs',V+'driver_module/driver.rs'],
 [('task queue re-armed through a zero timeout',V+'driver_module/utils/futures_spawn.rs'),('FutureBox waker hand-off',V+'future_box.rs')],
 ['step logs of tasks'])
p('C10','Timers fire on schedule and never after being released',
 'A one-shot timer fires exactly once and not before its time; an interval fires once per elapsed period while its handle is alive. After the handle of an interval is dropped it never fires again, even if the drop and the expiry coincide.',
 ['schedules','histories'],'Every set of timers, every drop instant, coalesced or delayed timer delivery.',
 'No test drives timers; drop/expiry races need a controlled clock.',
 [V+'driver_module/driver.rs',V+'driver_module/api/api_import.rs',J+'api_browser/interval.ts'],
 [('interval handle clears the timer on drop',V+'driver_module/api/api_import.rs')],
 ['timer callbacks with simulated time'])
p('C11','Every request gets exactly its own outcome',
 'Each HTTP request issued by the program is sent once with the given method, address, headers and body, and its issuer receives exactly one outcome: the status and body of that very response, or an error when the network failed. This holds however many requests are in flight and in whatever order, with whatever delay or failure, they complete.',
 ['schedules','fault_sequences','inputs'],'Every set of concurrent requests, every completion order, delays, connection errors, errors while reading the body, every status and content type.',
 'No test performs a request; matching of responses to callers depends on completion order.',
 [V+'fetch/request_builder.rs',V+'driver_module/driver.rs',V+'driver_module/api/api_import.rs',J+'api_browser/fetch.ts'],
 [('one-shot callback per request',V+'driver_module/api/api_import.rs'),('response classification',J+'api_browser/fetch.ts')],
 ['outgoing requests at the network','results in the awaiting task'])
p('C12','Cached resources load once, expire on time and always settle',
 'A cached resource issues at most one request at a time however many readers it has, serves the cached result without a request until its time to live has passed, and loads again when read after that or when told to refresh. Whenever its request settles, in success or any kind of failure, readers see ready or error accordingly: it is never left loading.',
 ['schedules','fault_sequences','histories'],'Every pattern of reads, refreshes, unmounts, time advances, response delays, errors and malformed responses.',
 'No test covers the cache; single flight and expiry are statements about interleavings with the clock and the network.',
 [V+'fetch/lazy_cache.rs',V+'fetch/resource.rs',V+'fetch/request_builder.rs',V+'instant.rs'],
 [('queued flag guarding the loader',V+'fetch/lazy_cache.rs'),('expiry instant',V+'fetch/lazy_cache.rs')],
 ['outgoing requests','resource values seen by readers'])
p('C13','The first page appears only when initial data has settled, and always appears',
 'Nothing of the page is shown before all data requests outstanding since the first rendering have settled, so the first thing shown contains their outcomes. Once they have settled, successfully or not, the page is shown without waiting for anything else.',
 ['schedules','fault_sequences'],'Every number of initial requests, chained or parallel, completing in any order with any mix of success and failure.',
 'No test covers the initial barrier; it is a counter updated from asynchronous completions.',
 [V+'driver_module/dom.rs',V+'driver_module/driver.rs',V+'lib.rs',V+'fetch/lazy_cache.rs',V+'driver_module/event_emitter.rs'],
 [('initial-fetch counter',V+'driver_module/dom.rs')],
 ['first DOM batch','outgoing requests'])
p('C14','A websocket client sees a faithful, ordered, self-healing connection',
 'While a websocket subscription is held, its owner sees alternating connected and closed notifications with, in between, exactly the messages delivered by that connection in order, and what it sends goes to the current connection in order. The client reconnects after any loss or failed attempt within bounded time, and after the subscription is dropped no notification is delivered and no connection is left open.',
 ['schedules','fault_sequences','histories'],'Every sequence of connection successes, refusals, hangs, drops, messages and errors, and every instant of dropping the subscription.',
 'No test opens a websocket; the behaviour is a state machine over timeouts and network faults.',
 [V+'websocket.rs',V+'driver_module/driver.rs',V+'driver_module/api/api_import.rs',J+'api_browser/websocket/websocket.ts',J+'api_browser/websocket/connection.ts'],
 [('connect/reconnect loop',J+'api_browser/websocket/connection.ts'),('callback registration and removal',J+'api_browser/websocket/websocket.ts')],
 ['notifications received by the program','sockets opened and closed'])
p('C15','The route value and the address bar never disagree',
 'After every event the program\'s current route equals the route denoted by the browser\'s address, whether the change came from the program (push or replace), from the user (back, forward, edited address) or from both in quick succession. Programmatic navigation adds or replaces exactly one history entry as requested, in applications that use one kind of router.',
 ['histories','schedules','inputs'],'Every interleaving of programmatic navigation and browser navigation, for path and fragment routing, including unusual addresses.',
 'No test simulates the browser history.',
 [V+'router.rs',V+'driver_module/driver.rs',V+'driver_module/api/api_import.rs',J+'api_browser/hashrouter.ts',J+'api_browser/historyLocation.ts'],
 [('location listener feeding the route value',V+'router.rs'),('navigation on write',J+'api_browser/historyLocation.ts')],
 ['route value','history entries'])
p('C16','The suspense indicator is on exactly while something below it is loading',
 'An element that declares a loading style carries it exactly while at least one loading placeholder is mounted in the subtree of its parent, however placeholders appear, disappear and move. Its other classes are unaffected.',
 ['histories','programs','schedules'],'Every tree with nested loading placeholders and every history of loads completing, failing, restarting and views being replaced.',
 'Tests cover the bookkeeping functions on fixed paths, not the mounted behaviour over histories.',
 [V+'driver_module/dom_suspense/dom_suspense_mod.rs',V+'driver_module/dom_suspense/dom_connection.rs',V+'driver_module/dom_suspense/node_paths.rs',V+'dom/dom_element.rs',V+'dom/dom_element_class.rs'],
 [('path set of loading nodes',V+'driver_module/dom_suspense/node_paths.rs')],
 ['class attribute of elements in the document'])
p('C17','Styles are defined before use, once, and never confused',
 'Every generated class name appearing in the document has its rule present in the page\'s stylesheet no later than the element carrying it, equal styles given in the same way (fixed or computed) share one rule, and different styles never share a name. This holds when styles first appear at any time through dynamic changes.',
 ['histories','programs'],'Every history of static and dynamic styles being introduced by renders and updates.',
 'Tests check the textual transformation only.',
 [V+'css/css_manager.rs',V+'css/transform_css/mod.rs',V+'dom/dom_element_class.rs',V+'driver_module/dom.rs',J+'api_browser/dom/dom.ts'],
 [('registration on first use',V+'css/css_manager.rs')],
 ['stylesheet and class attributes in the document'])
p('C18','Server rendering answers every page request exactly once, in bounded time',
 'For every page request the server produces exactly one response: as soon as all data requests made by the page have settled, or after ten seconds with what has been rendered so far if some never settle. No behaviour of the backends (errors, hangs, malformed bodies, late answers after the response) can prevent, duplicate or delay it further.',
 ['schedules','fault_sequences'],'Every set of data requests, chained or concurrent, with every timing and failure of the backends, and any number of simultaneous page requests.',
 'Tests never run the request loop; only pure helpers are tested.',
 [S+'server_state.rs',S+'html/html_response.rs',S+'html/send_request.rs',S+'wasm/wasm_instance.rs'],
 [('message loop with a timeout task',S+'server_state.rs')],
 ['responses of the page handler on the simulated clock'],'simulated transport and clock for the server')
p('C19','Server-rendered HTML is the page the program describes',
 'The HTML returned for a page request parses to exactly the document the program describes for that address, environment and the data that had arrived: same elements, order, text and attributes, with styles, and with the environment and bootstrap script added. A plain-text answer requested by the program is returned verbatim instead.',
 ['programs','inputs','schedules'],'Every component tree and every history of updates that occur while the data arrives, for any address and environment.',
 'Tests serialise a few fixed trees; they never run a program through the server.',
 [S+'html/element.rs',S+'html/element_children.rs',S+'html/html_element.rs',S+'html/html_response.rs',S+'html/dom_command.rs',S+'html/ordered_map.rs',S+'wasm/decode_commands.rs',S+'response_state.rs'],
 [('command interpretation on the server',S+'html/element.rs'),('serialisation',S+'html/html_element.rs')],
 ['response body'],'simulated transport and clock for the server')
p('C20','During server rendering equal data requests are fetched once and shared',
 'While rendering one page, requests that are equal in method, address, headers and body reach the backend once, and every issuer receives that answer; requests that differ in anything are fetched separately and never receive each other\'s answer.',
 ['schedules','inputs','fault_sequences'],'Every set of equal and different requests issued before, during and after the first one\'s completion, in every completion order.',
 'No test runs the fetch path of the server.',
 [S+'html/html_response.rs',S+'wasm/message.rs',S+'html/send_request.rs',V+'driver_module/js_value/js_json_struct.rs'],
 [('table of requests with waiting callbacks',S+'html/html_response.rs'),('request equality and hashing',S+'wasm/message.rs')],
 ['requests reaching the backend','answers received by the program'],'simulated transport for the server')
p('C21','Page requests are isolated and rendering is repeatable',
 'What one page request renders never depends on other requests, earlier or concurrent: the same address with the same backend data gives byte-for-byte the same response, whatever else the server is doing.',
 ['schedules','histories'],'Every number of concurrent requests for equal and different pages, every interleaving of their backend answers.',
 'No test issues concurrent requests.',
 [S+'server_state.rs',S+'wasm/wasm_instance.rs',S+'html/html_response.rs',S+'serve_run.rs'],
 [('fresh program instance and message channel per request',S+'server_state.rs')],
 ['response bodies of concurrent runs'],'simulated transport and clock for the server')
p('C22','A program failure during server rendering is contained',
 'If the program panics or traps while a page is being rendered, at whatever point, that request is answered with an internal-error status and no other request, earlier, concurrent or later, is affected.',
 ['crash_points','schedules','fault_sequences'],'Every point at which the program can fail: initialisation, first render, after a data response, in a task; with any other requests in flight.',
 'No test makes the program fail.',
 [S+'server_state.rs',S+'wasm/wasm_instance.rs',S+'html/html_response.rs',V+'driver_module/api/panic_message.rs'],
 [('panic message turned into an error response',S+'html/html_response.rs')],
 ['response status; other responses'],'simulated transport and clock for the server')
p('C23','Server-rendered page and first browser page are the same',
 'For the same program, address, environment and backend data, the document the server sends and the first document the browser shows are the same apart from formatting white space, the wording of error messages of the platform and what the browser runtime itself adds, provided that the first rendering asks for all the data of the page and it arrives within the time limit. Hence a visitor never sees content change when the program takes over.',
 ['programs','inputs','schedules'],'Every component tree, every data set, every arrival order of the data.',
 'No test runs one program in both environments.',
 [S+'html/html_response.rs',S+'html/element.rs',J+'api_browser/dom/dom.ts',V+'driver_module/dom.rs',V+'fetch/lazy_cache.rs'],
 [('same command stream interpreted on both sides','crates/vertigo-cli/src/serve/html/element.rs and '+J+'api_browser/dom/dom.ts')],
 ['response body','document after first flush'],'simulated transport and clock for the server')
p('C24','Clock anomalies never break the program',
 'If the system clock jumps forwards or backwards at any moment the program does not fail, time measurements are never negative, and cached resources still settle and still refresh, at the latest when read once the clock has passed the expiry they recorded.',
 ['schedules','fault_sequences'],'Every jump size and instant, in the middle of loads, sleeps and intervals.',
 'The tests use the real clock only.',
 [V+'instant.rs',V+'fetch/lazy_cache.rs',V+'driver_module/api/api_import.rs'],
 [('elapsed time computation',V+'instant.rs')],
 ['program panics','resource values and outgoing requests'])
p('C25','Live reload ends on the newest build',
 'While watching, after the last source change a build of the newest sources is made, and the status connected browsers are told ends on its outcome: a version (announced only once that build is what requests are answered with) or errors if it failed. The outcome of a superseded build is never announced once a newer one has started, and open pages end up showing the newest build, or that it failed.',
 ['schedules','fault_sequences'],'Every timing of source changes relative to running builds, every build duration and outcome (compiler errors, full disk, lost file notifications), browsers connecting, disconnecting and loading pages at any time.',
 'No test covers watching.',
 ['crates/vertigo-cli/src/watch/watch_run.rs','crates/vertigo-cli/src/watch/sse.rs','crates/vertigo-cli/src/watch/watch_opts.rs','crates/vertigo-cli/src/watch/watch.js','crates/vertigo-cli/src/commons/spawn.rs','crates/vertigo-cli/src/build/build_run.rs'],
 [('abort of the superseded build task','crates/vertigo-cli/src/commons/spawn.rs'),('status channel','crates/vertigo-cli/src/watch/sse.rs')],
 ['status stream seen by a browser'],'page requests answered in the simulation')
p('C26','Values and calls crossing the language boundary arrive intact',
 'A call from the program into the browser (property read, method call, cookie or environment access) returns the value the browser holds (cookie lifetimes in whole seconds), and browser-to-program callbacks receive exactly the arguments given, also when memory grows or other calls happen in between. References to rendered elements address the element itself.',
 ['histories','schedules','inputs'],'Every sequence of interleaved calls and callbacks with values of any size and type the boundary supports.',
 'Tests encode and decode on one side only; the other side and memory growth are never exercised.',
 [V+'driver_module/api/api_dom_access.rs',V+'driver_module/api/arguments.rs',V+'dom/dom_element_ref.rs',J+'js_node.ts',J+'jsvalue.ts',J+'jsjson.ts',J+'buffer_cursor.ts',J+'wasm_module.ts',J+'api_browser/cookies.ts'],
 [('shared-memory argument blocks',V+'driver_module/api/arguments.rs'),('mirror codec',J+'jsvalue.ts')],
 ['values observed on both sides'])
# pure functions: no schedule, clock, fault or interleaving -> not applicable to this technique
p('C27','Generating, building and serving leave usable output or say that they failed',
 'A command that reports success has done all of it: `build` leaves exactly the program, runtime script, index and included files of this build (each under a name which stands for its content, the old output gone), `serve` then answers with that program, and `new` has written the whole project. Whatever call to the file system or external program fails, and wherever a command is ended, no existing file is touched by `new`, nothing half-written is served, and the next build on a healthy system succeeds.',
 ['configurations','crash_points','fault_sequences'],'Every destination state, every failing call to the file system, every point at which the command ends, every failure of the invoked tools.',
 'Tests do not run the commands.',['crates/vertigo-cli/src/new/mod.rs','crates/vertigo-cli/src/build/build_run.rs','crates/vertigo-cli/src/build/wasm_path.rs','crates/vertigo-cli/src/build/find_target.rs','crates/vertigo-cli/src/build/cargo_build.rs','crates/vertigo-cli/src/build/wasm_opt.rs','crates/vertigo-cli/src/serve/mount_path.rs'],
 [('file writes','crates/vertigo-cli/src/build/wasm_path.rs'),('external programs','crates/vertigo-cli/src/commons/command.rs')],['exit status and destination directory'],'page requests answered in the simulation')
p('C28','The front serves or proxies every request to exactly the party it is for',
 'A request below a proxied path causes one request to that proxy\'s target, with the same method, the rest of path and query unchanged and (POST) the same body, described by its own length, and end-to-end headers; the client gets the status, headers and body of the backend as soon as it has answered, or status 500 if it fails. Nothing is ever sent to an address outside the targets; a file below the public path is answered with exactly its content and nothing outside the served directory is; every other path is answered with a page. Silent or failing backends, malformed, slow, cut or pipelined requests and clients going away never keep another connection from its answers, in order.',
 ['inputs','schedules','fault_sequences'],'Every set of proxied paths, every sequence of requests on every number of connections, every behaviour of the backends.',
 'Tests start no server with a proxy and speak to no backend.',[S+'serve_run.rs',S+'mount_path.rs',S+'server_state.rs',S+'serve_opts.rs'],
 [('requests to targets',S+'serve_run.rs'),('HTTP connections','hyper server connection')],['bytes of the connections','requests received by the backends'],'bytes of the connections in the simulation')
p('N01','JSON derive round trip','Serialising any value of a type with derived JSON support and reading it back gives the same value, with renames, defaults and options honoured.',
 ['programs','inputs'],'Every type the derive accepts and every value.','Tests sample a few types.',['crates/vertigo-macro/src/jsjson/',V+'driver_module/js_value/serialize.rs'],[('derive','crates/vertigo-macro/src/')],['to_json/from_json results'])
p('N02','Style transformation keeps meaning','Translating a style block to selectors and rules preserves every declaration, pseudo-selector, media query and animation, for every input.',
 ['inputs'],'Every style text.','Tests sample a few texts.',[V+'css/transform_css/mod.rs',V+'css/transform_css/splits.rs'],[('splitter',V+'css/transform_css/splits.rs')],['generated rules'])
p('N03','Markup macros build what is written','The element described by a markup macro equals the markup written in it, for every accepted markup; anything else is a compile-time error.',
 ['programs'],'Every markup text.','Tests sample a few markups.',['crates/vertigo-macro/src/'],[('macro expansion','crates/vertigo-macro/src/')],['expanded code'])
p('N04','Static address mapping is injective and confined','Translating public addresses to files never leaves the served directory and maps back to the same address.',
 ['inputs'],'Every address and configuration.','Tests sample a few addresses.',[S+'mount_path.rs'],[('prefix translation',S+'mount_path.rs')],['translated paths'])
with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d)+'\n')
import jsonschema
sch=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for d in P:
    jsonschema.validate(d,sch); assert d['statement'].count('. ')<=2,(d['id'])
print(len(P))
