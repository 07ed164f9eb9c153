//! Runs the real development server (`vertigo watch`: the watch loop, the build steps, the page server, the
//! stream of statuses) in simulated time. One scenario per line on stdin (JSON), one result per line on stdout.
//! Every scenario runs in a process of its own, inside a scratch directory, as an unprivileged user.

mod files;

use futures::future::BoxFuture;
use futures::StreamExt;
use serde_json::{json, Value as J};
use std::any::Any;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::future::Future;
use std::io::{BufRead, Read, Write};
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::pin::Pin;
use std::process::{Command, ExitStatus, Output};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering};
use std::sync::{mpsc, Arc, Mutex, OnceLock};
use std::task::{Context, Poll, Waker};
use std::time::Duration;
use tokio::time::{sleep, Instant, Sleep};
use tower::ServiceExt;
use vertigo_cli::sim::World;

// ------------------------------------------------------------------ record
static LOG: Mutex<Vec<J>> = Mutex::new(Vec::new());
static START: OnceLock<Instant> = OnceLock::new();
static LAST: AtomicU64 = AtomicU64::new(0);
fn lock<T>(m: &Mutex<T>) -> std::sync::MutexGuard<'_, T> {
    m.lock().unwrap_or_else(|e| e.into_inner())
}
fn push(mut j: J) {
    if let (Some(start), Ok(_)) = (START.get(), tokio::runtime::Handle::try_current()) {
        LAST.store(start.elapsed().as_micros() as u64, Ordering::Relaxed);
    }
    if let J::Array(a) = &mut j {
        a.insert(0, json!(LAST.load(Ordering::Relaxed)));
    }
    lock(&LOG).push(j);
}
struct Logger;
impl log::Log for Logger {
    fn enabled(&self, m: &log::Metadata<'_>) -> bool {
        m.target().starts_with("vertigo")
    }
    fn log(&self, record: &log::Record<'_>) {
        if self.enabled(record.metadata()) && record.level() <= log::Level::Warn {
            push(json!(["log", record.level().as_str(), record.args().to_string()]));
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;

// ------------------------------------------------------------------ the scenario
fn num(j: &J, k: &str, d: u64) -> u64 {
    j.get(k).and_then(|x| x.as_u64()).unwrap_or(d)
}
fn flag(j: &J, k: &str) -> bool {
    j.get(k).and_then(|x| x.as_bool()).unwrap_or(false)
}
fn text<'a>(j: &'a J, k: &str, d: &'a str) -> &'a str {
    j.get(k).and_then(|x| x.as_str()).unwrap_or(d)
}
fn list(j: &J, k: &str) -> Vec<J> {
    j.get(k).and_then(|x| x.as_array()).cloned().unwrap_or_default()
}

// ------------------------------------------------------------------ tasks which can block
/// What the thread of a task is told to do.
enum Order {
    Poll(Waker),
    Resume,
    Quit,
}
/// What it answers.
enum Report {
    Pending,
    Ready,
    Panicked(Box<dyn Any + Send>),
    Blocked(u64),
    Gone,
}
struct Baton {
    orders: mpsc::Receiver<Order>,
    reports: mpsc::Sender<Report>,
}
thread_local! {
    static BATON: RefCell<Option<Baton>> = const { RefCell::new(None) };
}
/// The current thread is busy (an external program runs, a file is written) while other threads go on.
fn block(ms: u64) {
    BATON.with(|b| {
        if let Some(b) = &*b.borrow() {
            let _ = b.reports.send(Report::Blocked(ms));
            let _ = b.orders.recv();
        }
    });
}

struct Thread {
    orders: mpsc::Sender<Order>,
    reports: mpsc::Receiver<Report>,
    handle: Option<std::thread::JoinHandle<()>>,
}
impl Thread {
    fn new(task: BoxFuture<'static, ()>, rt: tokio::runtime::Handle) -> Thread {
        let (orders, orders_rx) = mpsc::channel();
        let (reports_tx, reports) = mpsc::channel();
        let handle = std::thread::Builder::new()
            .stack_size(16 << 20)
            .spawn(move || {
                let _guard = rt.enter();
                let mut task = Some(task);
                let recv = || BATON.with(|b| b.borrow().as_ref().and_then(|b| b.orders.recv().ok()));
                let send = |r| BATON.with(|b| b.borrow().as_ref().map(|b| b.reports.send(r)));
                BATON.with(|b| *b.borrow_mut() = Some(Baton { orders: orders_rx, reports: reports_tx }));
                loop {
                    match recv() {
                        Some(Order::Poll(waker)) => {
                            let Some(future) = task.as_mut() else { return };
                            let mut cx = Context::from_waker(&waker);
                            let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| future.as_mut().poll(&mut cx)));
                            let report = match result {
                                Ok(Poll::Pending) => Report::Pending,
                                Ok(Poll::Ready(())) => {
                                    drop(task.take());
                                    Report::Ready
                                }
                                Err(e) => {
                                    drop(task.take());
                                    Report::Panicked(e)
                                }
                            };
                            send(report);
                        }
                        Some(Order::Resume) => {}
                        Some(Order::Quit) | None => {
                            drop(task.take());
                            send(Report::Gone);
                            return;
                        }
                    }
                }
            })
            .expect("thread");
        Thread { orders, reports, handle: Some(handle) }
    }
    fn call(&self, order: Order) -> Report {
        if self.orders.send(order).is_err() {
            return Report::Gone;
        }
        self.reports.recv().unwrap_or(Report::Gone)
    }
}
impl Drop for Thread {
    fn drop(&mut self) {
        let _ = self.orders.send(Order::Quit);
        let _ = self.reports.recv();
        if let Some(h) = self.handle.take() {
            let _ = h.join();
        }
    }
}

#[derive(Default)]
struct Stop {
    asked: AtomicBool,
    waker: Mutex<Option<Waker>>,
    own: Mutex<Option<tokio::task::AbortHandle>>,
}

/// A task with a thread of its own. Like a task of a multi-threaded runtime it is stopped between two steps only.
struct Drive {
    thread: Thread,
    blocked: Option<Pin<Box<Sleep>>>,
    delay: Option<Pin<Box<Sleep>>>,
    /// the task may have been woken in the middle of its step
    again: bool,
    stop: Arc<Stop>,
    over: bool,
    sim: Arc<Sim>,
}
impl Future for Drive {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = &mut *self;
        *lock(&this.stop.waker) = Some(cx.waker().clone());
        let mut fresh = true;
        loop {
            if this.over {
                return Poll::Pending;
            }
            let order = if let Some(s) = &mut this.blocked {
                if s.as_mut().poll(cx).is_pending() {
                    return Poll::Pending;
                }
                this.blocked = None;
                this.again = true;
                Order::Resume
            } else {
                // the thread which is to run the task is late
                if let Some(s) = &mut this.delay {
                    if s.as_mut().poll(cx).is_pending() {
                        return Poll::Pending;
                    }
                    this.delay = None;
                } else if fresh {
                    fresh = false;
                    if let Some(ms) = this.sim.late() {
                        this.delay = Some(Box::pin(sleep(Duration::from_millis(ms))));
                        continue;
                    }
                }
                if this.stop.asked.load(Ordering::Relaxed) {
                    let _ = this.thread.call(Order::Quit);
                    this.over = true;
                    if let Some(own) = &*lock(&this.stop.own) {
                        own.abort();
                    }
                    return Poll::Pending;
                }
                Order::Poll(cx.waker().clone())
            };
            match this.thread.call(order) {
                Report::Pending => {
                    if this.stop.asked.load(Ordering::Relaxed) || std::mem::take(&mut this.again) {
                        cx.waker().wake_by_ref();
                    }
                    return Poll::Pending;
                }
                Report::Ready | Report::Gone => return Poll::Ready(()),
                Report::Panicked(e) => std::panic::resume_unwind(e),
                Report::Blocked(ms) => this.blocked = Some(Box::pin(sleep(Duration::from_millis(ms)))),
            }
        }
    }
}

// ------------------------------------------------------------------ the world
struct Watcher {
    handler: Arc<Mutex<Box<dyn notify::EventHandler>>>,
    paths: Vec<PathBuf>,
}
struct State {
    rng: u64,
    /// generation of the sources
    source: u64,
    builds: u64,
    watchers: BTreeMap<u64, Watcher>,
    next: u64,
    listeners: BTreeMap<u64, (String, axum::Router)>,
    events: Vec<(String, Arc<poem::endpoint::BoxEndpoint<'static>>)>,
}
struct Sim {
    sc: J,
    rt: tokio::runtime::Handle,
    state: Mutex<State>,
    weak: Mutex<std::sync::Weak<Sim>>,
}

/// The directory of the workspace, which the server has been started in: a scratch directory, /sim/project in the record.
fn root() -> &'static str {
    static ROOT: OnceLock<String> = OnceLock::new();
    ROOT.get_or_init(|| std::env::current_dir().unwrap_or_default().to_string_lossy().into_owned())
}

impl Sim {
    fn me(&self) -> Arc<Sim> {
        lock(&self.weak).upgrade().expect("world")
    }
    fn random(&self) -> u64 {
        let mut s = lock(&self.state);
        let mut v = s.rng;
        v ^= v << 13;
        v ^= v >> 7;
        v ^= v << 17;
        s.rng = v;
        v >> 11
    }
    fn late(&self) -> Option<u64> {
        let p = num(&self.sc, "late", 0);
        if p > 0 && self.random() % 100 < p {
            Some(1 + self.random() % num(&self.sc, "latems", 3).max(1))
        } else {
            None
        }
    }
    fn package(&self) -> PathBuf {
        PathBuf::from(root()).join(text(&self.sc, "dir", ""))
    }
    fn notify(&self, result: notify::Result<notify::Event>, kind: &str) {
        let event = match result {
            Ok(e) => e,
            Err(e) => {
                let mut e = Some(e);
                for h in self.handlers() {
                    if let Some(e) = e.take() {
                        lock(&h).handle_event(Err(e));
                    }
                }
                return;
            }
        };
        let watched: Vec<_> = lock(&self.state)
            .watchers
            .values()
            .filter(|w| event.need_rescan() || event.paths.iter().any(|p| w.paths.iter().any(|q| p.starts_with(q))))
            .map(|w| w.handler.clone())
            .collect();
        push(json!(["event", kind, watched.len()]));
        for h in watched {
            lock(&h).handle_event(Ok(event.clone()));
        }
    }
    fn handlers(&self) -> Vec<Arc<Mutex<Box<dyn notify::EventHandler>>>> {
        lock(&self.state).watchers.values().map(|w| w.handler.clone()).collect()
    }
    /// Files written by the build itself are noticed as well.
    fn touched(&self, path: &str) {
        let event = notify::Event::new(notify::EventKind::Modify(notify::event::ModifyKind::Any)).add_path(Path::new(root()).join(path));
        self.notify(Ok(event), "output");
    }
    fn output(code: i32, text: String) -> Output {
        Output { status: ExitStatus::from_raw(code << 8), stdout: text.into_bytes(), stderr: Vec::new() }
    }
    fn cargo_build(&self) -> Output {
        let (n, plan) = {
            let mut s = lock(&self.state);
            s.builds += 1;
            let plans = list(&self.sc, "builds");
            let n = s.builds;
            (n, plans.get((n as usize - 1) % plans.len().max(1)).cloned().unwrap_or(J::Null))
        };
        full_disk(false);
        push(json!(["build", n, "start"]));
        block(num(&plan, "before", 5));
        let source = lock(&self.state).source;
        // compiles what it has read
        block(num(&plan, "after", 100));
        let broken = list(&self.sc, "broken").iter().any(|x| x.as_u64() == Some(source));
        let fault = text(&plan, "fault", "").to_string();
        if broken || fault == "cargo" {
            push(json!(["build", n, "end", source, false, fault]));
            return Sim::output(101, String::new());
        }
        let out = Path::new("target/wasm32-unknown-unknown/release");
        let write = |name: &str, content: &[u8]| {
            let path = out.join(name);
            let _ = std::fs::create_dir_all(path.parent().unwrap_or(out));
            if let Err(e) = std::fs::write(&path, content) {
                push(json!(["harness", e.to_string()]));
            }
            self.touched(&format!("target/wasm32-unknown-unknown/release/{name}"));
        };
        let wasm = if fault == "wasm" { b"\0asm\x01\0\0\0broken".to_vec() } else { page_program(n, source) };
        write("deps/libapp_one.rlib", b"rlib");
        write("app_one.wasm", &wasm);
        let _ = std::fs::remove_dir_all(out.join("static"));
        if fault != "static" {
            write("static/wasm_run.js", format!("/* run */ {}", source / 2).as_bytes());
            write("static/wasm_run.js.map", b"{\"file\":\"wasm_run.js\"}");
        }
        write(&format!("static/included/picture{}.txt", source % 3), format!("picture {n}").as_bytes());
        push(json!(["build", n, "end", source, true, fault]));
        if fault == "disk" {
            full_disk(true);
        }
        Sim::output(0, String::new())
    }
    fn metadata(&self) -> String {
        let dir = self.package().to_string_lossy().into_owned();
        json!({
            "packages": [
                { "id": "lib 0.1", "name": "lib-two", "manifest_path": format!("{}/lib/Cargo.toml", root()), "targets": [{ "kind": ["lib"] }] },
                { "id": "app 0.1", "name": "app-one", "manifest_path": format!("{}/Cargo.toml", dir.trim_end_matches('/')), "targets": [{ "kind": ["cdylib", "rlib"] }] },
            ],
            "workspace_members": ["lib 0.1", "app 0.1"],
            "workspace_root": root(),
            "target_directory": format!("{}/target", root()),
        })
        .to_string()
    }
}

/// From now on files cannot be larger than a few bytes: writing is cut short and fails.
fn full_disk(on: bool) {
    let max = if on { 40 } else { libc::RLIM_INFINITY };
    let limit = libc::rlimit { rlim_cur: max, rlim_max: libc::RLIM_INFINITY };
    unsafe {
        libc::signal(libc::SIGXFSZ, libc::SIG_IGN);
        libc::setrlimit(libc::RLIMIT_FSIZE, &limit);
    }
}

/// A program whose page says what it has been built from.
fn page_program(build: u64, source: u64) -> Vec<u8> {
    use vertigo::{JsJson, JsValue};
    let _ = JsJson::Null;
    let cmd = |pairs: &[(&str, J)]| {
        let mut m = serde_json::Map::new();
        for (k, v) in pairs {
            m.insert((*k).to_string(), v.clone());
        }
        J::Object(m)
    };
    let mut commands = vec![];
    for (id, name) in [(1, "html"), (2, "head"), (3, "body"), (4, "p")] {
        commands.push(cmd(&[("type", json!("create_node")), ("id", json!(id)), ("name", json!(name))]));
    }
    commands.push(cmd(&[("type", json!("create_text")), ("id", json!(5)), ("value", json!(format!("build:{build} source:{source}.")))]));
    for (parent, child) in [(1, 2), (1, 3), (3, 4), (4, 5)] {
        commands.push(cmd(&[("type", json!("insert_before")), ("parent", json!(parent)), ("child", json!(child)), ("ref_id", J::Null)]));
    }
    fn conv(j: &J) -> JsJson {
        match j {
            J::Null => JsJson::Null,
            J::Bool(b) => {
                if *b {
                    JsJson::True
                } else {
                    JsJson::False
                }
            }
            J::Number(n) => JsJson::Number(n.as_f64().unwrap_or(0.0)),
            J::String(s) => JsJson::String(s.clone()),
            J::Array(a) => JsJson::List(a.iter().map(conv).collect()),
            J::Object(o) => JsJson::Object(o.iter().map(|(k, v)| (k.clone(), conv(v))).collect()),
        }
    }
    let message = JsValue::List(vec![
        JsValue::List(vec![JsValue::str("api")]),
        JsValue::List(vec![JsValue::str("get"), JsValue::str("dom")]),
        JsValue::List(vec![JsValue::str("call"), JsValue::str("dom_bulk_update"), JsValue::Json(conv(&J::Array(commands)))]),
    ]);
    let bytes = message.to_snapshot().convert_to_vec();
    let data: String = bytes.iter().map(|b| format!("\\{b:02x}")).collect();
    let wat = format!(
        r#"(module
            (import "mod" "panic_message" (func (param i32 i32)))
            (import "mod" "dom_access" (func $dom (param i32 i32) (result i32)))
            (memory (export "memory") 2)
            (data (i32.const 1024) "{data}")
            (func (export "vertigo_entry_function") (param i32 i32) (drop (call $dom (i32.const 1024) (i32.const {len}))))
            (func (export "vertigo_export_alloc_block") (param i32) (result i32) (i32.const 65536))
            (func (export "alloc") (param i32) (result i32) (i32.const 65536))
            (func (export "wasm_callback") (param i64 i32) (result i64) (i64.const 0))
        )"#,
        len = bytes.len()
    );
    wat::parse_str(&wat).expect("program")
}

struct Listening {
    sim: Arc<Sim>,
    id: u64,
}
impl Drop for Listening {
    fn drop(&mut self) {
        lock(&self.sim.state).listeners.remove(&self.id);
        push(json!(["closed", self.id]));
    }
}

fn port_of(address: &str) -> u16 {
    address.rsplit(':').next().and_then(|p| p.parse().ok()).unwrap_or(0)
}

impl World for Sim {
    fn command(&self, command: &mut Command) -> std::io::Result<Output> {
        let program = command.get_program().to_string_lossy().into_owned();
        let args: Vec<String> = command.get_args().map(|a| a.to_string_lossy().into_owned()).collect();
        let first = args.first().cloned().unwrap_or_default();
        match (program.as_str(), first.as_str()) {
            ("cargo", "metadata") => Ok(Sim::output(0, self.metadata())),
            ("cargo", "build") => Ok(self.cargo_build()),
            ("rustup", "target") => {
                block(num(&self.sc, "rustup", 3));
                Ok(Sim::output(0, "wasm32-unknown-unknown (installed)\n".into()))
            }
            ("wasm-opt", _) => {
                let how = text(&self.sc, "opt", "none");
                if how == "none" {
                    return Err(std::io::Error::from(std::io::ErrorKind::NotFound));
                }
                block(num(&self.sc, "optms", 20));
                let at = args.iter().position(|a| a == "-o").unwrap_or(0);
                if how == "half" {
                    // it fails in the middle of its output
                    let content = std::fs::read(args.last().cloned().unwrap_or_default())?;
                    std::fs::write(args.get(at + 1).cloned().unwrap_or_default(), &content[..content.len() / 2])?;
                }
                if how != "ok" {
                    return Ok(Sim::output(1, String::new()));
                }
                let mut content = std::fs::read(args.last().cloned().unwrap_or_default())?;
                // an empty custom section
                content.extend_from_slice(&[0, 2, 1, b'o']);
                std::fs::write(args.get(at + 1).cloned().unwrap_or_default(), content)?;
                Ok(Sim::output(0, String::new()))
            }
            _ => {
                push(json!(["command?", program, args]));
                Ok(Sim::output(0, String::new()))
            }
        }
    }

    fn spawn(&self, task: BoxFuture<'static, ()>) -> (tokio::task::JoinHandle<()>, Box<dyn Fn() + Send + Sync>) {
        let stop = Arc::new(Stop::default());
        let drive = Drive {
            thread: Thread::new(task, self.rt.clone()),
            blocked: None,
            delay: None,
            again: false,
            stop: stop.clone(),
            over: false,
            sim: self.me(),
        };
        let handle = self.rt.spawn(drive);
        *lock(&stop.own) = Some(handle.abort_handle());
        let ask = move || {
            stop.asked.store(true, Ordering::Relaxed);
            if let Some(w) = &*lock(&stop.waker) {
                w.wake_by_ref();
            }
        };
        (handle, Box::new(ask))
    }

    fn watcher(&self, handler: Box<dyn notify::EventHandler>) -> u64 {
        let mut s = lock(&self.state);
        s.next += 1;
        let id = s.next;
        s.watchers.insert(id, Watcher { handler: Arc::new(Mutex::new(handler)), paths: Vec::new() });
        id
    }
    fn watch(&self, watcher: u64, path: &Path, on: bool) {
        let mut s = lock(&self.state);
        if let Some(w) = s.watchers.get_mut(&watcher) {
            let path = if path.is_absolute() { path.to_path_buf() } else { Path::new(root()).join(path) };
            w.paths.retain(|p| *p != path);
            if on {
                w.paths.push(path);
            }
        }
    }
    fn unwatch(&self, watcher: u64) {
        lock(&self.state).watchers.remove(&watcher);
    }

    fn events(&self, address: String, app: poem::endpoint::BoxEndpoint<'static>) -> BoxFuture<'static, ()> {
        lock(&self.state).events.push((address.clone(), Arc::new(app)));
        push(json!(["events", address]));
        Box::pin(std::future::pending())
    }

    fn listen(&self, address: String, app: axum::Router) -> BoxFuture<'static, ()> {
        let sim = self.me();
        Box::pin(async move {
            // (the program has been compiled meanwhile)
            block(num(&sim.sc, "compile", 0));
            let id = {
                let mut s = lock(&sim.state);
                let port = port_of(&address);
                if s.listeners.values().any(|(a, _)| port_of(a) == port) {
                    drop(s);
                    panic!("error binding to {address}: error creating server listener: Address already in use (os error 98)");
                }
                s.next += 1;
                let id = s.next;
                s.listeners.insert(id, (address.clone(), app));
                id
            };
            sim.touched("build/index.json");
            push(json!(["listening", id, address]));
            let _listening = Listening { sim: sim.clone(), id };
            std::future::pending::<()>().await;
        })
    }

    fn probe(&self, port: u16) -> BoxFuture<'static, Result<(), ()>> {
        let sim = self.me();
        Box::pin(async move {
            let probes = list(&sim.sc, "probes");
            let ms = if probes.is_empty() { 1 } else { probes[(sim.random() as usize) % probes.len()].as_u64().unwrap_or(1) };
            sleep(Duration::from_millis(ms)).await;
            match sim.get("HEAD", port).await {
                Some(_) => {
                    sleep(Duration::from_millis(ms)).await;
                    Ok(())
                }
                None => Err(()),
            }
        })
    }
}

impl Sim {
    /// Requests the page, if somebody listens.
    async fn get(&self, method: &str, port: u16) -> Option<(u16, String)> {
        let app = lock(&self.state).listeners.values().find(|(a, _)| port_of(a) == port).map(|(_, app)| app.clone())?;
        let request = http::Request::builder().method(method).uri("/").body(hyper::Body::empty()).ok()?;
        let response = match app.oneshot(request).await {
            Ok(r) => r,
            Err(e) => match e {},
        };
        let status = response.status().as_u16();
        let body = hyper::body::to_bytes(response.into_body()).await.ok()?;
        Some((status, String::from_utf8_lossy(&body).into_owned()))
    }
    async fn asset(&self, port: u16, path: &str) -> Option<(u16, Vec<u8>)> {
        let app = lock(&self.state).listeners.values().find(|(a, _)| port_of(a) == port).map(|(_, app)| app.clone())?;
        let request = http::Request::builder().uri(path).body(hyper::Body::empty()).ok()?;
        // The file is read by threads of tokio's own. Nothing else happens in the meantime, so that
        // no step of the run depends on how long that takes.
        futures::executor::block_on(async move {
            let response = match app.oneshot(request).await {
                Ok(r) => r,
                Err(e) => match e {},
            };
            let status = response.status().as_u16();
            let body = hyper::body::to_bytes(response.into_body()).await.ok()?;
            Some((status, body.to_vec()))
        })
    }
}

/// `build:3 source:5.` in a page
fn said(page: &str) -> J {
    let Some(at) = page.find("build:") else { return J::Null };
    let rest = &page[at..];
    let Some(end) = rest.find('.') else { return J::Null };
    let mut it = rest[..end].split_whitespace().filter_map(|x| x.split(':').nth(1)).filter_map(|x| x.parse::<u64>().ok());
    match (it.next(), it.next()) {
        (Some(a), Some(b)) => json!([a, b]),
        _ => J::Null,
    }
}
fn between<'a>(s: &'a str, from: &str, to: &str) -> Option<&'a str> {
    let rest = &s[s.find(from)? + from.len()..];
    Some(&rest[..rest.find(to)?])
}

// ------------------------------------------------------------------ browsers
struct Browser {
    sim: Arc<Sim>,
    n: usize,
    plan: J,
    pages: AtomicU64,
    cuts: AtomicU64,
}

impl Browser {
    fn page(self: Arc<Self>, from: J) {
        if self.pages.load(Ordering::Relaxed) >= 14 {
            push(json!(["toomany", self.n]));
            return;
        }
        let id = self.pages.fetch_add(1, Ordering::Relaxed);
        self.sim.rt.clone().spawn(self.live(id, from));
    }

    async fn live(self: Arc<Self>, id: u64, from: J) {
        let n = self.n;
        let sim = self.sim.clone();
        let port = num(&sim.sc, "port", 4444) as u16;
        // somebody presses reload until there is an answer
        let (status, body) = loop {
            match sim.get("GET", port).await {
                Some(x) => break x,
                None => sleep(Duration::from_millis(150)).await,
            }
        };
        let url = between(&body, "start_watch('", "'").unwrap_or("").to_string();
        push(json!(["page", n, id, from, status, said(&body), body]));
        // what the page needs
        for attr in ["data-vertigo-run-wasm=\"", "src=\""] {
            if let Some(path) = between(&body, attr, "\"") {
                let got = sim.asset(port, path).await;
                push(json!(["asset", n, id, path, got.as_ref().map(|x| x.0), got.map(|x| x.1.len())]));
            }
        }
        sleep(Duration::from_millis(num(&self.plan, "connect", 0))).await;
        let cuts = list(&self.plan, "cuts");
        let mut first = true;
        loop {
            let host = url.trim_start_matches("http://").split('/').next().unwrap_or("").to_string();
            let app = lock(&sim.state).events.iter().find(|(a, _)| *a == host).map(|(_, app)| app.clone());
            let Some(app) = app else {
                push(json!(["refused", n, id, url]));
                sleep(Duration::from_millis(3000)).await;
                continue;
            };
            let path = url.trim_start_matches("http://").trim_start_matches(host.as_str());
            let request = poem::Request::builder()
                .uri(path.parse().unwrap_or_default())
                .header("origin", format!("http://127.0.0.1:{port}"))
                .finish();
            push(json!(["connect", n, id]));
            let response = app.get_response(request).await;
            let status = response.status().as_u16();
            let cors = response.headers().get("access-control-allow-origin").map(|h| h.to_str().unwrap_or("?").to_string());
            push(json!(["connected", n, id, status, response.content_type(), cors]));
            let mut stream = Box::pin(response.into_body().into_bytes_stream());
            let cut = cuts.get(self.cuts.fetch_add(1, Ordering::Relaxed) as usize).and_then(|x| x.as_u64());
            let until = Instant::now() + Duration::from_millis(cut.unwrap_or(100_000_000));
            let mut pending = String::new();
            loop {
                let chunk = match tokio::time::timeout_at(until, stream.next()).await {
                    Ok(Some(Ok(c))) => c,
                    Ok(other) => {
                        push(json!(["ended", n, id, other.map(|e| e.err().map(|e| e.to_string()))]));
                        break;
                    }
                    Err(_) => {
                        push(json!(["cut", n, id]));
                        break;
                    }
                };
                pending.push_str(&String::from_utf8_lossy(&chunk));
                while let Some(at) = pending.find("\n\n") {
                    let event: String = pending.drain(..at + 2).collect();
                    let message: Vec<&str> = event.lines().filter_map(|l| l.strip_prefix("data:")).map(|l| l.strip_prefix(' ').unwrap_or(l)).collect();
                    let message = message.join("\n");
                    let mut served = J::Null;
                    if message.starts_with("Version") {
                        if let Some((status, body)) = sim.get("GET", port).await {
                            served = json!([status, said(&body)]);
                        }
                    }
                    push(json!(["message", n, id, message, served]));
                    if message.starts_with("Version") && !first {
                        let me = self.clone();
                        let from = json!([id, message]);
                        let wait = num(&self.plan, "reload", 0);
                        sim.rt.spawn(async move {
                            sleep(Duration::from_millis(wait)).await;
                            me.page(from);
                        });
                    }
                    first = false;
                }
            }
            drop(stream);
            sleep(Duration::from_millis(num(&self.plan, "retry", 3000))).await;
        }
    }
}

async fn change(sim: Arc<Sim>, c: J) {
    use notify::event::{CreateKind, Event, EventKind, ModifyKind, RemoveKind, RenameMode};
    sleep(Duration::from_millis(num(&c, "at", 0))).await;
    let package = sim.package();
    let kind = text(&c, "kind", "modify");
    let src = package.join("src").join(text(&c, "file", "main.rs"));
    let event = |k: EventKind, paths: Vec<PathBuf>| {
        let mut e = Event::new(k);
        e.paths = paths;
        Ok(e)
    };
    let out = Path::new(root());
    let excluded = [out.join("target/x"), out.join("build/index.json"), out.join("target")];
    let (real, result) = match kind {
        "modify" => (true, event(EventKind::Modify(ModifyKind::Any), vec![src])),
        "create" => (true, event(EventKind::Create(CreateKind::File), vec![src])),
        "remove" => (true, event(EventKind::Remove(RemoveKind::File), vec![src])),
        "rename" => (true, event(EventKind::Modify(ModifyKind::Name(RenameMode::Both)), vec![src, package.join("src/new.rs")])),
        // saved by way of a temporary file elsewhere
        "movein" => (true, event(EventKind::Modify(ModifyKind::Name(RenameMode::Both)), vec![out.join("target/tmp"), src])),
        "similar" => (true, event(EventKind::Modify(ModifyKind::Any), vec![package.join("targets.rs")])),
        "added" => (true, event(EventKind::Modify(ModifyKind::Any), vec![PathBuf::from(root()).join("shared/lib.rs")])),
        "rescan" => (true, Ok(Event::new(EventKind::Other).set_flag(notify::event::Flag::Rescan))),
        "error" => (false, Err(notify::Error::generic("simulated"))),
        "output" => (false, event(EventKind::Modify(ModifyKind::Any), vec![excluded[(sim.random() % 3) as usize].clone()])),
        _ => (false, event(EventKind::Modify(ModifyKind::Any), vec![PathBuf::from("/elsewhere/x")])),
    };
    if real {
        let g = {
            let mut s = lock(&sim.state);
            s.source += 1;
            s.source
        };
        push(json!(["source", g, kind]));
    }
    sleep(Duration::from_millis(num(&c, "lag", 0))).await;
    sim.notify(result, kind);
}

fn simulate(sc: J) -> J {
    SEED.store(num(&sc, "seed", 1), Ordering::Relaxed);
    log::set_logger(&LOGGER).ok();
    log::set_max_level(log::LevelFilter::Info);
    std::panic::set_hook(Box::new(|info| push(json!(["panic", info.to_string()]))));
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        // whose turn it is must not depend on how often the runtime has been woken for nothing
        .global_queue_interval(1)
        .event_interval(1)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&num(&sc, "seed", 1).to_le_bytes()))
        .build()
        .expect("runtime");
    let sim = Arc::new(Sim {
        rt: rt.handle().clone(),
        state: Mutex::new(State {
            rng: num(&sc, "seed", 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1,
            source: 0,
            builds: 0,
            watchers: BTreeMap::new(),
            next: 0,
            listeners: BTreeMap::new(),
            events: Vec::new(),
        }),
        weak: Mutex::new(std::sync::Weak::new()),
        sc: sc.clone(),
    });
    *lock(&sim.weak) = Arc::downgrade(&sim);
    vertigo_cli::sim::install(Some(sim.clone()));
    let ended = Arc::new(Mutex::new(J::Null));
    rt.block_on(async {
        let _ = START.set(Instant::now());
        let opts = vertigo_cli::WatchOpts {
            common: vertigo_cli::CommonOpts { dest_dir: "./build".into() },
            build: vertigo_cli::build::BuildOptsInner {
                package_name: if flag(&sc, "named") { Some("app-one".into()) } else { None },
                public_path: text(&sc, "public", "/build").into(),
                disable_wasm_opt: text(&sc, "opt", "none") == "off",
                wasm_run_source_map: flag(&sc, "map"),
            },
            serve: vertigo_cli::serve::ServeOptsInner {
                host: "127.0.0.1".into(),
                port: num(&sc, "port", 4444) as u16,
                proxy: Vec::new(),
                env: Vec::new(),
            },
            port_watch: num(&sc, "events", 5555) as u16,
            add_watch_path: match text(&sc, "added", "") {
                "shared" => vec![format!("{}/shared", root())],
                // the whole workspace
                "root" => vec![root().to_string()],
                "." => vec![".".to_string()],
                _ => vec![],
            },
        };
        let result = ended.clone();
        let _main = sim.spawn(Box::pin(async move {
            let r = vertigo_cli::watch::run(opts).await;
            push(json!(["watch-ended", r.err()]));
            *lock(&result) = json!(true);
        }));
        for c in list(&sc, "changes") {
            sim.rt.spawn(change(sim.clone(), c));
        }
        for (n, plan) in list(&sc, "browsers").into_iter().enumerate() {
            let sim = sim.clone();
            tokio::spawn(async move {
                sleep(Duration::from_millis(num(&plan, "at", 0))).await;
                Arc::new(Browser { sim, n, plan, pages: AtomicU64::new(0), cuts: AtomicU64::new(0) }).page(J::Null);
            });
        }
        sleep(Duration::from_millis(num(&sc, "limit", 30_000))).await;
        // what somebody who looks now would see
        let port = num(&sc, "port", 4444) as u16;
        let page = sim.get("GET", port).await;
        push(json!(["final", page.as_ref().map(|p| p.0), page.map(|p| said(&p.1)).unwrap_or(J::Null)]));
    });
    let log = std::mem::take(&mut *lock(&LOG));
    let source = lock(&sim.state).source;
    let s = json!({ "log": log, "source": source });
    std::mem::forget(rt);
    s
}

fn child(line: &str, scratch: &Path, out: i32) -> ! {
    unsafe {
        libc::alarm(60);
    }
    let c = std::ffi::CString::new(scratch.to_string_lossy().as_bytes()).expect("path");
    if std::env::set_current_dir(scratch).is_err() {
        std::process::exit(3);
    }
    unsafe {
        if libc::getuid() == 0 {
            libc::chown(c.as_ptr(), 65534, 65534);
            if libc::setgid(65534) != 0 || libc::setuid(65534) != 0 {
                std::process::exit(3);
            }
        }
        // what the code under test prints
        libc::dup2(2, 1);
    }
    let result = match serde_json::from_str::<J>(line) {
        Ok(sc) if flag(&sc, "files") => files::simulate(&sc),
        Ok(sc) => simulate(sc),
        Err(e) => json!({ "error": e.to_string() }),
    };
    full_disk(false);
    let text = result.to_string().replace(root(), "/sim/project");
    let mut rest = text.as_bytes();
    while !rest.is_empty() {
        let n = unsafe { libc::write(out, rest.as_ptr().cast(), rest.len()) };
        if n <= 0 {
            break;
        }
        rest = &rest[n as usize..];
    }
    unsafe { libc::_exit(0) }
}

fn main() {
    let stdin = std::io::stdin();
    let mut stdout = std::io::stdout();
    for (n, line) in stdin.lock().lines().enumerate() {
        let Ok(line) = line else { break };
        if line.is_empty() {
            continue;
        }
        let scratch = std::env::temp_dir().join(format!("vertigo-watch-{}-{n}", std::process::id()));
        if std::fs::create_dir_all(&scratch).is_err() {
            println!("{}", json!({ "error": "no scratch directory" }));
            continue;
        }
        let mut ends = [0i32; 2];
        let pid = unsafe {
            libc::pipe(ends.as_mut_ptr());
            libc::fork()
        };
        if pid == 0 {
            unsafe { libc::close(ends[0]) };
            child(&line, &scratch, ends[1]);
        }
        unsafe { libc::close(ends[1]) };
        let mut text = String::new();
        {
            use std::os::fd::FromRawFd;
            let mut reader = unsafe { std::fs::File::from_raw_fd(ends[0]) };
            let mut bytes = Vec::new();
            let _ = reader.read_to_end(&mut bytes);
            text.push_str(&String::from_utf8_lossy(&bytes));
        }
        let mut status = 0;
        unsafe { libc::waitpid(pid, &mut status, 0) };
        let _ = std::fs::remove_dir_all(&scratch);
        if text.is_empty() || status != 0 {
            let hang = libc::WIFSIGNALED(status) && libc::WTERMSIG(status) == libc::SIGALRM;
            text = json!({ "error": format!("the process ended, status {status}"), "hang": hang }).to_string();
        }
        let _ = stdout.write_all(text.as_bytes());
        let _ = stdout.write_all(b"\n");
        let _ = stdout.flush();
    }
}

static SEED: AtomicU64 = AtomicU64::new(1);

/// Takes the place of the system's function in this program: hash maps are seeded by the scenario.
///
/// # Safety
/// `buf` must point to `len` writable bytes.
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut libc::c_void, len: libc::size_t, _flags: libc::c_uint) -> libc::ssize_t {
    let mut v = SEED.load(Ordering::Relaxed).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1;
    for b in std::slice::from_raw_parts_mut(buf.cast::<u8>(), len) {
        v ^= v << 13;
        v ^= v >> 7;
        v ^= v << 17;
        *b = (v >> 24) as u8;
    }
    len as libc::ssize_t
}
