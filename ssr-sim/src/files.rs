//! The one-shot commands (`build`, `new`) with every call to the file system under control: a fault or the end of
//! the process at any of them. Each command runs in a process of its own; the directory outlives it.
use super::{flag, list, num, page_program, text};
use axum::Router;
use futures::future::BoxFuture;
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::ffi::CStr;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Command, ExitStatus, Output};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use tower::ServiceExt;
use vertigo_cli::sim::World;

// ------------------------------------------------------------------ the record, shared with the processes of the commands
const SIZE: usize = 8 << 20;
static RECORD: AtomicUsize = AtomicUsize::new(0);

fn record_start() {
    let p = unsafe { libc::mmap(std::ptr::null_mut(), SIZE, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_SHARED | libc::MAP_ANONYMOUS, -1, 0) };
    assert!(p != libc::MAP_FAILED);
    RECORD.store(p as usize, Ordering::Relaxed);
}
fn note(j: J) {
    let line = j.to_string();
    let base = RECORD.load(Ordering::Relaxed);
    if base == 0 {
        return;
    }
    unsafe {
        let len = base as *mut u64;
        let at = *len as usize + 8;
        if at + line.len() + 1 < SIZE {
            std::ptr::copy_nonoverlapping(line.as_ptr(), (base + at) as *mut u8, line.len());
            *((base + at + line.len()) as *mut u8) = b'\n';
            *len = (at + line.len() + 1 - 8) as u64;
        }
    }
}
fn record_all() -> Vec<J> {
    let base = RECORD.load(Ordering::Relaxed);
    let bytes = unsafe { std::slice::from_raw_parts((base + 8) as *const u8, *(base as *const u64) as usize) };
    String::from_utf8_lossy(bytes).lines().filter_map(|l| serde_json::from_str(l).ok()).collect()
}

// ------------------------------------------------------------------ calls to the file system
static ARMED: AtomicBool = AtomicBool::new(false);
static COUNT: AtomicU64 = AtomicU64::new(0);
static FULL: AtomicBool = AtomicBool::new(false);
static PLAN: Mutex<Vec<(u64, String, u64)>> = Mutex::new(Vec::new());
static DIRS: Mutex<BTreeMap<usize, (Vec<libc::dirent64>, usize)>> = Mutex::new(BTreeMap::new());
static ORDER: AtomicU64 = AtomicU64::new(1);

enum Act {
    Go,
    Short,
    Fail(i32),
}
fn op(kind: &str, what: &str, makes: bool) -> Act {
    if !ARMED.load(Ordering::Relaxed) {
        return Act::Go;
    }
    ARMED.store(false, Ordering::Relaxed);
    let n = COUNT.fetch_add(1, Ordering::Relaxed) + 1;
    let fault = PLAN.lock().ok().and_then(|p| p.iter().find(|(at, ..)| *at == n).cloned());
    note(json!(["op", n, kind, what]));
    let rw = kind == "read" || kind == "write";
    let mut act = Act::Go;
    if let Some((_, how, which)) = fault {
        match how.as_str() {
            "crash" => {
                note(json!(["fault", n, "crash", kind]));
                unsafe { libc::_exit(137) }
            }
            "full" => FULL.store(true, Ordering::Relaxed),
            "short" if rw => {
                note(json!(["fault", n, "short", kind]));
                act = Act::Short;
            }
            "eintr" if rw || kind == "open" => {
                note(json!(["fault", n, "eintr", kind]));
                act = Act::Fail(libc::EINTR);
            }
            "error" => {
                let choice: &[i32] = match kind {
                    "open" | "opendir" => &[libc::EACCES, libc::EMFILE, libc::EIO],
                    "mkdir" => &[libc::ENOSPC, libc::EACCES, libc::EROFS],
                    "unlink" | "rmdir" => &[libc::EACCES, libc::EBUSY, libc::EIO],
                    _ => &[libc::EIO],
                };
                note(json!(["fault", n, "error", kind]));
                act = Act::Fail(choice[which as usize % choice.len()]);
            }
            _ => {}
        }
    }
    if makes && FULL.load(Ordering::Relaxed) && matches!(act, Act::Go) {
        note(json!(["fault", n, "full", kind]));
        act = Act::Fail(libc::ENOSPC);
    }
    ARMED.store(true, Ordering::Relaxed);
    act
}
fn fail(e: i32) -> i32 {
    unsafe { *libc::__errno_location() = e };
    -1
}
unsafe fn name(path: *const libc::c_char) -> String {
    let s = CStr::from_ptr(path).to_string_lossy().into_owned();
    let mut parts: Vec<&str> = s.rsplit('/').take(2).collect();
    parts.reverse();
    parts.join("/")
}
macro_rules! call {
    ($number:ident $(, $arg:expr)*) => {{
        let r = libc::syscall(libc::$number $(, $arg)*);
        r
    }};
}

/// # Safety
/// as `open`
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if ARMED.load(Ordering::Relaxed) {
        let creates = flags & libc::O_CREAT != 0;
        let text = CStr::from_ptr(path).to_bytes();
        if text.starts_with(b"/proc") || text.starts_with(b"/sys") {
            // how many processors there are (for compiling the program): not a matter of the project
            ARMED.store(false, Ordering::Relaxed);
            return call!(SYS_openat, libc::AT_FDCWD, path, flags, mode) as libc::c_int;
        }
        if let Act::Fail(e) = op("open", &name(path), creates && !Path::new(&*CStr::from_ptr(path).to_string_lossy()).exists()) {
            return fail(e);
        }
    }
    call!(SYS_openat, libc::AT_FDCWD, path, flags, mode) as libc::c_int
}
/// # Safety
/// as `openat`
#[no_mangle]
pub unsafe extern "C" fn openat64(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int, mode: libc::mode_t) -> libc::c_int {
    if ARMED.load(Ordering::Relaxed) {
        if let Act::Fail(e) = op("open", &name(path), false) {
            return fail(e);
        }
    }
    call!(SYS_openat, dir, path, flags, mode) as libc::c_int
}
/// # Safety
/// as `read`
#[no_mangle]
pub unsafe extern "C" fn read(fd: libc::c_int, buf: *mut libc::c_void, len: libc::size_t) -> libc::ssize_t {
    let mut len = len;
    if fd > 2 && ARMED.load(Ordering::Relaxed) {
        match op("read", "", false) {
            Act::Fail(e) => return fail(e) as libc::ssize_t,
            Act::Short => len = len.min(1),
            Act::Go => {}
        }
    }
    call!(SYS_read, fd, buf, len) as libc::ssize_t
}
/// # Safety
/// as `write`
#[no_mangle]
pub unsafe extern "C" fn write(fd: libc::c_int, buf: *const libc::c_void, len: libc::size_t) -> libc::ssize_t {
    let mut len = len;
    if fd > 2 && ARMED.load(Ordering::Relaxed) {
        match op("write", "", true) {
            Act::Fail(e) => return fail(e) as libc::ssize_t,
            Act::Short => len = len.min(1),
            Act::Go => {}
        }
    }
    call!(SYS_write, fd, buf, len) as libc::ssize_t
}
/// # Safety
/// as `mkdir`
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const libc::c_char, mode: libc::mode_t) -> libc::c_int {
    if ARMED.load(Ordering::Relaxed) {
        if let Act::Fail(e) = op("mkdir", &name(path), true) {
            return fail(e);
        }
    }
    call!(SYS_mkdir, path, mode) as libc::c_int
}
/// # Safety
/// as `unlink`
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const libc::c_char) -> libc::c_int {
    if ARMED.load(Ordering::Relaxed) {
        if let Act::Fail(e) = op("unlink", &name(path), false) {
            return fail(e);
        }
    }
    call!(SYS_unlink, path) as libc::c_int
}
/// # Safety
/// as `unlinkat`
#[no_mangle]
pub unsafe extern "C" fn unlinkat(dir: libc::c_int, path: *const libc::c_char, flags: libc::c_int) -> libc::c_int {
    if ARMED.load(Ordering::Relaxed) {
        if let Act::Fail(e) = op("unlink", &name(path), false) {
            return fail(e);
        }
    }
    call!(SYS_unlinkat, dir, path, flags) as libc::c_int
}
/// # Safety
/// as `rmdir`
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const libc::c_char) -> libc::c_int {
    if ARMED.load(Ordering::Relaxed) {
        if let Act::Fail(e) = op("rmdir", &name(path), false) {
            return fail(e);
        }
    }
    call!(SYS_rmdir, path) as libc::c_int
}
unsafe fn next_symbol(name: &CStr) -> *mut libc::c_void {
    libc::dlsym(libc::RTLD_NEXT, name.as_ptr())
}
/// # Safety
/// as `opendir`
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const libc::c_char) -> *mut libc::DIR {
    if ARMED.load(Ordering::Relaxed) {
        if let Act::Fail(e) = op("opendir", &name(path), false) {
            fail(e);
            return std::ptr::null_mut();
        }
    }
    let real: unsafe extern "C" fn(*const libc::c_char) -> *mut libc::DIR = std::mem::transmute(next_symbol(c"opendir"));
    real(path)
}
/// In which order the entries of a directory come is up to the file system: here to the scenario.
///
/// # Safety
/// as `readdir`
#[no_mangle]
pub unsafe extern "C" fn readdir64(dir: *mut libc::DIR) -> *mut libc::dirent64 {
    let real: unsafe extern "C" fn(*mut libc::DIR) -> *mut libc::dirent64 = std::mem::transmute(next_symbol(c"readdir64"));
    if !ARMED.load(Ordering::Relaxed) {
        return real(dir);
    }
    if let Act::Fail(e) = op("readdir", "", false) {
        fail(e);
        return std::ptr::null_mut();
    }
    let Ok(mut dirs) = DIRS.lock() else { return real(dir) };
    let state = dirs.entry(dir as usize).or_insert_with(|| {
        let mut all = Vec::new();
        loop {
            let e = real(dir);
            if e.is_null() {
                break;
            }
            // (an entry is as long as its name needs)
            let mut copy: libc::dirent64 = std::mem::zeroed();
            std::ptr::copy_nonoverlapping(e.cast::<u8>(), std::ptr::addr_of_mut!(copy).cast::<u8>(), ((*e).d_reclen as usize).min(std::mem::size_of::<libc::dirent64>()));
            all.push(copy);
        }
        all.sort_by(|a, b| CStr::from_ptr(a.d_name.as_ptr()).cmp(CStr::from_ptr(b.d_name.as_ptr())));
        let mut v = ORDER.load(Ordering::Relaxed);
        for i in (1..all.len()).rev() {
            v ^= v << 13;
            v ^= v >> 7;
            v ^= v << 17;
            all.swap(i, (v >> 11) as usize % (i + 1));
        }
        ORDER.store(v, Ordering::Relaxed);
        (all, 0)
    });
    state.1 += 1;
    let at = state.1 - 1;
    match state.0.get_mut(at) {
        Some(e) => e,
        None => std::ptr::null_mut(),
    }
}
/// # Safety
/// as `closedir`
#[no_mangle]
pub unsafe extern "C" fn closedir(dir: *mut libc::DIR) -> libc::c_int {
    if let Ok(mut dirs) = DIRS.lock() {
        dirs.remove(&(dir as usize));
    }
    let real: unsafe extern "C" fn(*mut libc::DIR) -> libc::c_int = std::mem::transmute(next_symbol(c"closedir"));
    real(dir)
}

/// What stands in for the rest of the world is not part of the command.
fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = ARMED.swap(false, Ordering::Relaxed);
    let r = f();
    ARMED.store(was, Ordering::Relaxed);
    r
}

fn hash(data: &[u8]) -> String {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for b in data {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3);
    }
    format!("{h:016x}")
}

// ------------------------------------------------------------------ the world
struct Tools {
    step: J,
    n: u64,
    root: PathBuf,
    rt: tokio::runtime::Handle,
}
impl Tools {
    fn target(&self) -> PathBuf {
        match text(&self.step, "target", "") {
            "" => self.root.join("target"),
            other => self.root.join(other),
        }
    }
    fn built(code: i32, out: &str) -> Output {
        Output { status: ExitStatus::from_raw(code), stdout: out.as_bytes().to_vec(), stderr: Vec::new() }
    }
    fn cargo_build(&self) -> Output {
        let how = text(&self.step, "cargo", "ok");
        let out = self.target().join("wasm32-unknown-unknown/release");
        let write = |name: &str, content: &[u8]| {
            let path = out.join(name);
            let _ = std::fs::create_dir_all(path.parent().unwrap_or(&out));
            match std::fs::write(&path, content) {
                Ok(()) => note(json!(["made", name, hash(content)])),
                Err(e) => note(json!(["harness", e.to_string()])),
            }
        };
        let n = num(&self.step, "source", 0);
        let wasm = page_program(self.n, n);
        if how == "partial" {
            // killed while it links
            write("app_one.wasm", &wasm[..wasm.len() / 2]);
        }
        if how == "signal" || how == "partial" {
            return Self::built(9, "");
        }
        if how == "fail" {
            return Self::built(101 << 8, "");
        }
        write("deps/libapp_one.rlib", b"rlib");
        write("app_one.wasm", &wasm);
        write("static/wasm_run.js", format!("/* run */ {}", n / 2).as_bytes());
        write("static/wasm_run.js.map", b"{\"file\":\"wasm_run.js\"}");
        let _ = std::fs::create_dir_all(out.join("static/included"));
        for name in list(&self.step, "included") {
            let name = name.as_str().unwrap_or("x");
            write(&format!("static/included/{name}"), format!("content of {name}").as_bytes());
        }
        Self::built(0, "")
    }
    fn metadata(&self) -> String {
        let dir = |d: &str| self.root.join(d).to_string_lossy().into_owned();
        json!({
            "packages": [
                { "id": "lib 0.1", "name": "lib-two", "manifest_path": dir("lib/Cargo.toml"), "targets": [{ "kind": ["lib"] }] },
                { "id": "app 0.1", "name": "app-one", "manifest_path": dir("crates/app/Cargo.toml"), "targets": [{ "kind": ["cdylib", "rlib"] }] },
                { "id": "serde 1.0", "name": "serde", "manifest_path": "/registry/serde/Cargo.toml", "targets": [{ "kind": ["lib"] }] },
            ],
            "workspace_members": ["lib 0.1", "app 0.1"],
            "workspace_root": self.root,
            "target_directory": self.target(),
        })
        .to_string()
    }
    fn run(&self, command: &mut Command) -> std::io::Result<Output> {
        let program = command.get_program().to_string_lossy().into_owned();
        let args: Vec<String> = command.get_args().map(|a| a.to_string_lossy().into_owned()).collect();
        match (program.as_str(), args.first().map_or("", |x| x.as_str())) {
            ("cargo", "metadata") => Ok(Self::built(0, &self.metadata())),
            ("cargo", "build") => {
                note(json!(["cargo"]));
                if text(&self.step, "cargo", "ok") == "missing" {
                    return Err(std::io::Error::from(std::io::ErrorKind::NotFound));
                }
                Ok(self.cargo_build())
            }
            ("rustup", "target") => Ok(Self::built(0, "wasm32-unknown-unknown (installed)\n")),
            ("wasm-opt", _) => {
                let how = text(&self.step, "opt", "none");
                if how == "none" {
                    return Err(std::io::Error::from(std::io::ErrorKind::NotFound));
                }
                let at = args.iter().position(|a| a == "-o").unwrap_or(0);
                let mut content = match std::fs::read(args.last().cloned().unwrap_or_default()) {
                    Ok(content) => content,
                    Err(_) => return Ok(Self::built(1 << 8, "")),
                };
                let to = args.get(at + 1).cloned().unwrap_or_default();
                if how == "half" {
                    content.truncate(content.len() / 2);
                    let _ = std::fs::write(to, content);
                    return Ok(Self::built(1 << 8, ""));
                }
                if how == "killed" {
                    let _ = std::fs::write(to, b"");
                    return Ok(Self::built(9, ""));
                }
                if how != "ok" {
                    return Ok(Self::built(1 << 8, ""));
                }
                // an empty custom section
                content.extend_from_slice(&[0, 2, 1, b'o']);
                if std::fs::write(to, &content).is_err() {
                    return Ok(Self::built(1 << 8, ""));
                }
                note(json!(["made", "optimized", hash(&content)]));
                Ok(Self::built(0, ""))
            }
            _ => {
                note(json!(["harness", format!("{program} {args:?}")]));
                Ok(Self::built(0, ""))
            }
        }
    }
}
impl World for Tools {
    fn command(&self, command: &mut Command) -> std::io::Result<Output> {
        outside(|| self.run(command))
    }
    fn spawn(&self, task: BoxFuture<'static, ()>) -> (tokio::task::JoinHandle<()>, Box<dyn Fn() + Send + Sync>) {
        let handle = self.rt.spawn(task);
        let abort = handle.abort_handle();
        (handle, Box::new(move || abort.abort()))
    }
    fn watcher(&self, _handler: Box<dyn notify::EventHandler>) -> u64 {
        0
    }
    fn watch(&self, _watcher: u64, _path: &Path, _on: bool) {}
    fn unwatch(&self, _watcher: u64) {}
    fn events(&self, _address: String, _app: poem::endpoint::BoxEndpoint<'static>) -> BoxFuture<'static, ()> {
        Box::pin(async {})
    }
    fn listen(&self, _address: String, app: Router) -> BoxFuture<'static, ()> {
        let step = self.step.clone();
        ARMED.store(false, Ordering::Relaxed);
        Box::pin(async move {
            let (status, body) = get(app.clone(), "/".into()).await;
            note(json!(["page", status, String::from_utf8_lossy(&body)]));
            let mut names: Vec<String> = std::fs::read_dir(text(&step, "dest", "./build")).map(|d| d.filter_map(|e| e.ok().map(|e| e.file_name().to_string_lossy().into_owned())).collect()).unwrap_or_default();
            names.sort();
            for name in names {
                let (status, body) = get(app.clone(), format!("{}/{}", text(&step, "public", "/build"), name.replace(' ', "%20"))).await;
                note(json!(["got", name, status, hash(&body)]));
            }
        })
    }
    fn probe(&self, _port: u16) -> BoxFuture<'static, Result<(), ()>> {
        Box::pin(async { Err(()) })
    }
}

async fn get(app: Router, path: String) -> (u16, Vec<u8>) {
    let Ok(request) = http::Request::builder().uri(path).body(hyper::Body::empty()) else { return (0, Vec::new()) };
    let response = match app.oneshot(request).await {
        Ok(r) => r,
        Err(_) => return (0, Vec::new()),
    };
    let status = response.status().as_u16();
    (status, hyper::body::to_bytes(response.into_body()).await.map(|b| b.to_vec()).unwrap_or_default())
}

// ------------------------------------------------------------------ the commands
fn command(step: &J, n: u64, root: &Path) -> i32 {
    std::panic::set_hook(Box::new(|info| outside(|| note(json!(["panic", info.to_string()])))));
    let rt = tokio::runtime::Builder::new_current_thread().enable_time().build().expect("runtime");
    let tools = Tools { step: step.clone(), n, root: root.to_path_buf(), rt: rt.handle().clone() };
    vertigo_cli::sim::install(Some(Arc::new(tools)));
    let dir = root.join(text(step, "cwd", ""));
    let _ = std::fs::create_dir_all(&dir);
    if std::env::set_current_dir(&dir).is_err() {
        return 3;
    }
    ORDER.store(num(step, "order", 1).wrapping_mul(0x9E37_79B9_7F4A_7C15) | 1, Ordering::Relaxed);
    if let Ok(mut plan) = PLAN.lock() {
        *plan = list(step, "faults").iter().map(|f| (num(f, "at", 0), text(f, "kind", "").to_string(), num(f, "e", 0))).collect();
    }
    let common = vertigo_cli::CommonOpts { dest_dir: text(step, "dest", "./build").into() };
    let result = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| match text(step, "cmd", "") {
        "build" => {
            let opts = vertigo_cli::BuildOpts {
                common,
                inner: vertigo_cli::build::BuildOptsInner {
                    package_name: if flag(step, "named") { Some("app-one".into()) } else { None },
                    public_path: text(step, "public", "/build").into(),
                    disable_wasm_opt: text(step, "opt", "none") == "off",
                    wasm_run_source_map: flag(step, "map"),
                },
            };
            ARMED.store(true, Ordering::Relaxed);
            vertigo_cli::build::run(opts)
        }
        "new" => {
            let opts = vertigo_cli::NewOpts { package_name: text(step, "name", "app").into(), dest_dir: text(step, "dest", "./").into() };
            ARMED.store(true, Ordering::Relaxed);
            vertigo_cli::new::run(opts)
        }
        "serve" => {
            // (the command ends by itself here)
            ARMED.store(true, Ordering::Relaxed);
            rt.block_on(vertigo_cli::serve::run(
            vertigo_cli::ServeOpts {
                common,
                inner: vertigo_cli::serve::ServeOptsInner { host: "127.0.0.1".into(), port: 4444, proxy: Vec::new(), env: Vec::new() },
            },
            None,
        ))
        }
        _ => Err(1),
    }));
    ARMED.store(false, Ordering::Relaxed);
    match result {
        Ok(Ok(())) => 0,
        Ok(Err(_)) => 10,
        Err(_) => 11,
    }
}

fn tree(dir: &Path, base: &Path, out: &mut Vec<J>) {
    use std::os::unix::fs::PermissionsExt;
    let mode = std::fs::metadata(dir).map(|m| m.permissions().mode() & 0o777).unwrap_or(0o755);
    if mode & 0o700 != 0o700 {
        let _ = std::fs::set_permissions(dir, std::fs::Permissions::from_mode(0o755));
    }
    entries(dir, base, out);
    if mode & 0o700 != 0o700 {
        let _ = std::fs::set_permissions(dir, std::fs::Permissions::from_mode(mode));
    }
}
fn entries(dir: &Path, base: &Path, out: &mut Vec<J>) {
    let mut names: Vec<PathBuf> = std::fs::read_dir(dir).map(|d| d.filter_map(|e| e.ok().map(|e| e.path())).collect()).unwrap_or_default();
    names.sort();
    for p in names {
        let rel = p.strip_prefix(base).unwrap_or(&p).to_string_lossy().into_owned();
        if p.is_dir() {
            out.push(json!([rel, "dir"]));
            if rel != "target" && rel != "elsewhere" {
                tree(&p, base, out);
            }
        } else {
            let data = std::fs::read(&p).unwrap_or_default();
            let short = if data.len() < 3000 { std::str::from_utf8(&data).ok() } else { None };
            out.push(json!([rel, hash(&data), short]));
        }
    }
}

pub fn simulate(sc: &J) -> J {
    record_start();
    let root = std::env::current_dir().unwrap_or_default();
    for (n, step) in list(sc, "steps").iter().enumerate() {
        note(json!(["step", n, text(step, "cmd", "")]));
        let path = root.join(text(step, "path", "x"));
        match text(step, "cmd", "") {
            "put" => {
                if let Some(parent) = path.parent() {
                    let _ = std::fs::create_dir_all(parent);
                }
                let _ = std::fs::write(&path, text(step, "text", ""));
            }
            "putdir" => {
                let _ = std::fs::create_dir_all(&path);
            }
            "mode" => {
                use std::os::unix::fs::PermissionsExt;
                let _ = std::fs::set_permissions(&path, std::fs::Permissions::from_mode(num(step, "mode", 0o755) as u32));
            }
            _ => {
                let pid = unsafe { libc::fork() };
                if pid == 0 {
                    let code = command(step, n as u64 + 1, &root);
                    unsafe { libc::_exit(code) };
                }
                let mut status = 0;
                unsafe { libc::waitpid(pid, &mut status, 0) };
                let code = if libc::WIFEXITED(status) { libc::WEXITSTATUS(status) } else { 1000 + libc::WTERMSIG(status) };
                note(json!(["exit", n, match code { 0 => "ok".to_string(), 10 => "error".into(), 11 => "panic".into(), 137 => "crashed".into(), other => format!("ended {other}") }]));
            }
        }
        let mut files = Vec::new();
        tree(&root, &root, &mut files);
        note(json!(["files", n, files]));
    }
    let log = record_all();
    json!({ "log": log, "source": 0 })
}
