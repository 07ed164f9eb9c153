use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::task::Poll;
use vertigo::router::Router;
use vertigo::{
    get_driver, transaction, AutoMap, Computed, DropResource, FetchMethod, FutureBox,
    FutureBoxSend, LazyCache, RequestBody, RequestBuilder, Value, WebsocketConnection,
    WebsocketMessage,
};

use crate::val::{
    Local,
    eval, j_to_jsjson, j_to_jsvalue, jsjson_to_j, jsjson_to_val, jsvalue_to_j, Env, Val,
};

#[derive(Clone, PartialEq, Debug)]
pub struct Rt(pub String);

impl From<String> for Rt {
    fn from(s: String) -> Rt {
        Rt(s)
    }
}

impl std::fmt::Display for Rt {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.0)
    }
}

pub type RefGet = Rc<dyn Fn(&str) -> vertigo::JsValue>;
pub type RefSet = Rc<dyn Fn(&str, vertigo::JsValue)>;
type Slot<T> = RefCell<BTreeMap<String, T>>;

pub struct App {
    pub spec: J,
    pub values: Vec<Value<Val>>,
    pub sources: Vec<Computed<Val>>,
    pub computeds: RefCell<Vec<Computed<Val>>>,
    pub caches: Vec<LazyCache<Val>>,
    pub routers: Vec<Router<Rt>>,
    pub amaps: RefCell<Vec<AutoMap<Val, Computed<Val>>>>,
    src_live: RefCell<BTreeMap<usize, Value<Val>>>,
    subs: Slot<DropResource>,
    ivls: Slot<DropResource>,
    wss: Slot<DropResource>,
    hooks: Slot<DropResource>,
    conns: Slot<WebsocketConnection>,
    pub refs: Slot<(RefGet, RefSet)>,
    sig_send: Slot<FutureBoxSend<Val>>,
    sig_recv: Slot<FutureBox<Val>>,
    instants: Slot<vertigo::Instant>,
    task_no: Cell<u32>,
    pub local_no: Cell<u32>,
}

thread_local! {
    static APP: RefCell<Option<Rc<App>>> = const { RefCell::new(None) };
}

pub fn app() -> Rc<App> {
    APP.with(|a| a.borrow().clone()).expect("app not initialised")
}

pub fn log(j: J) {
    log::info!("SIM {j}");
}

fn arr(j: &J, name: &str) -> Vec<J> {
    j.get(name).and_then(|x| x.as_array()).cloned().unwrap_or_default()
}

impl App {
    pub fn computed(&self, i: usize) -> Option<Computed<Val>> {
        self.computeds.borrow().get(i).cloned()
    }
    pub fn source(&self, i: usize) -> Option<Computed<Val>> {
        self.sources.get(i).cloned()
    }
    pub fn cache(&self, i: usize) -> Option<LazyCache<Val>> {
        self.caches.get(i).cloned()
    }
    pub fn router(&self, i: usize) -> Option<Router<Rt>> {
        self.routers.get(i).cloned()
    }
    pub fn auto_map(&self, i: usize, key: Val) -> Computed<Val> {
        let map = self.amaps.borrow().get(i).cloned();
        match map {
            Some(m) => m.get(&key),
            None => Computed::from(|_| Val::Null),
        }
    }
}

fn method(s: &str) -> FetchMethod {
    match s {
        "HEAD" => FetchMethod::HEAD,
        "POST" => FetchMethod::POST,
        "PUT" => FetchMethod::PUT,
        "DELETE" => FetchMethod::DELETE,
        "OPTIONS" => FetchMethod::OPTIONS,
        "PATCH" => FetchMethod::PATCH,
        _ => FetchMethod::GET,
    }
}

pub fn build_request(j: &J) -> RequestBuilder {
    let s = |k: &str| j.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string();
    let mut r = RequestBuilder::new(method(&s("m")), s("url"));
    if let Some(h) = j.get("h").and_then(|x| x.as_object()) {
        for (k, v) in h {
            r = r.set_header(k.clone(), v.as_str().unwrap_or(""));
        }
    }
    if let Some(b) = j.get("b") {
        if let Some(t) = b.get("text").and_then(|x| x.as_str()) {
            r = r.body(RequestBody::Text(t.to_string()));
        } else if let Some(v) = b.get("bin").and_then(|x| x.as_array()) {
            r = r.body(RequestBody::Binary(
                v.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
            ));
        } else if let Some(v) = b.get("json") {
            r = r.body(RequestBody::Json(j_to_jsjson(v)));
        }
    }
    if let Some(t) = j.get("ttl").and_then(|x| x.as_u64()) {
        r = r.ttl_seconds(t);
    }
    r
}

fn body_to_j(b: &RequestBody) -> J {
    match b {
        RequestBody::Text(t) => json!({ "text": t }),
        RequestBody::Json(j) => json!({ "json": jsjson_to_j(j) }),
        RequestBody::Binary(b) => json!({ "bin": b }),
    }
}

fn body_to_val(b: &RequestBody) -> Val {
    match b {
        RequestBody::Text(t) => Val::Str(t.clone()),
        RequestBody::Json(j) => jsjson_to_val(j),
        RequestBody::Binary(b) => Val::List(b.iter().map(|x| Val::Int(*x as i64)).collect()),
    }
}

pub fn init(spec: J) {
    // values first: everything else may refer to them
    let values: Vec<Value<Val>> = arr(&spec, "values")
        .iter()
        .map(|j| Value::new(Val::from_j(j)))
        .collect();

    let sources: Vec<Computed<Val>> = arr(&spec, "sources")
        .iter()
        .enumerate()
        .map(|(i, j)| {
            let opts = j.clone();
            Value::with_connect(Val::from_j(j.get("init").unwrap_or(&J::Null)), move |value| {
                log(json!(["src+", i]));
                app().src_live.borrow_mut().insert(i, value.clone());
                let inner: Option<DropResource> = match opts.get("ivl").and_then(|x| x.as_u64()) {
                    Some(ms) => {
                        let v = value.clone();
                        Some(get_driver().set_interval(ms as u32, move || {
                            let mut new = Val::Null;
                            v.change(|x| {
                                *x = Val::Int(x.int() + 1);
                                new = x.clone();
                            });
                            log(json!(["srcset", i, new.to_j()]));
                        }))
                    }
                    None => None,
                };
                DropResource::new(move || {
                    app().src_live.borrow_mut().remove(&i);
                    log(json!(["src-", i]));
                    drop(inner);
                })
            })
        })
        .collect();

    let caches: Vec<LazyCache<Val>> = arr(&spec, "caches")
        .iter()
        .enumerate()
        .map(|(i, j)| {
            build_request(j).lazy_cache(move |status, body| {
                log(json!(["cmap", i, status, body_to_j(&body)]));
                match status {
                    200 => Some(Ok(body_to_val(&body))),
                    404 => None,
                    other => Some(Err(format!("status {other}"))),
                }
            })
        })
        .collect();

    let routers: Vec<Router<Rt>> = arr(&spec, "routers")
        .iter()
        .map(|j| match j.as_str() {
            Some("hash") => Router::new_hash_router(),
            _ => Router::new_history_router(),
        })
        .collect();

    let state = Rc::new(App {
        values,
        sources,
        computeds: RefCell::new(Vec::new()),
        caches,
        routers,
        amaps: RefCell::new(Vec::new()),
        src_live: Default::default(),
        subs: Default::default(),
        ivls: Default::default(),
        wss: Default::default(),
        hooks: Default::default(),
        conns: Default::default(),
        refs: Default::default(),
        sig_send: Default::default(),
        sig_recv: Default::default(),
        instants: Default::default(),
        task_no: Cell::new(0),
        local_no: Cell::new(0),
        spec,
    });
    APP.with(|a| *a.borrow_mut() = Some(state.clone()));

    for (i, e) in arr(&state.spec, "amaps").into_iter().enumerate() {
        let _ = i;
        let m = AutoMap::<Val, Computed<Val>>::new(move |_, key: &Val| {
            let e = e.clone();
            let env = Env::root().with_arg(key.clone());
            Computed::from(move |ctx| eval(ctx, &e, &env))
        });
        state.amaps.borrow_mut().push(m);
    }

    for e in arr(&state.spec, "computeds") {
        let kind = e.get(0).and_then(|x| x.as_str()).unwrap_or("").to_string();
        let c = match kind.as_str() {
            // the other public ways of deriving a value
            "vmap" => {
                let i = e.get(1).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
                let n = e.get(2).and_then(|x| x.as_i64()).unwrap_or(1);
                match state.values.get(i) {
                    Some(v) => v.map(move |x| Val::Int(x.int() + n)),
                    None => Computed::from(|_| Val::Null),
                }
            }
            "cmap" => {
                let i = e.get(1).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
                let n = e.get(2).and_then(|x| x.as_i64()).unwrap_or(1);
                let inner = state.computeds.borrow().get(i).cloned();
                match inner {
                    Some(c) => c.map(move |x| Val::Int(x.int() + n)),
                    None => Computed::from(|_| Val::Null),
                }
            }
            "vto" => {
                let i = e.get(1).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
                match state.values.get(i) {
                    Some(v) => v.to_computed(),
                    None => Computed::from(|_| Val::Null),
                }
            }
            _ => Computed::from(move |ctx| eval(ctx, &e, &Env::root())),
        };
        state.computeds.borrow_mut().push(c);
    }

    let spec = state.spec.clone();
    if let Some(t) = spec.get("plain") {
        let t = t.clone();
        get_driver().plains(move |url| {
            t.get(url).and_then(|x| x.as_str()).map(|x| x.to_string())
        });
    }
    run_ops(&arr(&spec, "init"), &Env::root());
}

pub fn read(e: &J, env: &Env) -> Val {
    transaction(|ctx| eval(ctx, e, env))
}

fn s(op: &J, i: usize) -> String {
    match op.get(i) {
        Some(J::String(s)) => s.clone(),
        Some(other) => other.to_string(),
        None => String::new(),
    }
}

fn n(op: &J, i: usize) -> usize {
    op.get(i).and_then(|x| x.as_u64()).unwrap_or(0) as usize
}

fn j(op: &J, i: usize) -> J {
    op.get(i).cloned().unwrap_or(J::Null)
}

pub fn run_ops(ops: &[J], env: &Env) {
    for op in ops {
        run_op(op, env);
    }
}

fn list_of(j: J) -> Vec<J> {
    match j {
        J::Array(a) => a,
        _ => Vec::new(),
    }
}

fn subscribe(slot: String, e: J, env: Env, opts: J) -> DropResource {
    let computed = Computed::from({
        let env = env.clone();
        move |ctx| eval(ctx, &e, &env)
    });
    let count = Cell::new(0u64);
    let on: Option<(u64, Vec<J>)> = opts
        .get("at")
        .and_then(|x| x.as_u64())
        .map(|k| (k, arr(&opts, "ops")));
    let name = slot.clone();
    let callback = move |v: Val| {
        log(json!(["N", name, v.to_j()]));
        let k = count.get() + 1;
        count.set(k);
        if let Some((at, ops)) = &on {
            if *at == k {
                for op in ops {
                    match op.get(0).and_then(|x| x.as_str()) {
                        Some("unsub") => {
                            let slot = s(op, 1);
                            log(json!(["unsub", slot]));
                            let r = app().subs.borrow_mut().remove(&slot);
                            drop(r);
                            log(json!(["unsub.", slot]));
                        }
                        Some("log") => log(json!(["log", s(op, 1)])),
                        _ => {}
                    }
                }
            }
        }
    };
    if opts.get("all").is_some() {
        computed.subscribe_all(callback)
    } else {
        computed.subscribe(callback)
    }
}

fn access_root(steps: &[J]) -> vertigo::JsValue {
    let d = get_driver().dom_access();
    let first = steps.first().cloned().unwrap_or(J::Null);
    let mut a = match first.get(0).and_then(|x| x.as_str()) {
        Some("api") => d.api(),
        _ => d.root(s(&first, 1)),
    };
    for st in &steps[1..] {
        match st.get(0).and_then(|x| x.as_str()) {
            Some("get") => a = a.get(s(st, 1)),
            Some("set") => a = a.set(s(st, 1), j_to_jsvalue(&j(st, 2))),
            Some("call") => {
                let args = st
                    .as_array()
                    .map(|x| x[2..].iter().map(j_to_jsvalue).collect())
                    .unwrap_or_default();
                a = a.call(s(st, 1), args);
            }
            Some("props") => {
                let names: Vec<String> = (1..st.as_array().map_or(1, |x| x.len()))
                    .map(|i| s(st, i))
                    .collect();
                let names: Vec<&str> = names.iter().map(|x| x.as_str()).collect();
                a = a.get_props(&names);
            }
            _ => {}
        }
    }
    a.fetch()
}

#[allow(unconditional_recursion)]
fn recurse(k: u64) -> u64 {
    let mut pad = [0u64; 64];
    pad[(k % 64) as usize] = k;
    let below = recurse(std::hint::black_box(k + 1));
    below + std::hint::black_box(pad)[(k % 64) as usize]
}

pub fn run_op(op: &J, env: &Env) {
    let a = app();
    match op.get(0).and_then(|x| x.as_str()).unwrap_or("") {
        "set" => {
            let v = read(&j(op, 2), env);
            if let Some(value) = a.values.get(n(op, 1)) {
                log(json!(["set", n(op, 1), v.to_j()]));
                value.set(v);
            }
        }
        "cmp" => {
            let v = read(&j(op, 2), env);
            if let Some(value) = a.values.get(n(op, 1)) {
                log(json!(["set", n(op, 1), v.to_j()]));
                value.set_value_and_compare(v);
            }
        }
        "chg" => {
            let v = read(&j(op, 2), env);
            if let Some(value) = a.values.get(n(op, 1)) {
                value.change(|x| {
                    log(json!(["chg", n(op, 1), x.to_j(), v.to_j()]));
                    *x = v;
                });
            }
        }
        "inc" => {
            if let Some(value) = a.values.get(n(op, 1)) {
                value.change(|x| {
                    let old = x.to_j();
                    *x = Val::Int(x.int() + 1);
                    log(json!(["chg", n(op, 1), old, x.to_j()]));
                });
            }
        }
        "setl" => {
            let v = read(&j(op, 2), env);
            if let Some((uid, Local::Value(value))) = env.locals.get(n(op, 1)) {
                log(json!(["setl", uid, v.to_j()]));
                value.set(v);
            }
        }
        "ssrc" => {
            let v = read(&j(op, 2), env);
            let live = a.src_live.borrow().get(&n(op, 1)).cloned();
            if let Some(value) = live {
                log(json!(["srcset", n(op, 1), v.to_j()]));
                value.set(v);
            }
        }
        "tx" => {
            let ops = list_of(j(op, 1));
            log(json!(["tx+"]));
            transaction(|_| {
                run_ops(&ops, env);
                log(json!(["tx-"]));
            });
            log(json!(["tx."]));
        }
        "read" => {
            let e = j(op, 1);
            let v = read(&e, env);
            log(json!(["read", e, v.to_j(), &*env.path]));
        }
        "sub" => {
            let slot = s(op, 1);
            let opts = j(op, 3);
            log(json!(["sub", slot, j(op, 2), opts]));
            let old = a.subs.borrow_mut().remove(&slot);
            drop(old);
            let r = subscribe(slot.clone(), j(op, 2), env.clone(), opts);
            a.subs.borrow_mut().insert(slot.clone(), r);
            log(json!(["sub.", slot]));
        }
        "unsub" => {
            let slot = s(op, 1);
            log(json!(["unsub", slot]));
            let r = a.subs.borrow_mut().remove(&slot);
            drop(r);
            log(json!(["unsub.", slot]));
        }
        "hook" => {
            let slot = s(op, 1);
            let name = slot.clone();
            let r = get_driver().on_after_transaction(move || log(json!(["after", name])));
            a.hooks.borrow_mut().insert(slot, r);
        }
        "unhook" => {
            let r = a.hooks.borrow_mut().remove(&s(op, 1));
            drop(r);
            log(json!(["unhook", s(op, 1)]));
        }
        "log" => log(json!(["log", s(op, 1)])),
        "mksig" => {
            let (send, recv) = FutureBox::new();
            a.sig_send.borrow_mut().insert(s(op, 1), send);
            a.sig_recv.borrow_mut().insert(s(op, 1), recv);
        }
        "signal" => {
            let v = read(&j(op, 2), env);
            let send = a.sig_send.borrow_mut().remove(&s(op, 1));
            if let Some(send) = send {
                log(json!(["signal", s(op, 1), v.to_j()]));
                send.publish(v);
            }
        }
        "spawn" => {
            let tid = a.task_no.get();
            a.task_no.set(tid + 1);
            log(json!(["spawn", tid, j(op, 1)]));
            let steps = list_of(j(op, 1));
            let env = env.clone();
            get_driver().spawn(run_task(tid, steps, env));
            log(json!(["spawn.", tid]));
        }
        "ivl" => {
            let slot = s(op, 1);
            let ops = list_of(j(op, 3));
            let ms = n(op, 2) as u32;
            let env = env.clone();
            let name = slot.clone();
            let old = a.ivls.borrow_mut().remove(&slot);
            if old.is_some() {
                log(json!(["ivl-", slot]));
            }
            drop(old);
            log(json!(["ivl+", slot, ms]));
            let r = get_driver().set_interval(ms, move || {
                log(json!(["I", name]));
                run_ops(&ops, &env);
            });
            a.ivls.borrow_mut().insert(slot, r);
        }
        "univl" => {
            let slot = s(op, 1);
            log(json!(["ivl-", slot]));
            let r = a.ivls.borrow_mut().remove(&slot);
            drop(r);
        }
        "ws" => {
            let slot = s(op, 1);
            let url = s(op, 2);
            let opts = j(op, 3);
            let name = slot.clone();
            let old = a.wss.borrow_mut().remove(&slot);
            if old.is_some() {
                log(json!(["ws-", slot]));
            }
            drop(old);
            log(json!(["ws+", slot, url]));
            let env = env.clone();
            let r = get_driver().websocket(url, move |msg| match msg {
                WebsocketMessage::Connection(c) => {
                    log(json!(["W", name, "open"]));
                    if let Some(hello) = opts.get("hello").and_then(|x| x.as_str()) {
                        log(json!(["wssend", name, hello]));
                        c.send(hello);
                    }
                    app().conns.borrow_mut().insert(name.clone(), c);
                }
                WebsocketMessage::Message(m) => {
                    log(json!(["W", name, "msg", m]));
                    if opts.get("close_on").and_then(|x| x.as_str()) == Some(m.as_str()) {
                        log(json!(["ws-", name]));
                        let r = app().wss.borrow_mut().remove(&name);
                        drop(r);
                        log(json!(["ws-.", name]));
                    } else if opts.get("echo").is_some() {
                        let c = app().conns.borrow().get(&name).cloned();
                        if let Some(c) = c {
                            log(json!(["wssend", name, format!("echo:{m}")]));
                            c.send(format!("echo:{m}"));
                        }
                    }
                    let ops = arr(&opts, "ops");
                    run_ops(&ops, &env.with_arg(Val::Str(m)));
                }
                WebsocketMessage::Close => log(json!(["W", name, "close"])),
            });
            a.wss.borrow_mut().insert(slot.clone(), r);
            log(json!(["ws+.", slot]));
        }
        "unws" => {
            let slot = s(op, 1);
            let r = a.wss.borrow_mut().remove(&slot);
            if r.is_some() {
                log(json!(["ws-", slot]));
            }
            drop(r);
            log(json!(["ws-.", slot]));
        }
        "wssend" => {
            let slot = s(op, 1);
            let c = a.conns.borrow().get(&slot).cloned();
            if let Some(c) = c {
                log(json!(["wssend", slot, s(op, 2)]));
                c.send(s(op, 2));
            }
        }
        "push" => {
            if let Some(r) = a.router(n(op, 1)) {
                log(json!(["push", n(op, 1), s(op, 2)]));
                r.set(Rt(s(op, 2)));
                log(json!(["push.", n(op, 1)]));
            }
        }
        "pushl" => {
            if let Some((uid, Local::Route(r))) = env.locals.get(n(op, 1)) {
                let who = format!("l{uid}");
                log(json!(["push", who, s(op, 2)]));
                r.set(Rt(s(op, 2)));
                log(json!(["push.", who]));
            }
        }
        "replace" => {
            log(json!(["replace", s(op, 1)]));
            get_driver().history_replace(&s(op, 1));
            log(json!(["replace."]));
        }
        "back" => {
            log(json!(["back"]));
            get_driver().history_back();
        }
        "upd" => {
            if let Some(c) = a.cache(n(op, 1)) {
                let with_loading = n(op, 2) == 1;
                let force = n(op, 3) == 1;
                log(json!(["upd", n(op, 1), with_loading, force]));
                if force {
                    c.force_update(with_loading);
                } else {
                    c.update(with_loading, false);
                }
            }
        }
        "forget" => {
            if let Some(c) = a.cache(n(op, 1)) {
                log(json!(["forget", n(op, 1)]));
                c.forget();
            }
        }
        "cset" => {
            log(json!(["cset", s(op, 1), s(op, 2), n(op, 3)]));
            get_driver().cookie_set(&s(op, 1), &s(op, 2), n(op, 3) as u64);
        }
        "cget" => {
            let v = get_driver().cookie_get(&s(op, 1));
            log(json!(["cget", s(op, 1), v]));
        }
        "csetj" => {
            log(json!(["csetj", s(op, 1), j(op, 2), n(op, 3)]));
            get_driver().cookie_set_json(&s(op, 1), j_to_jsjson(&j(op, 2)), n(op, 3) as u64);
        }
        "cgetj" => {
            let v = get_driver().cookie_get_json(&s(op, 1));
            log(json!(["cgetj", s(op, 1), jsjson_to_j(&v)]));
        }
        "js" => {
            let steps = list_of(j(op, 2));
            log(json!(["js+", s(op, 1)]));
            let v = access_root(&steps);
            log(json!(["js", s(op, 1), jsvalue_to_j(&v)]));
        }
        "jsc" => {
            // a JsValue handed over and immediately read back must be the same value
            let v = j_to_jsvalue(&j(op, 2));
            log(json!(["jsc", s(op, 1), jsvalue_to_j(&v)]));
        }
        "ref" => {
            let f = a.refs.borrow().get(&s(op, 1)).cloned();
            if let Some((get, _)) = f {
                let v = get(&s(op, 2));
                log(json!(["ref", s(op, 1), s(op, 2), jsvalue_to_j(&v)]));
            }
        }
        "refset" => {
            let f = a.refs.borrow().get(&s(op, 1)).cloned();
            if let Some((_, set)) = f {
                set(&s(op, 2), j_to_jsvalue(&j(op, 3)));
            }
        }
        "now" => log(json!(["now", get_driver().utc_now()])),
        "inst" => {
            a.instants.borrow_mut().insert(s(op, 1), get_driver().now());
            log(json!(["inst", s(op, 1)]));
        }
        "elapsed" => {
            let i = a.instants.borrow().get(&s(op, 1)).cloned();
            if let Some(i) = i {
                log(json!(["elapsed?", s(op, 1)]));
                log(json!(["elapsed", s(op, 1), i.elapsed(), i.seconds_elapsed()]));
            }
        }
        "tz" => log(json!(["tz", get_driver().timezone_offset()])),
        "rand" => {
            let v = get_driver().get_random(n(op, 1) as u32, n(op, 2) as u32);
            log(json!(["rand", n(op, 1), n(op, 2), v]));
        }
        "env" => log(json!(["env", s(op, 1), get_driver().env(s(op, 1))])),
        "isb" => log(json!(["isb", get_driver().is_browser()])),
        "class" => {
            let v = get_driver().class_name_for(&crate::node::css(&j(op, 1)));
            log(json!(["class", j(op, 1), v]));
        }
        "panic" => {
            log(json!(["panic!", "panic"]));
            panic!("{}", s(op, 1))
        }
        "trap" => {
            log(json!(["panic!", "trap"]));
            #[cfg(target_arch = "wasm32")]
            core::arch::wasm32::unreachable();
        }
        "overflow" => {
            log(json!(["panic!", "overflow"]));
            let v = recurse(1);
            log(json!(["log", v]));
        }
        "oom" => {
            // more memory than there is
            log(json!(["panic!", "oom"]));
            let a: Vec<u8> = Vec::with_capacity(std::hint::black_box(2_000_000_000));
            let b: Vec<u8> = Vec::with_capacity(std::hint::black_box(2_000_000_000));
            let c: Vec<u8> = Vec::with_capacity(std::hint::black_box(2_000_000_000));
            std::hint::black_box((&a, &b, &c));
            unreachable!();
        }
        "spin" => {
            let mut x = 0u64;
            for i in 0..(n(op, 1) as u64) {
                x = x.wrapping_mul(31).wrapping_add(std::hint::black_box(i));
            }
            std::hint::black_box(x);
        }
        "alloc" => {
            // grow the linear memory, so that a view cached by the runtime becomes detached
            let v: Vec<u8> = vec![1; n(op, 1)];
            std::hint::black_box(&v);
        }
        _ => log(json!(["badop", op])),
    }
}

type BoxFut<T> = Pin<Box<dyn Future<Output = T>>>;

fn await_one(op: &J, tid: u32, k: usize, env: &Env) -> BoxFut<J> {
    match op.get(0).and_then(|x| x.as_str()).unwrap_or("") {
        "sleep" => {
            let f = get_driver().sleep(n(op, 1) as u32);
            Box::pin(async move {
                f.await;
                J::Null
            })
        }
        "wait" => {
            let f = app().sig_recv.borrow_mut().remove(&s(op, 1));
            match f {
                Some(f) => Box::pin(async move { f.await.to_j() }),
                None => Box::pin(async { J::from("nosig") }),
            }
        }
        "fetch" => {
            let spec = j(op, 1);
            let r = build_request(&spec);
            Box::pin(async move {
                log(json!(["T", tid, k, "q", spec]));
                let resp = r.call().await;
                let status = resp.status();
                let seen: Rc<RefCell<J>> = Rc::new(RefCell::new(J::Null));
                let seen2 = seen.clone();
                let out: Result<(), String> = resp.into(move |status, body| {
                    *seen2.borrow_mut() = json!({ "status": status, "body": body_to_j(&body) });
                    Some(Ok(()))
                });
                let got = seen.borrow().clone();
                match out {
                    Ok(()) => json!({ "ok": got, "status": status }),
                    Err(e) => json!({ "err": e, "status": status }),
                }
            })
        }
        "yield" => {
            // asks to be polled again while it is being polled, several times over
            let mut left = n(op, 1);
            let wakes = n(op, 2);
            Box::pin(std::future::poll_fn(move |cx| {
                log(json!(["T", tid, k, "y"]));
                if left == 0 {
                    return Poll::Ready(J::Null);
                }
                left -= 1;
                for i in 0..wakes {
                    if i % 2 == 0 {
                        cx.waker().wake_by_ref();
                    } else {
                        cx.waker().clone().wake();
                    }
                }
                Poll::Pending
            }))
        }
        "send" => {
            // a part which completes another one while the task is being polled
            let op = json!(["signal", op[1], op[2]]);
            let env = env.clone();
            Box::pin(async move {
                run_op(&op, &env);
                J::Null
            })
        }
        _ => Box::pin(async { J::Null }),
    }
}

fn race(futs: Vec<BoxFut<J>>) -> BoxFut<J> {
    let mut futs = futs;
    Box::pin(std::future::poll_fn(move |cx| {
        for (i, f) in futs.iter_mut().enumerate() {
            if let Poll::Ready(v) = f.as_mut().poll(cx) {
                futs.clear();
                return Poll::Ready(json!([i, v]));
            }
        }
        Poll::Pending
    }))
}

fn join(futs: Vec<BoxFut<J>>) -> BoxFut<J> {
    let mut futs: Vec<Option<BoxFut<J>>> = futs.into_iter().map(Some).collect();
    let mut out: Vec<J> = vec![J::Null; futs.len()];
    Box::pin(std::future::poll_fn(move |cx| {
        let mut pending = false;
        for (i, slot) in futs.iter_mut().enumerate() {
            if let Some(f) = slot {
                match f.as_mut().poll(cx) {
                    Poll::Ready(v) => {
                        out[i] = v;
                        *slot = None;
                    }
                    Poll::Pending => pending = true,
                }
            }
        }
        if pending {
            Poll::Pending
        } else {
            Poll::Ready(J::Array(out.clone()))
        }
    }))
}

async fn run_task(tid: u32, steps: Vec<J>, env: Env) {
    log(json!(["T", tid, "start"]));
    for (k, op) in steps.iter().enumerate() {
        match op.get(0).and_then(|x| x.as_str()).unwrap_or("") {
            "sleep" | "wait" | "fetch" | "yield" => {
                log(json!(["T", tid, k, "b"]));
                let v = await_one(op, tid, k, &env).await;
                log(json!(["T", tid, k, "e", v]));
            }
            "join" | "race" => {
                log(json!(["T", tid, k, "b"]));
                let futs = list_of(j(op, 1))
                    .iter()
                    .map(|op| await_one(op, tid, k, &env))
                    .collect();
                let v = if op[0] == "join" {
                    join(futs).await
                } else {
                    race(futs).await
                };
                log(json!(["T", tid, k, "e", v]));
            }
            _ => {
                log(json!(["T", tid, k, "x"]));
                run_op(op, &env);
            }
        }
    }
    log(json!(["T", tid, "end"]));
}

