use serde_json::{json, Value as J};
use std::rc::Rc;
use vertigo::{
    Computed, Css, DomComment, DomElement, DomNode, DomText, DropFileEvent,
    KeyDownEvent, Value, router::Router,
};

use crate::app::{app, log, read, run_ops, Rt};
use crate::val::{eval, Env, Local, Val};

fn s<'a>(j: &'a J, k: &str) -> &'a str {
    j.get(k).and_then(|x| x.as_str()).unwrap_or("")
}

fn id(j: &J) -> String {
    match j.get("id") {
        Some(J::String(s)) => s.clone(),
        Some(other) => other.to_string(),
        None => "?".into(),
    }
}

fn arr(j: &J, k: &str) -> Vec<J> {
    j.get(k).and_then(|x| x.as_array()).cloned().unwrap_or_default()
}

const STATIC_CSS: [&str; 8] = [
    "color: red;",
    "color: blue; :hover { color: green; }",
    "border: 1px solid black; :nth-child(2) { margin: 1px; }",
    "animation: 1s infinite ease { 0% { opacity: 0; } 100% { opacity: 1; } };",
    "width: 10px; @media screen and (max-width: 600px) { width: 5px; }",
    "padding: 3px;",
    "color: red; padding: 3px;",
    "opacity: 0.5;",
];

/// ["s", i] static style, ["d", text] dynamic style, ["x", style, style] one extending another
pub fn css(j: &J) -> Css {
    match j.get(0).and_then(|x| x.as_str()).unwrap_or("") {
        "s" => {
            let i = j.get(1).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
            Css::str(STATIC_CSS[i % STATIC_CSS.len()])
        }
        "d" => Css::string(j.get(1).and_then(|x| x.as_str()).unwrap_or("").to_string()),
        "x" => {
            let a = css(j.get(1).unwrap_or(&J::Null));
            let b = css(j.get(2).unwrap_or(&J::Null));
            a.extend(b)
        }
        _ => Css::str(""),
    }
}

fn css_val(v: &Val) -> Css {
    match v {
        Val::Int(i) => {
            if i.rem_euclid(2) == 0 {
                Css::str(STATIC_CSS[(i.rem_euclid(16) / 2) as usize])
            } else {
                Css::string(format!("width: {}px;", i.rem_euclid(50)))
            }
        }
        other => Css::string(format!("margin: {}px;", other.int().rem_euclid(50))),
    }
}

fn suspense_css(loading: bool) -> Css {
    if loading {
        Css::str("opacity: 0.2;")
    } else {
        Css::str("opacity: 0.9;")
    }
}

fn suspense_css2(loading: bool) -> Css {
    if loading {
        Css::str("visibility: hidden;")
    } else {
        Css::default()
    }
}

fn fire(hid: &str, event: &str, env: &Env, payload: J, ops: &[J]) {
    log(json!(["H", hid, event, &*env.path, payload]));
    run_ops(ops, env);
    log(json!(["H.", hid, event]));
}

fn key_j(e: &KeyDownEvent) -> J {
    json!([e.key, e.code, e.alt_key, e.ctrl_key, e.shift_key, e.meta_key])
}

fn drop_j(e: &DropFileEvent) -> J {
    J::Array(e.items.iter().map(|i| json!([i.name, &*i.data])).collect())
}

/// on: { ev, ops, dyn: Expr?, ret: bool? }
fn bind_event(el: DomElement, nid: &str, on: &J, env: &Env) -> DomElement {
    let ev = s(on, "ev").to_string();
    let ops = Rc::new(arr(on, "ops"));
    let ret_e = on.get("ret").cloned().unwrap_or(J::Bool(false));
    let hid = nid.to_string();
    let dynamic = on.get("dyn").cloned();

    macro_rules! plain {
        ($method:ident, $ret:expr) => {{
            match dynamic {
                None => {
                    let (hid, env, ops, ev) = (hid.clone(), env.clone(), ops.clone(), ev.clone());
                    let ret_e = ret_e.clone();
                    el.$method(move || {
                        fire(&hid, &ev, &env, J::Null, &ops);
                        $ret(&ret_e, &env)
                    })
                }
                Some(d) => {
                    let (hid, env, ops, ev) = (hid.clone(), env.clone(), ops.clone(), ev.clone());
                    let ret_e = ret_e.clone();
                    let c: Computed<Rc<dyn Fn() -> _>> = Computed::from(move |ctx| {
                        let v = eval(ctx, &d, &env);
                        let (hid, env, ops, ev) =
                            (hid.clone(), env.clone(), ops.clone(), ev.clone());
                        let ret_e = ret_e.clone();
                        let f: Rc<dyn Fn() -> _> = Rc::new(move || {
                            let h = format!("{hid}#{v}");
                            fire(&h, &ev, &env, J::Null, &ops);
                            $ret(&ret_e, &env)
                        });
                        f
                    });
                    el.$method(c)
                }
            }
        }};
    }
    macro_rules! with_arg {
        ($method:ident, $t:ty, $conv:expr, $ret:expr) => {{
            match dynamic {
                None => {
                    let (hid, env, ops, ev) = (hid.clone(), env.clone(), ops.clone(), ev.clone());
                    let ret_e = ret_e.clone();
                    el.$method(move |arg: $t| {
                        fire(&hid, &ev, &env, $conv(&arg), &ops);
                        $ret(&ret_e, &env)
                    })
                }
                Some(d) => {
                    let (hid, env, ops, ev) = (hid.clone(), env.clone(), ops.clone(), ev.clone());
                    let ret_e = ret_e.clone();
                    let c: Computed<Rc<dyn Fn($t) -> _>> = Computed::from(move |ctx| {
                        let v = eval(ctx, &d, &env);
                        let (hid, env, ops, ev) =
                            (hid.clone(), env.clone(), ops.clone(), ev.clone());
                        let ret_e = ret_e.clone();
                        let f: Rc<dyn Fn($t) -> _> = Rc::new(move |arg: $t| {
                            let h = format!("{hid}#{v}");
                            fire(&h, &ev, &env, $conv(&arg), &ops);
                            $ret(&ret_e, &env)
                        });
                        f
                    });
                    el.$method(c)
                }
            }
        }};
    }
    let unit = |_: &J, _: &Env| ();
    let boolean = |e: &J, env: &Env| -> bool { read(e, env).truthy() };
    match ev.as_str() {
        "click" => plain!(on_click, unit),
        "mouseenter" => plain!(on_mouse_enter, unit),
        "mouseleave" => plain!(on_mouse_leave, unit),
        "mousedown" => plain!(on_mouse_down, boolean),
        "mouseup" => plain!(on_mouse_up, boolean),
        "blur" => plain!(on_blur, unit),
        "load" => plain!(on_load, unit),
        "input" => with_arg!(on_input, String, |x: &String| J::from(x.as_str()), unit),
        "change" => with_arg!(on_change, String, |x: &String| J::from(x.as_str()), unit),
        "keydown" => with_arg!(on_key_down, KeyDownEvent, key_j, boolean),
        "hook_keydown" => with_arg!(hook_key_down, KeyDownEvent, key_j, boolean),
        "drop" => with_arg!(on_dropfile, DropFileEvent, drop_j, unit),
        _ => el,
    }
}

fn element(n: &J, env: &Env) -> DomElement {
    let nid = id(n);
    let tag = s(n, "tag").to_string();
    let mut el = DomElement::new(tag);
    for a in arr(n, "attrs") {
        let name = a.get(0).and_then(|x| x.as_str()).unwrap_or("x").to_string();
        let e = a.get(2).cloned().unwrap_or(J::Null);
        match a.get(1).and_then(|x| x.as_str()).unwrap_or("s") {
            "s" => {
                let v = const_eval(&e, env);
                el = el.attr(name, v.to_string());
            }
            "d" => {
                let env = env.clone();
                let c: Computed<String> =
                    Computed::from(move |ctx| eval(ctx, &e, &env).to_string());
                el = el.attr(name, c);
            }
            "o" => {
                let env = env.clone();
                let c: Computed<Option<String>> =
                    Computed::from(move |ctx| match eval(ctx, &e, &env) {
                        Val::Null => None,
                        Val::Bool(false) => None,
                        v => Some(v.to_string()),
                    });
                el = el.attr(name, c);
            }
            _ => {}
        }
    }
    if let Some(c) = n.get("css") {
        if c.get(0).and_then(|x| x.as_str()) == Some("e") {
            let e = c.get(1).cloned().unwrap_or(J::Null);
            let env = env.clone();
            let c: Computed<Css> = Computed::from(move |ctx| css_val(&eval(ctx, &e, &env)));
            el = el.css(c);
        } else {
            el = el.css(css(c));
        }
    }
    match n.get("susp").and_then(|x| x.as_u64()) {
        Some(1) => el = el.suspense(Some(suspense_css)),
        Some(2) => el = el.suspense(Some(suspense_css2)),
        _ => {}
    }
    for on in arr(n, "on") {
        el = bind_event(el, &nid, &on, env);
    }
    if let Some(name) = n.get("ref").and_then(|x| x.as_str()) {
        let r = el.get_ref();
        let r = Rc::new(r);
        let r2 = r.clone();
        app().refs.borrow_mut().insert(
            name.to_string(),
            (
                Rc::new(move |prop: &str| r.dom_access().get(prop).fetch()),
                Rc::new(move |prop: &str, v: vertigo::JsValue| {
                    r2.dom_access().set(prop, v).fetch();
                }),
            ),
        );
    }
    for c in arr(n, "ch") {
        el.add_child(build(&c, env));
    }
    el
}

pub fn build(n: &J, env: &Env) -> DomNode {
    let nid = id(n);
    match s(n, "t") {
        "el" => element(n, env).into(),
        "tx" => DomText::new(s(n, "s")).into(),
        "td" => {
            let e = n.get("e").cloned().unwrap_or(J::Null);
            let env = env.clone();
            let c: Computed<String> = Computed::from(move |ctx| eval(ctx, &e, &env).to_string());
            DomText::new_computed(c).into()
        }
        "te" => {
            let e = n.get("e").cloned().unwrap_or(J::Null);
            let env = env.clone();
            let c: Computed<Val> = Computed::from(move |ctx| eval(ctx, &e, &env));
            vertigo::EmbedDom::embed(c)
        }
        "rv" => {
            let e = n.get("e").cloned().unwrap_or(J::Null);
            let cases = arr(n, "cases");
            let default = n.get("def").cloned().unwrap_or(J::Null);
            let env2 = env.clone();
            let c: Computed<Val> = Computed::from({
                let env = env.clone();
                move |ctx| eval(ctx, &e, &env)
            });
            c.render_value_option(move |v| {
                let env = env2.sub(&nid).with_arg(v.clone());
                for case in &cases {
                    if Val::from_j(case.get(0).unwrap_or(&J::Null)) == v {
                        return match case.get(1) {
                            Some(J::Null) | None => None,
                            Some(b) => Some(build(b, &env)),
                        };
                    }
                }
                match &default {
                    J::Null => None,
                    b => Some(build(b, &env)),
                }
            })
        }
        "ls" => {
            let e = n.get("e").cloned().unwrap_or(J::Null);
            let env2 = env.clone();
            let body = n.get("ch").cloned().unwrap_or(J::Null);
            let c: Computed<Vec<Val>> = Computed::from({
                let env = env.clone();
                move |ctx| eval(ctx, &e, &env).list()
            });
            c.render_list(
                |item| item.key(),
                move |item| {
                    let k = item.key();
                    let env = env2.sub(&format!("{nid}:{k}")).with_arg(k);
                    build(&body, &env)
                },
            )
        }
        "fr" => {
            let list = arr(n, "ch").iter().map(|c| build(c, env)).collect();
            DomComment::dom_fragment(list).into()
        }
        "local" => {
            let env2 = env.sub(&nid);
            let mut made = Vec::new();
            let locals: Vec<(u32, Local)> = arr(n, "init")
                .iter()
                .map(|e| {
                    // plain evaluation of constants and arguments only
                    let uid = app().local_no.get();
                    app().local_no.set(uid + 1);
                    if let Some("R") = e.get(0).and_then(|x| x.as_str()) {
                        let kind = e.get(1).and_then(|x| x.as_str()).unwrap_or("");
                        let router = match kind {
                            "hash" => Router::<Rt>::new_hash_router(),
                            _ => Router::<Rt>::new_history_router(),
                        };
                        made.push(json!([uid, null, kind]));
                        return (uid, Local::Route(router));
                    }
                    let v = const_eval(e, env);
                    made.push(json!([uid, v.to_j()]));
                    (uid, Local::Value(Value::new(v)))
                })
                .collect();
            log(json!(["mkl", &*env2.path, made]));
            let mut all = (*env.locals).clone();
            all.extend(locals);
            let env3 = Env { args: env2.args.clone(), locals: Rc::new(all), path: env2.path.clone() };
            build(n.get("ch").unwrap_or(&J::Null), &env3)
        }
        "cache" => {
            let i = n.get("i").and_then(|x| x.as_u64()).unwrap_or(0) as usize;
            let body = n.get("ch").cloned().unwrap_or(J::Null);
            let env2 = env.clone();
            match app().cache(i) {
                Some(c) => {
                    let cc = c.clone();
                    // same as LazyCache::render, with the observation made visible first
                    let _ = cc;
                    c.render(move |v| {
                        let env = env2.sub(&nid).with_arg((*v).clone());
                        build(&body, &env)
                    })
                }
                None => DomText::new("").into(),
            }
        }
        "susp" => DomElement::new("vertigo-suspense").into(),
        "dm" => crate::node::macro_block(n, env),
        _ => DomText::new("?").into(),
    }
}

fn const_eval(e: &J, env: &Env) -> Val {
    match e.get(0).and_then(|x| x.as_str()) {
        Some("a") => {
            let i = e.get(1).and_then(|x| x.as_u64()).unwrap_or(0) as usize;
            env.args.get(i).cloned().unwrap_or(Val::Null)
        }
        Some("k") => Val::from_j(e.get(1).unwrap_or(&J::Null)),
        _ => Val::from_j(e),
    }
}

/// A block written with the markup macro, the way applications are written.
pub fn macro_block(n: &J, env: &Env) -> DomNode {
    use vertigo::dom;
    let e = n.get("e").cloned().unwrap_or(J::Null);
    let c: Computed<Val> = Computed::from({
        let env = env.clone();
        move |ctx| eval(ctx, &e, &env)
    });
    let c2 = c.map(|v| v.int() + 1);
    let title = c.map(|v| v.to_string());
    dom! {
        <p title={title}>"m:" {c}</p>
        <i>{c2}</i>
    }
}

pub fn build_root(head: &DomElement, body: &DomElement) {
    let spec = app().spec.clone();
    let env = Env::root();
    for n in arr(&spec, "head") {
        head.add_child(build(&n, &env));
    }
    // the control element: every command of the simulator arrives as a user event on it
    let ctl = DomElement::new("input").attr("id", "ctl").on_input(|text: String| {
        let ops: Vec<J> = match serde_json::from_str(&text) {
            Ok(J::Array(a)) => a,
            _ => Vec::new(),
        };
        run_ops(&ops, &Env::root());
    });
    body.add_child(ctl);
    for n in arr(&spec, "tree") {
        body.add_child(build(&n, &env));
    }
}
