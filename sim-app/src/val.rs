use serde_json::Value as J;
use std::fmt::{Display, Formatter};
use std::rc::Rc;
use vertigo::{Context, JsJson, JsValue, Resource};

use crate::app::app;

#[derive(Clone, PartialEq, Eq, Hash, Debug)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i64),
    Str(String),
    List(Vec<Val>),
}

impl Display for Val {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        match self {
            Val::Null => Ok(()),
            Val::Bool(b) => write!(f, "{b}"),
            Val::Int(i) => write!(f, "{i}"),
            Val::Str(s) => write!(f, "{s}"),
            Val::List(l) => {
                let parts: Vec<String> = l.iter().map(|x| x.to_string()).collect();
                write!(f, "[{}]", parts.join(","))
            }
        }
    }
}

impl Val {
    pub fn from_j(j: &J) -> Val {
        match j {
            J::Null => Val::Null,
            J::Bool(b) => Val::Bool(*b),
            J::Number(n) => Val::Int(n.as_i64().unwrap_or(0)),
            J::String(s) => Val::Str(s.clone()),
            J::Array(a) => Val::List(a.iter().map(Val::from_j).collect()),
            J::Object(_) => Val::Null,
        }
    }
    pub fn to_j(&self) -> J {
        match self {
            Val::Null => J::Null,
            Val::Bool(b) => J::Bool(*b),
            Val::Int(i) => J::from(*i),
            Val::Str(s) => J::from(s.as_str()),
            Val::List(l) => J::Array(l.iter().map(|x| x.to_j()).collect()),
        }
    }
    pub fn int(&self) -> i64 {
        match self {
            Val::Null => 0,
            Val::Bool(b) => *b as i64,
            Val::Int(i) => *i,
            Val::Str(s) => s.chars().count() as i64,
            Val::List(l) => l.len() as i64,
        }
    }
    pub fn truthy(&self) -> bool {
        match self {
            Val::Null => false,
            Val::Bool(b) => *b,
            Val::Int(i) => *i != 0,
            Val::Str(s) => !s.is_empty(),
            Val::List(l) => !l.is_empty(),
        }
    }
    pub fn list(&self) -> Vec<Val> {
        match self {
            Val::List(l) => l.clone(),
            Val::Null => Vec::new(),
            other => vec![other.clone()],
        }
    }
    /// Key of a list item: the item itself, or the first element of a pair.
    pub fn key(&self) -> Val {
        match self {
            Val::List(l) => l.first().cloned().unwrap_or(Val::Null),
            other => other.clone(),
        }
    }
    pub fn from_resource(r: Resource<Rc<Val>>) -> Val {
        match r {
            Resource::Loading => Val::List(vec![Val::Str("L".into())]),
            Resource::Ready(v) => Val::List(vec![Val::Str("R".into()), (*v).clone()]),
            // what a failed request says beyond its status is up to the browser
            Resource::Error(e) if e.starts_with("status ") => Val::List(vec![Val::Str("E".into()), Val::Str(e)]),
            Resource::Error(_) => Val::List(vec![Val::Str("E".into()), Val::Str("?".into())]),
        }
    }
}

pub fn j_to_jsjson(j: &J) -> JsJson {
    match j {
        J::Null => JsJson::Null,
        J::Bool(true) => JsJson::True,
        J::Bool(false) => JsJson::False,
        J::Number(n) => JsJson::Number(n.as_f64().unwrap_or(0.0)),
        J::String(s) => JsJson::String(s.clone()),
        J::Array(a) => JsJson::List(a.iter().map(j_to_jsjson).collect()),
        J::Object(o) => {
            if let Some(n) = o.get("$num").and_then(|x| x.as_str()) {
                return JsJson::Number(n.parse::<f64>().unwrap_or(f64::NAN));
            }
            JsJson::Object(o.iter().map(|(k, v)| (k.clone(), j_to_jsjson(v))).collect())
        }
    }
}

fn num_to_j(n: f64) -> J {
    if n == n.trunc() && n.abs() < 9e15 && !(n == 0.0 && n.is_sign_negative()) {
        J::from(n as i64)
    } else if n.is_finite() && n != 0.0 {
        serde_json::json!(n)
    } else {
        serde_json::json!({ "$num": n.to_string() })
    }
}

pub fn jsjson_to_j(j: &JsJson) -> J {
    match j {
        JsJson::Null => J::Null,
        JsJson::True => J::Bool(true),
        JsJson::False => J::Bool(false),
        JsJson::Number(n) => num_to_j(*n),
        JsJson::String(s) => J::from(s.as_str()),
        JsJson::List(l) => J::Array(l.iter().map(jsjson_to_j).collect()),
        JsJson::Object(o) => {
            let map: serde_json::Map<String, J> =
                o.iter().map(|(k, v)| (k.clone(), jsjson_to_j(v))).collect();
            J::Object(map)
        }
    }
}

pub fn jsjson_to_val(j: &JsJson) -> Val {
    Val::from_j(&jsjson_to_j(j))
}

/// Typed transport form of a JsValue used in specifications and logs.
pub fn j_to_jsvalue(j: &J) -> JsValue {
    match j {
        J::Null => JsValue::Null,
        J::Bool(b) => JsValue::bool(*b),
        J::Number(n) => JsValue::F64(n.as_f64().unwrap_or(0.0)),
        J::String(s) => JsValue::String(s.clone()),
        J::Array(a) => JsValue::List(a.iter().map(j_to_jsvalue).collect()),
        J::Object(o) => {
            let text = |k: &str| o.get(k).map(|v| v.as_str().unwrap_or("0").to_string());
            if let Some(v) = text("u32") {
                return JsValue::U32(v.parse().unwrap_or(0));
            }
            if let Some(v) = text("i32") {
                return JsValue::I32(v.parse().unwrap_or(0));
            }
            if let Some(v) = text("u64") {
                return JsValue::U64(v.parse().unwrap_or(0));
            }
            if let Some(v) = text("i64") {
                return JsValue::I64(v.parse().unwrap_or(0));
            }
            if let Some(v) = text("f64") {
                return JsValue::F64(v.parse().unwrap_or(f64::NAN));
            }
            if o.contains_key("undef") {
                return JsValue::Undefined;
            }
            if let Some(v) = o.get("vec").and_then(|v| v.as_array()) {
                return JsValue::Vec(v.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect());
            }
            if let Some(n) = o.get("many").and_then(|v| v.as_u64()) {
                // { many: n } stands for an object of n properties, { long: n } for a text of n characters
                return JsValue::Json(JsJson::Object(
                    (0..n).map(|i| (format!("k{i}"), JsJson::Number(i as f64))).collect(),
                ));
            }
            if let Some(n) = o.get("long").and_then(|v| v.as_u64()) {
                return JsValue::String("ż".repeat(n as usize));
            }
            if let Some(v) = o.get("json") {
                return JsValue::Json(j_to_jsjson(v));
            }
            if let Some(v) = o.get("obj").and_then(|v| v.as_object()) {
                return JsValue::Object(
                    v.iter().map(|(k, v)| (k.clone(), j_to_jsvalue(v))).collect(),
                );
            }
            JsValue::Undefined
        }
    }
}

pub fn jsvalue_to_j(v: &JsValue) -> J {
    use serde_json::json;
    match v {
        JsValue::U32(n) => json!({ "u32": n.to_string() }),
        JsValue::I32(n) => json!({ "i32": n.to_string() }),
        JsValue::U64(n) => json!({ "u64": n.to_string() }),
        JsValue::I64(n) => json!({ "i64": n.to_string() }),
        JsValue::F64(n) => json!({ "f64": n.to_string() }),
        JsValue::True => J::Bool(true),
        JsValue::False => J::Bool(false),
        JsValue::Null => J::Null,
        JsValue::Undefined => json!({ "undef": 1 }),
        JsValue::Vec(b) => json!({ "vec": b }),
        JsValue::String(s) => J::from(s.as_str()),
        JsValue::List(l) => J::Array(l.iter().map(jsvalue_to_j).collect()),
        JsValue::Object(o) => {
            let map: serde_json::Map<String, J> =
                o.iter().map(|(k, v)| (k.clone(), jsvalue_to_j(v))).collect();
            json!({ "obj": map })
        }
        JsValue::Json(JsJson::Object(o)) if o.len() > 200 => {
            let good = (0..o.len())
                .all(|i| o.get(&format!("k{i}")) == Some(&JsJson::Number(i as f64)));
            json!({ "many": if good { o.len() } else { 0 } })
        }
        JsValue::Json(j) => json!({ "json": jsjson_to_j(j) }),
    }
}

/// What an expression can see besides the global state.
/// State which belongs to one view: a value, or a router of its own
#[derive(Clone)]
pub enum Local {
    Value(vertigo::Value<Val>),
    Route(vertigo::router::Router<crate::app::Rt>),
}

#[derive(Clone)]
pub struct Env {
    pub args: Rc<Vec<Val>>,
    pub locals: Rc<Vec<(u32, Local)>>,
    pub path: Rc<String>,
}

impl Env {
    pub fn root() -> Env {
        Env {
            args: Rc::new(Vec::new()),
            locals: Rc::new(Vec::new()),
            path: Rc::new(String::new()),
        }
    }
    pub fn with_arg(&self, v: Val) -> Env {
        let mut args = (*self.args).clone();
        args.push(v);
        Env {
            args: Rc::new(args),
            locals: self.locals.clone(),
            path: self.path.clone(),
        }
    }
    pub fn sub(&self, part: &str) -> Env {
        Env {
            args: self.args.clone(),
            locals: self.locals.clone(),
            path: Rc::new(format!("{}/{}", self.path, part)),
        }
    }
}

fn at(e: &J, i: usize) -> &J {
    e.get(i).unwrap_or(&J::Null)
}
fn ix(e: &J, i: usize) -> usize {
    at(e, i).as_u64().unwrap_or(0) as usize
}

pub fn eval(ctx: &Context, e: &J, env: &Env) -> Val {
    let Some(op) = at(e, 0).as_str() else {
        return Val::from_j(e);
    };
    let ev = |i: usize| eval(ctx, at(e, i), env);
    match op {
        "k" => Val::from_j(at(e, 1)),
        "v" => match app().values.get(ix(e, 1)) {
            Some(v) => v.get(ctx),
            None => Val::Null,
        },
        "l" => match env.locals.get(ix(e, 1)) {
            Some((_, Local::Value(v))) => v.get(ctx),
            Some((uid, Local::Route(r))) => {
                let v = Val::Str(r.route.get(ctx).0);
                crate::app::log(serde_json::json!(["lrv", uid, v.to_j()]));
                v
            }
            None => Val::Null,
        },
        "a" => env.args.get(ix(e, 1)).cloned().unwrap_or(Val::Null),
        "c" => match app().computed(ix(e, 1)) {
            Some(c) => c.get(ctx),
            None => Val::Null,
        },
        "s" => match app().source(ix(e, 1)) {
            Some(c) => c.get(ctx),
            None => Val::Null,
        },
        "r" => match app().router(ix(e, 1)) {
            Some(r) => {
                let v = Val::Str(r.route.get(ctx).0);
                crate::app::log(serde_json::json!(["rv", ix(e, 1), v.to_j()]));
                v
            }
            None => Val::Null,
        },
        "cache" => match app().cache(ix(e, 1)) {
            Some(c) => {
                let v = Val::from_resource(c.get(ctx));
                crate::app::log(serde_json::json!(["cv", ix(e, 1), v.to_j()]));
                v
            }
            None => Val::Null,
        },
        "amap" => app().auto_map(ix(e, 1), ev(2)).get(ctx),
        "+" => Val::Int(ev(1).int().wrapping_add(ev(2).int()) % 100_003),
        "-" => Val::Int(ev(1).int().wrapping_sub(ev(2).int()) % 100_003),
        "*" => Val::Int(ev(1).int().wrapping_mul(ev(2).int()) % 100_003),
        "%" => {
            let m = ev(2).int();
            Val::Int(if m == 0 { 0 } else { ev(1).int().rem_euclid(m) })
        }
        "cat" => Val::Str(format!("{}{}", ev(1), ev(2)).chars().take(60).collect()),
        "str" => Val::Str(ev(1).to_string()),
        "eq" => Val::Bool(ev(1) == ev(2)),
        "lt" => Val::Bool(ev(1).int() < ev(2).int()),
        "not" => Val::Bool(!ev(1).truthy()),
        "if" => {
            if ev(1).truthy() {
                ev(2)
            } else {
                ev(3)
            }
        }
        "len" => Val::Int(ev(1).list().len() as i64),
        "idx" => {
            let l = ev(1).list();
            let i = ev(2).int();
            if i >= 0 && (i as usize) < l.len() {
                l[i as usize].clone()
            } else {
                Val::Null
            }
        }
        "rev" => {
            let mut l = ev(1).list();
            l.reverse();
            Val::List(l)
        }
        "take" => {
            let l = ev(1).list();
            let n = ev(2).int().max(0) as usize;
            Val::List(l.into_iter().take(n).collect())
        }
        "filt" => {
            let n = ev(2).int().max(1);
            Val::List(
                ev(1)
                    .list()
                    .into_iter()
                    .filter(|x| x.key().int().rem_euclid(n) != 0)
                    .collect(),
            )
        }
        "list" => Val::List((1..e.as_array().map_or(1, |a| a.len())).map(ev).collect()),
        "push" => {
            let mut l = ev(1).list();
            l.push(ev(2));
            Val::List(l)
        }
        "boom" => {
            // a program which fails while something is computed
            if ev(1).truthy() {
                crate::app::log(serde_json::json!(["panic!", "boom"]));
                panic!("boom");
            }
            ev(2)
        }
        _ => Val::Null,
    }
}
