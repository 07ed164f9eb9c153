//! The simulated backends: every answer, delay and failure is prescribed by the scenario.
use reqwest::sim::{Answer, SimRequest, SimResponse, Transport};
use serde_json::{json, Value as J};
use std::collections::HashMap;
use std::sync::Mutex;
use std::time::Duration;

use crate::slog;

pub struct Net {
    plan: J,
    seen: Mutex<(HashMap<String, usize>, usize)>,
}

impl Net {
    pub fn new(plan: J) -> Net {
        Net { plan, seen: Mutex::new((HashMap::new(), 0)) }
    }
}

fn bytes(b: &[u8]) -> J {
    match std::str::from_utf8(b) {
        Ok(s) => json!({ "text": s }),
        Err(_) => json!({ "bin": b }),
    }
}

async fn pause(ms: u64, yields: u64) {
    if ms > 0 {
        tokio::time::sleep(Duration::from_millis(ms)).await;
    }
    for _ in 0..yields {
        tokio::task::yield_now().await;
    }
}

impl Transport for Net {
    fn send(&self, r: SimRequest) -> Answer {
        let (k, id) = {
            let mut seen = self.seen.lock().unwrap_or_else(|e| e.into_inner());
            seen.1 += 1;
            let id = seen.1;
            let n = seen.0.entry(r.url.clone()).or_insert(0);
            *n += 1;
            (*n - 1, id)
        };
        let body = r.body.as_ref().map(|b| match std::str::from_utf8(b) {
            Ok(s) => json!({ "text": s, "bin": b }),
            Err(_) => json!({ "bin": b }),
        });
        let headers: Vec<J> = r.headers.iter().map(|(k, v)| json!([k, String::from_utf8_lossy(v)])).collect();
        slog::push(json!(["req", id, r.method, r.url, headers, body]));
        let plan = match self.plan.get(&r.url) {
            Some(J::Array(a)) if !a.is_empty() => a[k.min(a.len() - 1)].clone(),
            _ => json!({ "k": "fail" }),
        };
        Box::pin(async move {
            let n = |k: &str| plan.get(k).and_then(|x| x.as_u64()).unwrap_or(0);
            let s = |k: &str| plan.get(k).and_then(|x| x.as_str()).map(|x| x.to_string());
            pause(n("d"), n("y")).await;
            match s("k").as_deref() {
                Some("hang") => {
                    std::future::pending::<()>().await;
                }
                Some("fail") | None => {
                    slog::push(json!(["net", id, "fail"]));
                    return Err("simulated connection error".to_string());
                }
                _ => {}
            }
            let mut headers = Vec::new();
            if let Some(ct) = s("ct") {
                headers.push(("content-type".to_string(), ct.into_bytes()));
            }
            for (k, v) in crate::pairs(plan.get("h")) {
                headers.push((k, v.into_bytes()));
            }
            let bodyfail = s("k").as_deref() == Some("bodyfail");
            let hang = s("k").as_deref() == Some("bodyhang");
            let data = match plan.get("bin").and_then(|x| x.as_array()) {
                Some(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
                None => s("body").unwrap_or_default().into_bytes(),
            };
            let bd = n("bd");
            slog::push(json!(["net", id, "head"]));
            Ok(SimResponse {
                status: n("status") as u16,
                headers,
                body: Box::pin(async move {
                    pause(bd, 0).await;
                    if hang {
                        std::future::pending::<()>().await;
                    }
                    if bodyfail {
                        slog::push(json!(["net", id, "bodyfail"]));
                        return Err("simulated connection error in the body".to_string());
                    }
                    slog::push(json!(["net", id, "ok", bytes(&[])]));
                    Ok(data)
                }),
            })
        })
    }
}
