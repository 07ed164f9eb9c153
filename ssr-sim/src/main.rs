//! Runs the real server (page handler, request loop, WebAssembly host, HTML output) in simulated time.
//! One scenario per line on stdin (JSON), one result per line on stdout.

mod http1;
mod net;
mod seams;
mod slog;

use serde_json::{json, Value as J};
use std::io::{BufRead, Write};
use std::sync::Arc;
use tower::ServiceExt;

fn num(j: &J, k: &str, d: u64) -> u64 {
    j.get(k).and_then(|x| x.as_u64()).unwrap_or(d)
}

fn pairs(j: Option<&J>) -> Vec<(String, String)> {
    j.and_then(|x| x.as_array())
        .map(|a| {
            a.iter()
                .map(|p| {
                    (
                        p[0].as_str().unwrap_or("").to_string(),
                        p[1].as_str().unwrap_or("").to_string(),
                    )
                })
                .collect()
        })
        .unwrap_or_default()
}

/// A run which makes no progress any more ends the process.
static RUNNING: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
fn watchdog() {
    use std::sync::atomic::Ordering::Relaxed;
    std::thread::spawn(|| {
        let mut last = 0;
        let mut same = 0;
        loop {
            std::thread::sleep(std::time::Duration::from_secs(1));
            let now = RUNNING.load(Relaxed);
            same = if now == last && now % 2 == 1 { same + 1 } else { 0 };
            last = now;
            if same > 40 {
                eprintln!("a run hangs");
                std::process::exit(97);
            }
        }
    });
}

async fn page(app: axum::Router, n: usize, p: J) {
    slog::set_page(tokio::task::id(), n);
    tokio::time::sleep(std::time::Duration::from_millis(num(&p, "at", 0))).await;
    slog::push(json!(["page"]));
    let url = p.get("url").and_then(|x| x.as_str()).unwrap_or("/").to_string();
    let mut rb = http::Request::builder().uri(url.as_str());
    rb = rb.method(p.get("m").and_then(|x| x.as_str()).unwrap_or("GET"));
    if let Some(b) = p.get("b") {
        rb = rb.header("content-type", "application/json");
        let request = rb.body(hyper::Body::from(b.to_string()));
        return answer(app, &p, request).await;
    }
    let request = rb.body(hyper::Body::empty());
    answer(app, &p, request).await
}

async fn answer(app: axum::Router, p: &J, request: http::Result<http::Request<hyper::Body>>) {
    let request = match request {
        Ok(r) => r,
        Err(e) => {
            slog::push(json!(["badurl", e.to_string()]));
            return;
        }
    };
    // like the connection task of the HTTP server: a panic ends it without an answer
    let handle = tokio::spawn(async move {
        let response = match app.oneshot(request).await {
            Ok(r) => r,
            Err(e) => match e {},
        };
        let status = response.status().as_u16();
        let headers: Vec<J> = response
            .headers()
            .iter()
            .map(|(k, v)| json!([k.as_str(), String::from_utf8_lossy(v.as_bytes())]))
            .collect();
        let body = hyper::body::to_bytes(response.into_body()).await;
        match body {
            Ok(b) => {
                slog::push(json!(["answer", status, headers, String::from_utf8_lossy(&b)]))
            }
            Err(e) => slog::push(json!(["answer-failed", e.to_string()])),
        }
    });
    let abort = handle.abort_handle();
    if let Some(cut) = p.get("cut").and_then(|x| x.as_u64()) {
        tokio::spawn(async move {
            tokio::time::sleep(std::time::Duration::from_millis(cut)).await;
            if !abort.is_finished() {
                slog::push(json!(["cut"]));
                abort.abort();
            }
        });
    }
    if let Err(e) = handle.await {
        if e.is_panic() {
            slog::push(json!(["no-answer"]));
        }
    }
}

fn simulate(sc: J, dest: String) -> J {
    seams::begin(num(&sc, "hash", 1), num(&sc, "wall", 1_700_000_000_000));
    slog::begin();
    let rt = tokio::runtime::Builder::new_current_thread()
        .enable_time()
        .start_paused(true)
        .rng_seed(tokio::runtime::RngSeed::from_bytes(&num(&sc, "hash", 1).to_le_bytes()))
        .on_task_spawn(|m| slog::on_spawn(m.id()))
        .on_before_task_poll(|m| slog::on_poll(m.id()))
        .on_after_task_poll(|_| slog::on_poll_end())
        .build()
        .expect("runtime");
    let limit = num(&sc, "limit", 60_000);
    let done = rt.block_on(async {
        seams::clock_on();
        slog::clock_on();
        let transport = net::Net::new(sc.get("net").cloned().unwrap_or(J::Null));
        reqwest::sim::install(Some(Arc::new(transport)));
        let opts = vertigo_cli::ServeOpts {
            common: vertigo_cli::CommonOpts { dest_dir: dest },
            inner: vertigo_cli::serve::ServeOptsInner {
                host: "127.0.0.1".into(),
                port: 4444,
                proxy: pairs(sc.get("proxy")),
                env: pairs(sc.get("env")),
            },
        };
        let watch = sc.get("watch").and_then(|x| x.as_u64()).map(|x| x as u16);
        if let Err(code) = vertigo_cli::serve::run(opts, watch).await {
            slog::push(json!(["serve-failed", code]));
            return true;
        }
        let Some(app) = vertigo_cli::sim::take_app() else {
            slog::push(json!(["no-app"]));
            return true;
        };
        let mut tasks = Vec::new();
        for s in sc.get("stalls").and_then(|x| x.as_array()).cloned().unwrap_or_default() {
            tokio::spawn(async move {
                tokio::time::sleep(std::time::Duration::from_millis(s[0].as_u64().unwrap_or(0))).await;
                slog::push(json!(["stall", s[1]]));
                tokio::time::advance(std::time::Duration::from_millis(s[1].as_u64().unwrap_or(0))).await;
            });
        }
        for jmp in sc.get("jumps").and_then(|x| x.as_array()).cloned().unwrap_or_default() {
            tokio::spawn(async move {
                tokio::time::sleep(std::time::Duration::from_millis(jmp[0].as_u64().unwrap_or(0))).await;
                slog::push(json!(["jump", jmp[1]]));
                seams::jump(jmp[1].as_i64().unwrap_or(0));
            });
        }
        for (n, p) in sc.get("pages").and_then(|x| x.as_array()).cloned().unwrap_or_default().into_iter().enumerate() {
            tasks.push(tokio::spawn(page(app.clone(), n, p)));
        }
        for (n, c) in sc.get("conns").and_then(|x| x.as_array()).cloned().unwrap_or_default().into_iter().enumerate() {
            tasks.push(tokio::spawn(http1::connection(app.clone(), n, c)));
        }
        drop(app);
        let all = async {
            for t in tasks {
                let _ = t.await;
            }
            // late answers of backends
            tokio::time::sleep(std::time::Duration::from_millis(num(&sc, "tail", 2_000))).await;
        };
        tokio::time::timeout(std::time::Duration::from_millis(limit), all).await.is_ok()
    });
    reqwest::sim::install(None);
    seams::clock_off();
    slog::clock_off();
    drop(rt);
    json!({ "log": slog::take(), "done": done })
}

fn main() {
    let dest = std::env::args().nth(1).expect("directory of the built application");
    slog::install();
    watchdog();
    std::panic::set_hook(Box::new(|info| {
        slog::push(json!(["host-panic", info.to_string()]));
    }));
    let stdin = std::io::stdin();
    let mut out = std::io::stdout();
    for line in stdin.lock().lines() {
        let Ok(line) = line else { break };
        if line.is_empty() {
            continue;
        }
        let dest = dest.clone();
        RUNNING.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        // a thread of its own: whatever the run leaves in thread-local state goes away with it
        let result = std::thread::Builder::new()
            .stack_size(64 << 20)
            .spawn(move || match serde_json::from_str::<J>(&line) {
                Ok(sc) => simulate(sc, dest),
                Err(e) => json!({ "error": e.to_string() }),
            })
            .expect("thread")
            .join();
        let text = match result {
            Ok(j) => j.to_string(),
            Err(_) => json!({ "error": "the simulation panicked" }).to_string(),
        };
        RUNNING.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
        let _ = out.write_all(text.as_bytes());
        let _ = out.write_all(b"\n");
        let _ = out.flush();
    }
}
