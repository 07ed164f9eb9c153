//! Clients which speak HTTP/1 with the real connection code of the server, over pipes inside the process.
use crate::{num, slog};
use serde_json::{json, Value as J};
use std::time::Duration;
use tokio::io::{AsyncReadExt, AsyncWriteExt};

fn data(part: &J) -> Vec<u8> {
    match part.get("bin").and_then(|x| x.as_array()) {
        Some(a) => a.iter().map(|x| x.as_u64().unwrap_or(0) as u8).collect(),
        None => part.get("t").and_then(|x| x.as_str()).unwrap_or("").as_bytes().to_vec(),
    }
}
/// bytes as a text of as many characters
fn latin(b: &[u8]) -> String {
    b.iter().map(|x| char::from(*x)).collect()
}

pub async fn connection(app: axum::Router, n: usize, c: J) {
    slog::set_page(tokio::task::id(), n);
    tokio::time::sleep(Duration::from_millis(num(&c, "at", 0))).await;
    let (near, far) = tokio::io::duplex(num(&c, "pipe", 65_536).max(1) as usize);
    slog::push(json!(["open"]));
    let server = tokio::spawn(async move {
        let served = hyper::server::conn::Http::new().serve_connection(far, app).await;
        slog::push(json!(["served", served.err().map(|e| e.to_string())]));
    });
    tokio::spawn(async move {
        if let Err(e) = server.await {
            if e.is_panic() {
                slog::push(json!(["panic"]));
            }
        }
    });
    let (mut from, mut to) = tokio::io::split(near);
    let parts = c.get("parts").and_then(|x| x.as_array()).cloned().unwrap_or_default();
    let hold = num(&c, "hold", 30_000);
    let writer = tokio::spawn(async move {
        for part in parts {
            tokio::time::sleep(Duration::from_millis(num(&part, "d", 0))).await;
            if to.write_all(&data(&part)).await.is_err() {
                slog::push(json!(["unsent"]));
                break;
            }
            slog::push(json!(["sent"]));
        }
        to
    });
    let pace = num(&c, "pace", 0);
    let reader = tokio::spawn(async move {
        let mut buf = vec![0; 65_536];
        loop {
            match from.read(&mut buf).await {
                Ok(0) => {
                    slog::push(json!(["end"]));
                    break;
                }
                Ok(k) => slog::push(json!(["data", latin(&buf[..k])])),
                Err(e) => {
                    slog::push(json!(["failed", e.to_string()]));
                    break;
                }
            }
            if pace > 0 {
                tokio::time::sleep(Duration::from_millis(pace)).await;
            }
        }
    });
    let stop = reader.abort_handle();
    if tokio::time::timeout(Duration::from_millis(hold), reader).await.is_err() {
        // the client goes away
        slog::push(json!(["gone"]));
        stop.abort();
    }
    writer.abort();
    let _ = writer.await;
}
