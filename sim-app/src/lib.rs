//! The program under simulation: an interpreter of program specifications (JSON) built on the
//! public API of vertigo. The simulator generates the specification, so one binary is every program.

mod app;
mod heap;
mod node;
mod val;

use vertigo::{dom_element, get_driver, main, router::Router, transaction, DomNode};

#[main]
fn sim_app() -> DomNode {
    let spec_text = get_driver().env("spec").unwrap_or_else(|| "{}".to_string());
    let mut spec: serde_json::Value = serde_json::from_str(&spec_text).unwrap_or_default();
    if let Some(pages) = spec.get("pages").cloned() {
        // one program for every address: what the server is asked to render at once
        let route = Router::<app::Rt>::new_history_router().route;
        let place = transaction(|ctx| route.get(ctx)).0;
        let path = place.split(['?', '#']).next().unwrap_or("").to_string();
        spec = pages.get(&path).cloned().unwrap_or_default();
    }
    app::init(spec);

    let root = dom_element! { <html /> };
    let head = dom_element! { <head /> };
    let body = dom_element! { <body /> };
    node::build_root(&head, &body);
    root.add_child(head);
    root.add_child(body);
    app::log(serde_json::json!(["init"]));
    root.into()
}
