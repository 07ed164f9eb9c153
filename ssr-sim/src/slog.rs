//! The record of a run: what the server logged, what reached the backends, what was answered, with simulated times.
use serde_json::{json, Value as J};
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use tokio::task::Id;
use tokio::time::Instant;

struct State {
    log: Vec<J>,
    start: Option<Instant>,
    last: u64,
}

thread_local! {
    static STATE: RefCell<State> = const { RefCell::new(State { log: Vec::new(), start: None, last: 0 }) };
}

// Which page request a task works for: its own one, or that of the task which spawned it.
thread_local! {
    static CUR: Cell<Option<usize>> = const { Cell::new(None) };
    static PAGES: RefCell<Option<HashMap<Id, usize>>> = const { RefCell::new(None) };
}
pub fn page() -> Option<usize> {
    CUR.with(|c| c.get())
}
pub fn set_page(id: Id, n: usize) {
    PAGES.with(|p| p.borrow_mut().get_or_insert_with(HashMap::new).insert(id, n));
    CUR.with(|c| c.set(Some(n)));
}
pub fn on_spawn(id: Id) {
    if let Some(n) = page() {
        PAGES.with(|p| p.borrow_mut().get_or_insert_with(HashMap::new).insert(id, n));
    }
}
pub fn on_poll(id: Id) {
    let n = PAGES.with(|p| p.borrow().as_ref().and_then(|m| m.get(&id).copied()));
    CUR.with(|c| c.set(n));
}
pub fn on_poll_end() {
    CUR.with(|c| c.set(None));
}

pub fn begin() {
    STATE.with(|s| *s.borrow_mut() = State { log: Vec::new(), start: None, last: 0 });
}
pub fn clock_on() {
    let now = Instant::now();
    STATE.with(|s| s.borrow_mut().start = Some(now));
}
pub fn clock_off() {
    STATE.with(|s| s.borrow_mut().start = None);
}
pub fn push(mut j: J) {
    STATE.with(|s| {
        let start = s.borrow().start;
        if let Some(start) = start {
            let t = start.elapsed().as_micros() as u64;
            s.borrow_mut().last = t;
        }
        let t = s.borrow().last;
        if let J::Array(a) = &mut j {
            a.insert(0, json!(t));
            a.insert(1, json!(page()));
        }
        s.borrow_mut().log.push(j);
    });
}
pub fn take() -> Vec<J> {
    STATE.with(|s| std::mem::take(&mut s.borrow_mut().log))
}

struct Logger;
impl log::Log for Logger {
    fn enabled(&self, m: &log::Metadata<'_>) -> bool {
        m.target().starts_with("vertigo")
    }
    fn log(&self, record: &log::Record<'_>) {
        if self.enabled(record.metadata()) {
            push(json!(["log", record.level().as_str(), record.args().to_string()]));
        }
    }
    fn flush(&self) {}
}
static LOGGER: Logger = Logger;
pub fn install() {
    let _ = log::set_logger(&LOGGER);
    log::set_max_level(log::LevelFilter::Info);
}
