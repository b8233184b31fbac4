//! Conformance harness for the log appenders, built with their default features and with
//! all of them (feature "rich"): replays behaviours of spec/Appenders.tla.
//!
//!   vha replay <module> <behaviours.ndjson> <result.json>
#[path = "../../harness/src/common.rs"]
mod common;
mod m_appender;

use common::*;
use serde_json::Value;

fn make(module: &str, _first: &Value) -> Box<dyn Sut> {
    match module {
        "appender" => Box::new(m_appender::AppSut::default()),
        _ => panic!("harness: unknown module {module}"),
    }
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    assert!(a.get(1).map(String::as_str) == Some("replay"), "usage: vha replay <module> <in> <out>");
    let text = std::fs::read_to_string(&a[3]).expect("behaviours");
    let behaviours = text.lines().filter(|l| !l.is_empty()).map(|l| serde_json::from_str(l).expect("json")).collect();
    let jobs = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    let res = run_parallel(behaviours, jobs, a[2].clone(), make);
    std::fs::write(&a[4], serde_json::to_string(&res).unwrap()).unwrap();
    std::process::exit(0);
}
