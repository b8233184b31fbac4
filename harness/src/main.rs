//! Conformance harness: replays behaviours generated by TLC from the specifications in
//! /verif/spec against the real crates in /repo, and records traces of the real code for
//! TLC to validate against those specifications.
//!
//!   vh replay <module> <behaviours.ndjson> <result.json>
//!   vh record <module> <out.ndjson> <args.json>
mod common;
mod m_context;
mod m_ctxval;
mod m_futures;
mod m_prop;
mod m_globals;
mod m_logrec;
mod m_expo;
mod m_metrics;
mod m_span;
mod m_tree;
mod m_proc;
mod m_providers;
mod m_meter;
mod m_periodic;
mod m_remote;
mod m_resource;
mod m_carrier;
mod m_config;
mod m_otlp;
mod m_otlp_wire;
mod m_zipkin;
mod sched;

use common::*;
use serde_json::{json, Value};
use std::io::Write;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    install_panic_hook();
    match a.get(1).map(|s| s.as_str()) {
        Some("replay") => {
            let module = a[2].clone();
            let text = std::fs::read_to_string(&a[3]).expect("behaviours");
            let behaviours: Vec<Value> = text
                .lines()
                .filter(|l| !l.is_empty())
                .map(|l| serde_json::from_str(l).expect("json"))
                .collect();
            let res = replay_all(&module, behaviours);
            std::fs::write(&a[4], serde_json::to_string(&res).unwrap()).unwrap();
            std::process::exit(0);
        }
        Some("record") => {
            let args: Value = serde_json::from_str(&a[4]).expect("args");
            let traces = record(&a[2], &args);
            let mut f = std::io::BufWriter::new(std::fs::File::create(&a[3]).unwrap());
            for t in &traces {
                writeln!(f, "{}", serde_json::to_string(t).unwrap()).unwrap();
            }
            f.flush().unwrap();
            println!("{}", json!({"recorded": traces.len()}));
            std::process::exit(0);
        }
        _ => {
            eprintln!("usage: vh replay|record ...");
            std::process::exit(2);
        }
    }
}

fn make(module: &str, _first: &Value) -> Box<dyn Sut> {
    match module {
        "ctxstack" => Box::new(m_context::StackSut::new()),
        "ctxval" => Box::new(m_ctxval::ValSut::new()),
        "futures" => Box::new(m_futures::FutSut::new()),
        "prop" => Box::new(m_prop::PropSut::new()),
        "tree" => Box::new(m_tree::TreeSut::new()),
        "metrics" => Box::new(m_metrics::MetricsSut::new()),
        "expo" => Box::new(m_expo::ExpoSut::new()),
        "logrec" => Box::new(m_logrec::LogSut::new()),
        "providers" => Box::new(m_providers::ProvSut::new()),
        "otlp" => Box::new(m_otlp::OtlpSut::default()),
        "remote" => Box::new(m_remote::RemoteSut::default()),
        "globals" => Box::new(m_globals::GlobalSut::new()),
        "carrier" => Box::new(m_carrier::CarrierSut::new()),
        "zipkin" => Box::new(m_zipkin::ZipkinSut::default()),
        "config" => Box::new(m_config::CfgSut),
        "resource" => Box::new(m_resource::ResSut::default()),
        "span" => Box::new(m_span::SpanSut::new()),
        _ => panic!("unknown module {module}"),
    }
}

fn record(module: &str, args: &Value) -> Vec<Value> {
    match module {
        "ratio" => m_tree::record_ratio(args),
        "ids" => m_tree::record_ids(args),
        "proc" => m_proc::record(args),
        "meter" => m_meter::record(args),
        "periodic" => m_periodic::record(args),
        "provrace" => m_providers::record_race(args),
        _ => panic!("unknown recorder {module}"),
    }
}

fn replay_all(module: &str, behaviours: Vec<Value>) -> Value {
    let jobs = std::env::var("VH_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or(8usize);
    run_parallel(behaviours, jobs, module.to_string(), make)
}
