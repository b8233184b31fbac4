//! M11: periodic readers (thread and async) under schedules; the traces are judged by
//! spec/PeriodicTrace.tla. Measurement k adds 2^k, so an exported sum names what it covers.
use crate::m_metrics::pref;
use crate::m_proc::{HRt, Pend, Run, INTERVAL, XTIMEOUT};
use crate::sched::{self, Rng, Sched};
use opentelemetry::metrics::{Counter, Histogram, MeterProvider};
use opentelemetry::KeyValue;
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::{periodic_reader_with_async_runtime, PeriodicReader, SdkMeterProvider, Temporality};
use serde_json::{json, Value};
use std::sync::atomic::{AtomicI64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

struct MExp {
    run: Arc<Run>,
    temp: Temporality,
    pend_ok: bool,
    fail_down: bool,
}
/// Reports the end of an export, and whether its future was dropped before it was done.
struct Guard<'a> {
    run: &'a Run,
    x: usize,
    cut: bool,
}
impl Drop for Guard<'_> {
    fn drop(&mut self) {
        self.run.ev(json!({"e": "exported", "x": self.x, "cut": self.cut}));
    }
}
fn ids(rm: &ResourceMetrics) -> Vec<i64> {
    let mut total: [u128; 2] = [0, 0];
    let mut bad = vec![];
    for m in rm.scope_metrics.iter().flat_map(|s| &s.metrics) {
        match &m.data {
            AggregatedMetrics::U64(MetricData::Sum(s)) => {
                for p in &s.data_points {
                    if p.value == 0 {
                        bad.push(-1);
                    }
                    total[0] += p.value as u128;
                }
            }
            AggregatedMetrics::F64(MetricData::Histogram(h)) => {
                for p in &h.data_points {
                    if p.count == 0 || p.count != (p.sum as u128).count_ones() as u64 {
                        bad.push(-1);
                    }
                    total[1] += p.sum as u128;
                }
            }
            _ => bad.push(-1),
        }
    }
    for k in 0..100i64 {
        if total[(k % 2) as usize] & (1u128 << k) != 0 {
            bad.push(k);
        }
        if total[((k + 1) % 2) as usize] & (1u128 << k) != 0 {
            bad.push(-1);
        }
    }
    bad
}
impl PushMetricExporter for MExp {
    async fn export(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        let ids = ids(rm);
        let run = &self.run;
        let x = run.exports.fetch_add(1, Ordering::SeqCst) + 1;
        let fail = run.fail_every > 0 && x % run.fail_every == 0;
        run.ev(json!({"e": "export", "x": x, "ids": ids, "ok": !fail}));
        run.seen.lock().unwrap().extend(ids.iter());
        let mut g = Guard { run, x, cut: true };
        sched::point("export");
        if self.pend_ok && run.pend_every > 0 && x % run.pend_every == 0 {
            Pend::new(run.clone()).await;
        }
        g.cut = false;
        if fail {
            return Err(match x / run.fail_every % 3 {
                0 => OTelSdkError::InternalFailure("planned".into()),
                1 => OTelSdkError::Timeout(Duration::from_secs(1)),
                _ => OTelSdkError::AlreadyShutdown,
            });
        }
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        self.run.ev(json!({"e": "xshutdown"}));
        sched::point("xshutdown");
        self.run.ev(json!({"e": "xdown"}));
        if self.fail_down {
            Err(OTelSdkError::InternalFailure("planned".into()))
        } else {
            Ok(())
        }
    }
    fn temporality(&self) -> Temporality {
        self.temp
    }
}

struct Sys {
    run: Arc<Run>,
    provider: Mutex<Option<SdkMeterProvider>>,
    c: Counter<u64>,
    h: Histogram<f64>,
    calls: AtomicI64,
}
impl Sys {
    fn op(&self, op: &str) {
        let run = &self.run;
        match op {
            "rec" => {
                let k = run.next.fetch_add(1, Ordering::SeqCst);
                assert!(k < 50, "harness: too many measurements");
                run.ev(json!({"e": "rec", "m": k}));
                let a = if k % 3 == 0 { vec![] } else { vec![KeyValue::new("a", k % 5)] };
                if k % 2 == 0 {
                    self.c.add(1 << k, &a);
                } else {
                    self.h.record((1u64 << k) as f64, &a);
                }
                run.ev(json!({"e": "recd", "m": k}));
            }
            "flush" | "shutdown" => {
                let p = self.provider.lock().unwrap().clone();
                let Some(p) = p else { return };
                let c = self.calls.fetch_add(1, Ordering::SeqCst) + 1;
                run.ev(json!({"e": "call", "op": op, "c": c}));
                let r = if op == "flush" { p.force_flush() } else { p.shutdown() };
                let res = match r {
                    Ok(()) => "ok",
                    Err(OTelSdkError::AlreadyShutdown) => "already",
                    Err(OTelSdkError::Timeout(_)) => "timeout",
                    Err(_) => "err",
                };
                run.ev(json!({"e": "ret", "op": op, "c": c, "res": res}));
            }
            "drop" => {
                let p = self.provider.lock().unwrap().take();
                let c = self.calls.fetch_add(1, Ordering::SeqCst) + 1;
                run.ev(json!({"e": "call", "op": "drop", "c": c}));
                drop(p);
                run.ev(json!({"e": "ret", "op": "drop", "c": c, "res": "dropped"}));
            }
            "tick" => run.fire(INTERVAL),
            "xtimeout" => run.fire(XTIMEOUT),
            "release" => run.release(),
            "settle" => {
                // every measurement so far has been exported by the timer, or time is up
                let end = Instant::now() + Duration::from_secs(10);
                let n = run.next.load(Ordering::SeqCst);
                let all = || {
                    let s = run.seen.lock().unwrap();
                    (0..n).all(|k| s.contains(&k))
                };
                let down = || run.log.lock().unwrap().iter().any(|e| e["e"] == "xshutdown");
                while !all() && !down() && Instant::now() < end {
                    sched::point("wait?");
                    run.fire(INTERVAL);
                    std::thread::sleep(Duration::from_millis(1));
                }
                run.ev(json!({"e": "settled"}));
            }
            o => panic!("harness: op {o}"),
        }
    }
}

fn run_scenario(c: &Value) -> Value {
    let kind = c["kind"].as_str().unwrap();
    let temp = pref(c["temp"].as_str().unwrap());
    let mut r0 = Run::default();
    r0.fail_every = c["fail"].as_u64().unwrap_or(0) as usize;
    r0.pend_every = c["pend"].as_u64().unwrap_or(0) as usize;
    let run = Arc::new(r0);
    let timer = c["delay_ms"].as_u64().unwrap_or(0);
    let delay = if timer > 0 { Duration::from_millis(timer) } else { INTERVAL };
    let solo = c["prog"].as_object().unwrap().values().filter(|v| v.as_array().unwrap().iter().any(|o| o == "flush" || o == "shutdown")).count() <= 1
        && timer == 0
        && !c["prog"].as_object().unwrap().values().any(|v| v.as_array().unwrap().iter().any(|o| o == "tick"));
    run.ev(json!({"e": "cfg", "delta": temp != Temporality::Cumulative, "solo": solo}));
    let rt = kind.starts_with("at").then(|| {
        tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
    });
    let guard = rt.as_ref().map(|r| r.enter());
    let s = Sched::install();
    Sched::exempt();
    let exp = MExp { run: run.clone(), temp, pend_ok: kind != "thread", fail_down: c["fail_down"] == true };
    let pb = SdkMeterProvider::builder();
    use opentelemetry_sdk::runtime::{Tokio, TokioCurrentThread};
    use periodic_reader_with_async_runtime::PeriodicReader as AReader;
    let provider = match kind {
        "thread" => pb.with_reader(PeriodicReader::builder(exp).with_interval(delay).build()),
        "async" => pb.with_reader(
            AReader::builder(exp, HRt { run: run.clone() }).with_interval(delay).with_timeout(XTIMEOUT).build(),
        ),
        "atokio" => pb.with_reader(AReader::builder(exp, Tokio).with_interval(delay).with_timeout(XTIMEOUT).build()),
        "atcur" => pb.with_reader(AReader::builder(exp, TokioCurrentThread).with_interval(delay).with_timeout(XTIMEOUT).build()),
        o => panic!("harness: kind {o}"),
    }
    .build();
    drop(guard);
    let m = provider.meter("m");
    let sys = Arc::new(Sys {
        run: run.clone(),
        c: m.u64_counter("c").build(),
        h: m.f64_histogram("h").build(),
        provider: Mutex::new(Some(provider)),
        calls: AtomicI64::new(0),
    });
    drop(m);
    let strs = |v: &Value| -> Vec<String> { v.as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default() };
    let progs: Vec<(String, Vec<String>)> = c["prog"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), strs(v))).collect();
    let names: Vec<String> = progs.iter().map(|p| p.0.clone()).collect();
    names.iter().for_each(|n| s.announce(n));
    let mut hs = vec![];
    for (name, ops) in progs {
        let (s, sys) = (s.clone(), sys.clone());
        hs.push(std::thread::spawn(move || {
            s.enter(&name);
            for op in ops {
                sys.op(&op);
                sched::point("next");
            }
            s.done();
        }));
    }
    let mut rng = Rng(c["seed"].as_u64().unwrap_or(1));
    let ok = s.run(&names, &strs(&c["sched"]), &mut rng, Duration::from_secs(15), &|| run.release());
    s.free();
    run.released.store(true, Ordering::SeqCst);
    run.release();
    let mut hung = !ok;
    if ok {
        hs.into_iter().for_each(|h| h.join().unwrap());
        let (tx, rx) = std::sync::mpsc::channel();
        let (sys2, tail) = (sys.clone(), strs(&c["tail"]));
        let h = std::thread::spawn(move || {
            tail.iter().for_each(|op| sys2.op(op));
            let _ = tx.send(());
        });
        hung = rx.recv_timeout(Duration::from_secs(20)).is_err();
        if !hung {
            let _ = h.join();
            let end = Instant::now() + Duration::from_secs(10);
            while run.live_tasks.load(Ordering::SeqCst) > 0 && Instant::now() < end {
                run.release();
                std::thread::sleep(Duration::from_micros(200));
            }
        }
    }
    run.ev(json!({"e": if hung { "hang" } else { "end" }}));
    Sched::uninstall();
    let l = run.log.lock().unwrap().clone();
    drop(sys);
    if let Some(rt) = rt {
        rt.shutdown_timeout(Duration::from_secs(5));
    }
    Value::Array(l)
}

pub fn record(args: &Value) -> Vec<Value> {
    let text = std::fs::read_to_string(args["file"].as_str().unwrap()).unwrap();
    crate::m_proc::until_hung(text.lines().map(|l| run_scenario(&serde_json::from_str(l).unwrap())))
}
