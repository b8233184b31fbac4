//! S02, M12: providers, their processors and the handles that keep them alive.
use crate::common::*;
use opentelemetry::logs::{AnyValue, LogRecord, Logger, LoggerProvider, Severity};
use opentelemetry::trace::{Span as _, Tracer, TracerProvider};
use opentelemetry::metrics::{Counter, MeterProvider};
use opentelemetry::{Context, InstrumentationScope};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogProcessor, SdkLogRecord, SdkLogger, SdkLoggerProvider};
use opentelemetry_sdk::trace::{SdkTracer, SdkTracerProvider, Span, SpanData, SpanProcessor};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{InstrumentKind, ManualReader, Pipeline, SdkMeterProvider, Temporality};
use opentelemetry_sdk::Resource;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::SeqCst};
use std::sync::{Arc, Mutex};

type Told = Arc<Mutex<Vec<String>>>;
#[derive(Debug)]
struct Proc {
    i: usize,
    how: String,
    told: Told,
}
impl Proc {
    fn tell(&self, what: &str, k: &str) {
        let m = if k.is_empty() { format!("{what}{}", self.i) } else { format!("{what}{}:{k}", self.i) };
        self.told.lock().unwrap().push(m);
    }
    fn res(&self, bad: &[&str]) -> OTelSdkResult {
        if !bad.contains(&self.how.as_str()) {
            return Ok(());
        }
        Err(match self.i % 3 {
            0 => OTelSdkError::AlreadyShutdown,
            1 => OTelSdkError::InternalFailure("planned".into()),
            _ => OTelSdkError::Timeout(std::time::Duration::from_secs(1)),
        })
    }
    fn flush(&self) -> OTelSdkResult {
        self.tell("f", "");
        self.res(&["ff", "bf"])
    }
    fn down(&self) -> OTelSdkResult {
        self.tell("s", "");
        self.res(&["sf", "bf"])
    }
    fn resource(&self, r: &Resource) {
        if r.get(&"mine".into()).is_some() {
            self.tell("r", "");
        }
    }
}
impl SpanProcessor for Proc {
    fn on_start(&self, span: &mut Span, _cx: &Context) {
        // the name is only readable through the data that would be exported now
        let k = span.exported_data().map(|d| d.name.to_string()).unwrap_or("?".into());
        self.tell("b", &k);
    }
    fn on_end(&self, span: SpanData) {
        self.tell("e", &span.name);
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.flush()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.down()
    }
    fn set_resource(&mut self, r: &Resource) {
        self.resource(r)
    }
}
impl LogProcessor for Proc {
    fn emit(&self, data: &mut SdkLogRecord, _i: &InstrumentationScope) {
        let k = match data.body() {
            Some(AnyValue::Int(k)) => k.to_string(),
            o => format!("{o:?}"),
        };
        self.tell("l", &k);
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.flush()
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.down()
    }
    fn event_enabled(&self, _l: Severity, _t: &str, _n: Option<&str>) -> bool {
        self.how != "off"
    }
    fn set_resource(&mut self, r: &Resource) {
        self.resource(r)
    }
}
/// A reader that tells of its flush and shutdown; the reader behind it goes on collecting.
#[derive(Debug)]
struct Rdr(Proc, Arc<ManualReader>);
impl MetricReader for Rdr {
    fn register_pipeline(&self, p: std::sync::Weak<Pipeline>) {
        self.1.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.1.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.0.flush()
    }
    fn shutdown_with_timeout(&self, _t: std::time::Duration) -> OTelSdkResult {
        self.0.down()
    }
    fn temporality(&self, _k: InstrumentKind) -> Temporality {
        Temporality::Cumulative
    }
}
/// What each scope's counter has counted, by the number in the scope's name.
fn seen(r: &ManualReader, scopes: i64) -> Vec<Value> {
    let mut rm = ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] };
    if let Err(e) = r.collect(&mut rm) {
        return vec![json!(e.to_string())];
    }
    let mut out = vec![json!(0); scopes as usize];
    for sm in &rm.scope_metrics {
        let i: usize = sm.scope.name()[1..].parse().unwrap();
        for m in &sm.metrics {
            let AggregatedMetrics::U64(MetricData::Sum(d)) = &m.data else { panic!("harness: data") };
            let v: Vec<_> = d.data_points.iter().map(|p| p.value).collect();
            out[i - 1] = if v.len() == 1 && out[i - 1] == json!(0) { json!(v[0]) } else { json!(format!("{} {v:?}", out[i - 1])) };
        }
    }
    out
}

#[derive(Clone)]
enum Prov {
    M(SdkMeterProvider),
    T(SdkTracerProvider),
    L(SdkLoggerProvider),
}
enum Inst {
    M(Counter<u64>),
    T(SdkTracer),
    L(SdkLogger),
}
pub struct ProvSut {
    told: Told,
    h: Vec<Prov>,
    ts: HashMap<i64, Inst>,
    nt: i64,
    ss: HashMap<i64, Span>,
    readers: Vec<Arc<ManualReader>>,
}
fn procs(v: &Value, told: &Told) -> Vec<Proc> {
    arr(v, "procs")
        .iter()
        .enumerate()
        .map(|(i, how)| Proc { i: i + 1, how: how.as_str().unwrap().into(), told: told.clone() })
        .collect()
}
fn provider(kind: &str, ps: Vec<Proc>, readers: &mut Vec<Arc<ManualReader>>) -> Prov {
    let res = Resource::builder_empty().with_attribute(opentelemetry::KeyValue::new("mine", 1)).build();
    if kind == "trace" {
        let mut b = SdkTracerProvider::builder().with_resource(res);
        for p in ps {
            b = b.with_span_processor(p);
        }
        Prov::T(b.build())
    } else if kind == "meter" {
        let mut b = SdkMeterProvider::builder().with_resource(res);
        for p in ps {
            let r = Arc::new(ManualReader::builder().with_temporality(Temporality::Cumulative).build());
            readers.push(r.clone());
            b = b.with_reader(Rdr(p, r));
        }
        Prov::M(b.build())
    } else {
        let mut b = SdkLoggerProvider::builder().with_resource(res);
        for p in ps {
            b = b.with_log_processor(p);
        }
        Prov::L(b.build())
    }
}
impl Prov {
    fn shutdown(&self) -> OTelSdkResult {
        match self {
            Prov::M(p) => p.shutdown(),
            Prov::T(p) => p.shutdown(),
            Prov::L(p) => p.shutdown(),
        }
    }
    fn flush(&self) -> OTelSdkResult {
        match self {
            Prov::M(p) => p.force_flush(),
            Prov::T(p) => p.force_flush(),
            Prov::L(p) => p.force_flush(),
        }
    }
}
fn res(r: &OTelSdkResult) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(OTelSdkError::AlreadyShutdown) => "already",
        Err(_) => "failed",
    }
}
impl ProvSut {
    pub fn new() -> Self {
        ProvSut { told: Default::default(), h: vec![], ts: HashMap::new(), nt: 0, ss: HashMap::new(), readers: vec![] }
    }
}
impl Sut for ProvSut {
    fn step(&mut self, st: &Value) -> Value {
        let mut out = json!({});
        match s(st, "op") {
            "prov_init" => {
                let ps = procs(st, &self.told);
                self.h.push(provider(s(st, "kind"), ps, &mut self.readers));
            }
            "clone" => self.h.push(self.h[0].clone()),
            "drop" => drop(self.h.pop()),
            "obtain" => {
                self.nt += 1;
                let name = format!("t{}", self.nt);
                let t = match self.h.last().unwrap() {
                    Prov::M(p) => Inst::M(p.meter(["t1", "t2", "t3", "t4", "t5"][n(st, "name") as usize - 1]).u64_counter("c").build()),
                    Prov::T(p) => Inst::T(p.tracer(name)),
                    Prov::L(p) => Inst::L(p.logger(name)),
                };
                self.ts.insert(self.nt, t);
            }
            "drop_t" => drop(self.ts.remove(&n(st, "i"))),
            "flush" => out["ok"] = json!(self.h[0].flush().is_ok()),
            "flush_late" => out["res"] = json!(res(&self.h[0].flush())),
            "add" => {
                let Inst::M(c) = &self.ts[&n(st, "i")] else { panic!("harness: counter") };
                c.add(1, &[]);
            }
            "collect" => out["seen"] = json!(self.readers.iter().map(|r| seen(r, self.nt)).collect::<Vec<_>>()),
            "shutdown" => out["res"] = json!(res(&self.h.last().unwrap().shutdown())),
            "start" => {
                let Inst::T(t) = &self.ts[&n(st, "i")] else { panic!("harness: tracer") };
                let span = t.start(n(st, "k").to_string());
                out["rec"] = json!(span.is_recording());
                self.ss.insert(n(st, "k"), span);
            }
            "end" => self.ss.get_mut(&n(st, "k")).unwrap().end(),
            "drop_s" => drop(self.ss.remove(&n(st, "k"))),
            "record" => {
                let Inst::L(l) = &self.ts[&n(st, "i")] else { panic!("harness: logger") };
                let mut r = l.create_log_record();
                r.set_body(AnyValue::Int(n(st, "k")));
                l.emit(r);
            }
            "enabled" => {
                let Inst::L(l) = &self.ts[&n(st, "i")] else { panic!("harness: logger") };
                out["ok"] = json!(l.event_enabled(Severity::Info, "t", Some("n")));
            }
            o => panic!("harness: op {o}"),
        }
        out["told"] = json!(std::mem::take(&mut *self.told.lock().unwrap()));
        out
    }
    /// Whatever is left goes, spans first and the handles last: no second shutdown.
    fn finish(&mut self) -> Option<String> {
        self.ss.clear();
        self.ts.clear();
        self.h.clear();
        None
    }
}

/// Threads that shut a provider down at the same moment (each round on a new provider; rounds
/// that went the same way are one trace).
pub fn record_race(args: &Value) -> Vec<Value> {
    let (rounds, kinds) = (n(args, "rounds"), arr(args, "kinds"));
    let slots: Vec<Arc<Mutex<(Option<Prov>, bool, &'static str)>>> =
        (0..4).map(|_| Arc::new(Mutex::new((None, false, "")))).collect();
    let (go, ready, done, stop) =
        (Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicUsize::new(0)), Arc::new(AtomicBool::new(false)));
    let hs: Vec<_> = slots
        .iter()
        .cloned()
        .map(|slot| {
            let (go, ready, done, stop) = (go.clone(), ready.clone(), done.clone(), stop.clone());
            std::thread::spawn(move || {
                let mut round = 0;
                loop {
                    while go.load(SeqCst) <= round && !stop.load(SeqCst) {
                        std::hint::spin_loop();
                    }
                    if stop.load(SeqCst) {
                        return;
                    }
                    round += 1;
                    let mut s = slot.lock().unwrap();
                    let Some(p) = s.0.take() else {
                        done.fetch_add(1, SeqCst);
                        continue;
                    };
                    ready.fetch_sub(1, SeqCst);
                    while ready.load(SeqCst) > 0 {
                        std::hint::spin_loop();
                    }
                    s.2 = if s.1 {
                        drop(p); // one handle goes instead
                        "dropped"
                    } else {
                        res(&p.shutdown())
                    };
                    drop(s);
                    done.fetch_add(1, SeqCst);
                }
            })
        })
        .collect();
    let mut out: Vec<Value> = vec![];
    for i in 0..rounds {
        let told: Told = Default::default();
        let v = json!({"procs": ["ok", "ok"]});
        let p = provider(kinds[i as usize % kinds.len()].as_str().unwrap(), procs(&v, &told), &mut vec![]);
        told.lock().unwrap().clear();
        let n = 2 + (i / 12 % 3) as usize;
        for (k, s) in slots.iter().enumerate().take(n) {
            *s.lock().unwrap() = (Some(p.clone()), i / 6 % 2 == 1 && k == 0, "");
        }
        ready.store(n, SeqCst);
        done.store(0, SeqCst);
        go.fetch_add(1, SeqCst);
        while done.load(SeqCst) < 4 {
            std::hint::spin_loop();
        }
        drop(p);
        let mut rets: Vec<_> = slots.iter().take(n).map(|s| s.lock().unwrap().2).collect();
        rets.sort();
        let mut ev: Vec<Value> = rets.iter().map(|r| json!({"e": "ret", "res": r})).collect();
        ev.extend(told.lock().unwrap().iter().map(|t| json!({"e": "told", "what": t})));
        ev.push(json!({"e": "end"}));
        let ev = Value::Array(ev);
        if !out.contains(&ev) {
            out.push(ev);
        }
    }
    stop.store(true, SeqCst);
    hs.into_iter().for_each(|h| h.join().unwrap());
    out
}
