//! C01: effective configuration from code, environment and defaults.
use crate::common::*;
use crate::m_ctxval::FakeSpan;
use crate::m_proc::{HRt, Run, Rx, Tx};
use crate::m_resource::{lock_env, set_env};
use opentelemetry::logs::AnyValue;
use opentelemetry::metrics::MeterProvider;
use opentelemetry::trace::{
    Event, Link, Span as _, SpanContext, SpanId, SpanKind, Status, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer, TracerProvider,
};
use opentelemetry::{Context, InstrumentationScope, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{self, LogBatch, LogExporter, LogProcessor};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::{periodic_reader_with_async_runtime, PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::runtime::{Runtime, RuntimeChannel};
use opentelemetry_sdk::trace::{
    self, IdGenerator, InMemorySpanExporter, Sampler, SdkTracerProvider, SpanData, SpanExporter, SpanLimits, SpanProcessor,
};
use serde_json::{json, Value};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::future::Future;
use std::sync::{Arc, Condvar, Mutex};
use std::time::{Duration, Instant, SystemTime};

#[derive(Debug, Default)]
struct Gate {
    sizes: Mutex<Vec<usize>>,
    shut: Mutex<bool>,
    cv: Condvar,
}
#[derive(Debug, Clone)]
struct Exp(Arc<Gate>);
impl Exp {
    fn new(shut: bool) -> Self {
        Exp(Arc::new(Gate { shut: Mutex::new(shut), ..Default::default() }))
    }
    fn took(&self, n: usize) {
        self.0.sizes.lock().unwrap().push(n);
        let mut g = self.0.shut.lock().unwrap();
        while *g {
            g = self.0.cv.wait(g).unwrap();
        }
    }
    fn open(&self) {
        *self.0.shut.lock().unwrap() = false;
        self.0.cv.notify_all();
    }
    fn sizes(&self) -> Vec<usize> {
        self.0.sizes.lock().unwrap().clone()
    }
    fn wait(&self, d: Duration) -> bool {
        let end = Instant::now() + d;
        while self.sizes().is_empty() && Instant::now() < end {
            std::thread::sleep(Duration::from_micros(200));
        }
        !self.sizes().is_empty()
    }
}
impl SpanExporter for Exp {
    async fn export(&self, b: Vec<SpanData>) -> OTelSdkResult {
        self.took(b.len());
        Ok(())
    }
}
impl LogExporter for Exp {
    async fn export(&self, b: LogBatch<'_>) -> OTelSdkResult {
        self.took(b.iter().count());
        Ok(())
    }
}
impl PushMetricExporter for Exp {
    async fn export(&self, _m: &mut ResourceMetrics) -> OTelSdkResult {
        self.took(1);
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Cumulative
    }
}
/// Remembers the durations it was asked to wait.
#[derive(Debug, Clone)]
struct CRt(HRt, Arc<Mutex<BTreeSet<u128>>>);
impl Runtime for CRt {
    fn spawn<F: Future<Output = ()> + Send + 'static>(&self, f: F) {
        self.0.spawn(f)
    }
    fn delay(&self, d: Duration) -> impl Future<Output = ()> + Send + 'static {
        self.1.lock().unwrap().insert(d.as_millis());
        self.0.delay(d)
    }
}
impl RuntimeChannel for CRt {
    type Receiver<T: Debug + Send> = Rx<T>;
    type Sender<T: Debug + Send> = Tx<T>;
    fn batch_message_channel<T: Debug + Send>(&self, n: usize) -> (Tx<T>, Rx<T>) {
        self.0.batch_message_channel(n)
    }
}

fn span_data() -> SpanData {
    SpanData {
        span_context: SpanContext::new(TraceId::from(1u128), SpanId::from(1u64), TraceFlags::SAMPLED, false, TraceState::NONE),
        parent_span_id: SpanId::INVALID,
        span_kind: SpanKind::Internal,
        name: "s".into(),
        start_time: SystemTime::UNIX_EPOCH,
        end_time: SystemTime::UNIX_EPOCH,
        attributes: vec![],
        dropped_attributes_count: 0,
        events: Default::default(),
        links: Default::default(),
        status: Status::Unset,
        instrumentation_scope: InstrumentationScope::default(),
    }
}
enum P {
    S(Box<dyn SpanProcessor>),
    L(Box<dyn LogProcessor>, logs::SdkLoggerProvider),
    M(SdkMeterProvider),
}
impl P {
    fn emit(&self) {
        match self {
            P::S(p) => p.on_end(span_data()),
            P::L(p, lp) => {
                use opentelemetry::logs::{LogRecord, Logger, LoggerProvider};
                let mut r = lp.logger("l").create_log_record();
                r.set_body(AnyValue::Int(1));
                p.emit(&mut r, &InstrumentationScope::default());
            }
            P::M(m) => m.meter("m").u64_counter("c").build().add(1, &[]),
        }
    }
    fn flush(&self) -> OTelSdkResult {
        match self {
            P::S(p) => p.force_flush(),
            P::L(p, _) => p.force_flush(),
            P::M(p) => p.force_flush(),
        }
    }
    fn shutdown(&self) {
        let _ = match self {
            P::S(p) => p.shutdown(),
            P::L(p, _) => p.shutdown(),
            P::M(p) => p.shutdown(),
        };
    }
}
fn vars(kind: &str) -> [(&'static str, &'static str); 4] {
    if kind.ends_with("span") {
        [("q", "OTEL_BSP_MAX_QUEUE_SIZE"), ("b", "OTEL_BSP_MAX_EXPORT_BATCH_SIZE"), ("d", "OTEL_BSP_SCHEDULE_DELAY"), ("t", "OTEL_BSP_EXPORT_TIMEOUT")]
    } else if kind.ends_with("log") {
        [("q", "OTEL_BLRP_MAX_QUEUE_SIZE"), ("b", "OTEL_BLRP_MAX_EXPORT_BATCH_SIZE"), ("d", "OTEL_BLRP_SCHEDULE_DELAY"), ("t", "OTEL_BLRP_EXPORT_TIMEOUT")]
    } else if kind.ends_with("reader") {
        [("d", "OTEL_METRIC_EXPORT_INTERVAL"), ("t", "OTEL_METRIC_EXPORT_TIMEOUT"), ("x", "VH_NONE"), ("y", "VH_NONE")]
    } else {
        [("a", "OTEL_SPAN_ATTRIBUTE_COUNT_LIMIT"), ("e", "OTEL_SPAN_EVENT_COUNT_LIMIT"), ("l", "OTEL_SPAN_LINK_COUNT_LIMIT"), ("x", "VH_NONE")]
    }
}
/// Runs f with the variables of the case set.
fn with_env<R>(pairs: &[(&str, &str)], st: &Value, f: impl FnOnce() -> R) -> R {
    let _g = lock_env();
    for (k, name) in pairs {
        set_env(name, st["env"][k].as_str().filter(|v| *v != "<unset>"));
    }
    let r = f();
    for (_, name) in pairs {
        set_env(name, None);
    }
    r
}
fn build(st: &Value, exp: Exp, rt: CRt) -> P {
    use opentelemetry_sdk::logs::log_processor_with_async_runtime::BatchLogProcessor as ALog;
    use opentelemetry_sdk::trace::span_processor_with_async_runtime::BatchSpanProcessor as ASpan;
    use periodic_reader_with_async_runtime::PeriodicReader as AReader;
    let kind = s(st, "kind");
    let code: Vec<(&str, u64)> = arr(st, "code").iter().map(|c| (s(c, "s"), n(c, "v") as u64)).collect();
    let ms = Duration::from_millis;
    with_env(&vars(kind), st, || match kind {
        "span" | "aspan" => {
            let mut b = trace::BatchConfigBuilder::default();
            for (k, v) in code {
                b = match k {
                    "q" => b.with_max_queue_size(v as usize),
                    "b" => b.with_max_export_batch_size(v as usize),
                    "d" => b.with_scheduled_delay(ms(v)),
                    _ => b.with_max_export_timeout(ms(v)),
                };
            }
            let cfg = b.build();
            P::S(if kind == "span" {
                Box::new(trace::BatchSpanProcessor::builder(exp).with_batch_config(cfg).build())
            } else {
                Box::new(ASpan::builder(exp, rt).with_batch_config(cfg).build())
            })
        }
        "log" | "alog" => {
            let mut b = logs::BatchConfigBuilder::default();
            for (k, v) in code {
                b = match k {
                    "q" => b.with_max_queue_size(v as usize),
                    "b" => b.with_max_export_batch_size(v as usize),
                    "d" => b.with_scheduled_delay(ms(v)),
                    _ => b.with_max_export_timeout(ms(v)),
                };
            }
            let cfg = b.build();
            let p: Box<dyn LogProcessor> = if kind == "log" {
                Box::new(logs::BatchLogProcessor::builder(exp).with_batch_config(cfg).build())
            } else {
                Box::new(ALog::builder(exp, rt).with_batch_config(cfg).build())
            };
            P::L(p, logs::SdkLoggerProvider::builder().build())
        }
        "reader" => {
            let mut b = PeriodicReader::builder(exp);
            for (_, v) in code {
                b = b.with_interval(ms(v));
            }
            P::M(SdkMeterProvider::builder().with_reader(b.build()).build())
        }
        "areader" => {
            let mut b = AReader::builder(exp, rt);
            for (k, v) in code {
                b = if k == "d" { b.with_interval(ms(v)) } else { b.with_timeout(ms(v)) };
            }
            P::M(SdkMeterProvider::builder().with_reader(b.build()).build())
        }
        o => panic!("harness: kind {o}"),
    })
}
fn flush(p: &P) -> Result<(), Value> {
    let end = Instant::now() + Duration::from_secs(10);
    while p.flush().is_err() {   // an async processor refuses while its queue is full
        if Instant::now() > end {
            return Err(json!("flush does not succeed"));
        }
        std::thread::sleep(Duration::from_micros(200));
    }
    Ok(())
}
fn batch(st: &Value) -> Result<Value, Value> {
    let exp = Exp::new(true);
    let p = build(st, exp.clone(), CRt(HRt { run: Arc::new(Run::default()) }, Arc::default()));
    let (q, b) = (n(&st["exp"], "queue"), n(&st["exp"], "batch"));
    (0..b).for_each(|_| p.emit());
    // a full batch leaves on its own; while its export is stuck, the queue fills up
    let left = exp.wait(Duration::from_secs(5));
    (0..q + 3).for_each(|_| p.emit());
    exp.open();
    flush(&p)?;
    p.shutdown();
    let sz = exp.sizes();
    if !left {
        return Err(json!(format!("no export after {b} items; then {sz:?}")));
    }
    Ok(json!({"queue": sz.iter().sum::<usize>() - sz[0], "batch": sz.iter().max()}))
}
fn delays(st: &Value) -> Result<Value, Value> {
    let exp = Exp::new(false);
    let rt = CRt(HRt { run: Arc::new(Run::default()) }, Arc::default());
    let p = build(st, exp.clone(), rt.clone());
    let end = Instant::now() + Duration::from_secs(10);
    while rt.1.lock().unwrap().is_empty() && Instant::now() < end {
        std::thread::sleep(Duration::from_micros(100));
    }
    let before = rt.1.lock().unwrap().clone();
    p.emit();
    flush(&p)?;
    let after: Vec<u128> = rt.1.lock().unwrap().difference(&before).cloned().collect();
    p.shutdown();
    let before: Vec<u128> = before.into_iter().collect();
    if before.len() != 1 || after.len() != 1 {
        return Err(json!(format!("{before:?} {after:?}")));
    }
    Ok(json!({"delay": before[0] as u64, "timeout": after[0] as u64}))
}
fn timer(st: &Value) -> Result<Value, Value> {
    let exp = Exp::new(false);
    let p = build(st, exp.clone(), CRt(HRt { run: Arc::new(Run::default()) }, Arc::default()));
    p.emit();
    let soon = b(&st["exp"], "soon");
    let start = Instant::now();
    let mut got = exp.wait(if soon { Duration::from_secs(10) } else { Duration::from_millis(60) });
    if got && !soon && start.elapsed() > Duration::from_millis(800) {
        got = false; // this machine was too slow to tell
    }
    p.shutdown();
    Ok(json!({"soon": got}))
}
fn limits(st: &Value) -> Value {
    let exp = InMemorySpanExporter::default();
    let tp = with_env(&vars(""), st, || {
        let mut b = SdkTracerProvider::builder().with_simple_exporter(exp.clone());
        for c in arr(st, "code") {
            let v = n(c, "v") as u32;
            b = match s(c, "s") {
                "a" => b.with_max_attributes_per_span(v),
                "e" => b.with_max_events_per_span(v),
                "l" => b.with_max_links_per_span(v),
                "ea" => b.with_max_attributes_per_event(v),
                "la" => b.with_max_attributes_per_link(v),
                _ => {
                    let mut l = SpanLimits::default();
                    (l.max_attributes_per_span, l.max_events_per_span, l.max_links_per_span) = (v, v, v);
                    (l.max_attributes_per_event, l.max_attributes_per_link) = (v, v);
                    b.with_span_limits(l)
                }
            };
        }
        b.build()
    });
    let many = |p: &str| -> Vec<KeyValue> { (0..140).map(|i| KeyValue::new(format!("{p}{i}"), i)).collect() };
    let t = tp.tracer("t");
    let sc = |i: u64| SpanContext::new(TraceId::from(1u128), SpanId::from(i), TraceFlags::SAMPLED, false, TraceState::NONE);
    let mut sp = t
        .span_builder("s")
        .with_attributes(many("a"))
        .with_events((0..140).map(|i| Event::new(format!("e{i}"), SystemTime::UNIX_EPOCH, many("e"), 0)).collect())
        .with_links((0..140).map(|i| Link::new(sc(i + 1), many("l"), 0)).collect())
        .start(&t);
    sp.end();
    let d = exp.get_finished_spans().unwrap().remove(0);
    json!({"a": d.attributes.len(), "e": d.events.len(), "l": d.links.len(),
           "ea": d.events.first().map(|e| e.attributes.len()), "la": d.links.first().map(|l| l.attributes.len())})
}
const LOW: u128 = 1;
const HIGH: u128 = u128::MAX;
#[derive(Debug)]
struct Ids(u128);
impl IdGenerator for Ids {
    fn new_trace_id(&self) -> TraceId {
        TraceId::from(self.0)
    }
    fn new_span_id(&self) -> SpanId {
        SpanId::from(7u64)
    }
}
fn sampler(st: &Value) -> Value {
    let decide = |id: u128, parent: Option<TraceFlags>| {
        let tp = with_env(&[("s", "OTEL_TRACES_SAMPLER"), ("arg", "OTEL_TRACES_SAMPLER_ARG")], st, || {
            let mut b = SdkTracerProvider::builder();
            for (i, c) in arr(st, "code").iter().enumerate() {
                let x = match s(c, "v") {
                    "on" => Sampler::AlwaysOn,
                    "off" => Sampler::AlwaysOff,
                    _ => Sampler::ParentBased(Box::new(Sampler::AlwaysOff)),
                };
                b = if i % 2 == 0 { b.with_sampler(x).with_id_generator(Ids(id)) } else { b.with_id_generator(Ids(id)).with_sampler(x) };
            }
            b.with_id_generator(Ids(id)).build()
        });
        let cx = match parent {
            None => Context::new(),
            Some(f) => Context::new().with_span(FakeSpan(SpanContext::new(TraceId::from(id), SpanId::from(9u64), f, false, TraceState::NONE))),
        };
        let sp = tp.tracer("t").start_with_context("s", &cx);
        json!(sp.span_context().is_sampled())
    };
    let pair = |p: Option<TraceFlags>| json!([decide(LOW, p), decide(HIGH, p)]);
    json!({"root": pair(None), "child": pair(Some(TraceFlags::SAMPLED)), "orphan": pair(Some(TraceFlags::NOT_SAMPLED))})
}

pub struct CfgSut;
impl Sut for CfgSut {
    fn step(&mut self, st: &Value) -> Value {
        let r = match s(st, "op") {
            "batch" => batch(st),
            "delays" => delays(st),
            "timer" => timer(st),
            "limits" => {
                let mut g = limits(st);
                for (a, b) in [("e", "ea"), ("l", "la")] {
                    // no event or link to look at
                    if g[a] == 0 {
                        g[b] = st["exp"][b].clone();
                    }
                }
                Ok(g)
            }
            "sampler" => Ok(sampler(st)),
            o => panic!("harness: {o}"),
        };
        r.unwrap_or_else(|e| e)
    }
}
