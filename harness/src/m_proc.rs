//! Runs the span and log processors under schedules (see `sched`) and records what happens
//! at their boundary, for TLC to judge against BatchTrace.tla and SimpleTrace.tla.
use crate::sched::{self, Rng, Sched};
use futures_util::Stream;
use opentelemetry::logs::{AnyValue, LogRecord, Logger, LoggerProvider};
use opentelemetry::trace::{SpanContext, SpanId, SpanKind, Status, TraceFlags, TraceId, TraceState};
use opentelemetry::{InstrumentationScope, KeyValue};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogBatch, LogExporter, LogProcessor, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::runtime::{Runtime, RuntimeChannel, TrySend, TrySendError};
use opentelemetry_sdk::trace::{SpanData, SpanEvents, SpanExporter, SpanLinks, SpanProcessor};
use opentelemetry_sdk::{logs, trace};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::task::{Context as TaskContext, Poll, Wake, Waker};
use std::time::{Duration, Instant, UNIX_EPOCH};

pub const INTERVAL: Duration = Duration::from_secs(3600);
pub const XTIMEOUT: Duration = Duration::from_secs(1800);

/// What one run shares between its threads, its exporter and its runtime.
#[derive(Debug, Default)]
pub struct Run {
    pub log: Mutex<Vec<Value>>,
    spans: Mutex<HashMap<i64, SpanData>>,
    records: Mutex<HashMap<i64, (SdkLogRecord, InstrumentationScope)>>,
    pub next: AtomicI64,
    pub exports: AtomicUsize,
    pub fail_every: usize,
    pub pend_every: usize,
    pub seen: Mutex<Vec<i64>>,
    pub released: AtomicBool,
    wakers: Mutex<Vec<(Arc<AtomicBool>, Waker)>>,
    timers: Mutex<Vec<(Duration, Arc<AtomicBool>, Waker)>>,
    pub live_tasks: AtomicUsize,
}

impl Run {
    /// A run that does not come to its end is cut off there.
    pub fn ev(&self, v: Value) {
        let mut l = self.log.lock().unwrap();
        if l.last().is_some_and(|e| e["e"] == "hang") {
            return;
        }
        if v["e"] == "hang" {
            l.truncate(1500);
        }
        if l.len() < 20_000 {
            l.push(v);
        }
    }
    pub fn release(&self) {
        for (go, w) in std::mem::take(&mut *self.wakers.lock().unwrap()) {
            go.store(true, Ordering::SeqCst);
            w.wake();
        }
    }
    pub fn fire(&self, d: Duration) {
        let mut due = Vec::new();
        self.timers.lock().unwrap().retain(|(x, f, w)| {
            if *x == d {
                f.store(true, Ordering::SeqCst);
                due.push(w.clone());
                false
            } else {
                true
            }
        });
        for w in due {
            w.wake();
        }
    }
}

// ------------------------------------------------------------------ items
fn make_span(id: i64, sampled: bool) -> SpanData {
    let flags = if sampled { TraceFlags::SAMPLED } else { TraceFlags::NOT_SAMPLED };
    SpanData {
        span_context: SpanContext::new(
            TraceId::from_bytes((id as u128 + 1).to_be_bytes()),
            SpanId::from_bytes((id as u64 + 1).to_be_bytes()),
            flags,
            false,
            TraceState::default(),
        ),
        parent_span_id: SpanId::from_bytes((id as u64 + 100).to_be_bytes()),
        span_kind: SpanKind::Server,
        name: format!("s{id}").into(),
        start_time: UNIX_EPOCH + Duration::from_secs(id as u64),
        end_time: UNIX_EPOCH + Duration::from_secs(id as u64 + 5),
        attributes: vec![KeyValue::new("id", id), KeyValue::new("k", format!("v{id}"))],
        dropped_attributes_count: id as u32,
        events: SpanEvents::default(),
        links: SpanLinks::default(),
        status: Status::error(format!("e{id}")),
        instrumentation_scope: scope(id),
    }
}
fn scope(id: i64) -> InstrumentationScope {
    InstrumentationScope::builder(format!("scope{}", id % 3)).with_version("1").build()
}
fn make_record(id: i64) -> SdkLogRecord {
    let p = SdkLoggerProvider::builder().build();
    let mut r = p.logger("x").create_log_record();
    r.set_body(AnyValue::Int(id));
    r.set_event_name("ev");
    r.set_timestamp(UNIX_EPOCH + Duration::from_secs(id as u64));
    r.add_attribute("a", format!("v{id}"));
    r
}

// ------------------------------------------------------------------ exporter
#[derive(Debug, Clone)]
pub struct Exp {
    run: Arc<Run>,
    pend_ok: bool,
}

pub struct ExportGuard<'a> {
    pub run: &'a Run,
    pub x: usize,
}
impl Drop for ExportGuard<'_> {
    fn drop(&mut self) {
        self.run.ev(json!({"e": "exported", "x": self.x}));
    }
}

/// An export that waits until the run releases it.
pub struct Pend {
    run: Arc<Run>,
    go: Arc<AtomicBool>,
}
impl Pend {
    pub fn new(run: Arc<Run>) -> Self {
        Pend { run, go: Arc::default() }
    }
}
impl Future for Pend {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut TaskContext<'_>) -> Poll<()> {
        let mut w = self.run.wakers.lock().unwrap();
        if self.run.released.load(Ordering::SeqCst) || self.go.load(Ordering::SeqCst) {
            return Poll::Ready(());
        }
        w.retain(|(g, _)| !Arc::ptr_eq(g, &self.go));
        w.push((self.go.clone(), cx.waker().clone()));
        Poll::Pending
    }
}

impl Exp {
    fn begin(&self, ids: Vec<i64>) -> (ExportGuard<'_>, usize) {
        let x = self.run.exports.fetch_add(1, Ordering::SeqCst) + 1;
        self.run.ev(json!({"e": "export", "x": x, "ids": ids}));
        self.run.seen.lock().unwrap().extend(ids.iter());
        (ExportGuard { run: &self.run, x }, x)
    }
    async fn body(&self, ids: Vec<i64>) -> OTelSdkResult {
        let (_g, x) = self.begin(ids);
        sched::point("export");
        if self.pend_ok && self.run.pend_every > 0 && x % self.run.pend_every == 0 {
            Pend::new(self.run.clone()).await;
        }
        if self.run.fail_every > 0 && x % self.run.fail_every == 0 {
            return Err(match x / self.run.fail_every % 3 {
                0 => OTelSdkError::InternalFailure("planned".into()),
                1 => OTelSdkError::Timeout(Duration::from_secs(1)),
                _ => OTelSdkError::AlreadyShutdown,
            });
        }
        Ok(())
    }
    fn down(&self) -> OTelSdkResult {
        self.run.ev(json!({"e": "xshutdown"}));
        sched::point("xshutdown");
        self.run.ev(json!({"e": "xdown"}));
        Ok(())
    }
}
impl SpanExporter for Exp {
    async fn export(&self, batch: Vec<SpanData>) -> OTelSdkResult {
        let ids = {
            let s = self.run.spans.lock().unwrap();
            batch
                .iter()
                .map(|d| {
                    let id = d.name[1..].parse::<i64>().unwrap_or(-1);
                    if s.get(&id) == Some(d) { id } else { -1 }
                })
                .collect()
        };
        self.body(ids).await
    }
    fn shutdown(&mut self) -> OTelSdkResult {
        self.down()
    }
}
impl LogExporter for Exp {
    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
        let ids = {
            let s = self.run.records.lock().unwrap();
            batch
                .iter()
                .map(|(r, sc)| {
                    let id = match r.body() {
                        Some(AnyValue::Int(i)) => *i,
                        _ => -1,
                    };
                    match s.get(&id) {
                        Some((r0, s0)) if r0 == r && s0 == sc => id,
                        _ => -1,
                    }
                })
                .collect()
        };
        self.body(ids).await
    }
    fn shutdown(&self) -> OTelSdkResult {
        self.down()
    }
}

// ------------------------------------------------------------------ a runtime under control
#[derive(Debug, Clone)]
pub struct HRt {
    pub run: Arc<Run>,
}
struct Timer {
    run: Arc<Run>,
    d: Duration,
    fired: Arc<AtomicBool>,
}
impl Future for Timer {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut TaskContext<'_>) -> Poll<()> {
        if self.fired.load(Ordering::SeqCst) {
            return Poll::Ready(());
        }
        let mut t = self.run.timers.lock().unwrap();
        t.retain(|(_, f, _)| !Arc::ptr_eq(f, &self.fired));
        t.push((self.d, self.fired.clone(), cx.waker().clone()));
        Poll::Pending
    }
}
impl Drop for Timer {
    fn drop(&mut self) {
        self.run.timers.lock().unwrap().retain(|(_, f, _)| !Arc::ptr_eq(f, &self.fired));
    }
}
struct ThreadWaker(std::thread::Thread);
impl Wake for ThreadWaker {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
}
impl Runtime for HRt {
    fn spawn<F>(&self, future: F)
    where
        F: Future<Output = ()> + Send + 'static,
    {
        let run = self.run.clone();
        run.live_tasks.fetch_add(1, Ordering::SeqCst);
        std::thread::spawn(move || {
            let w = Waker::from(Arc::new(ThreadWaker(std::thread::current())));
            let mut cx = TaskContext::from_waker(&w);
            let mut f = Box::pin(future);
            loop {
                sched::point("poll");
                if f.as_mut().poll(&mut cx).is_ready() {
                    break;
                }
                sched::point("idle?");
                std::thread::park_timeout(Duration::from_secs(20));
            }
            drop(f);
            run.live_tasks.fetch_sub(1, Ordering::SeqCst);
        });
    }
    fn delay(&self, duration: Duration) -> impl Future<Output = ()> + Send + 'static {
        Timer { run: self.run.clone(), d: duration, fired: Arc::new(AtomicBool::new(false)) }
    }
}
#[derive(Debug)]
pub struct Tx<T>(tokio::sync::mpsc::Sender<T>);
impl<T: Debug + Send> TrySend for Tx<T> {
    type Message = T;
    fn try_send(&self, item: T) -> Result<(), TrySendError> {
        self.0.try_send(item).map_err(|e| match e {
            tokio::sync::mpsc::error::TrySendError::Full(_) => TrySendError::ChannelFull,
            tokio::sync::mpsc::error::TrySendError::Closed(_) => TrySendError::ChannelClosed,
        })
    }
}
pub struct Rx<T>(tokio::sync::mpsc::Receiver<T>);
impl<T> Stream for Rx<T> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut TaskContext<'_>) -> Poll<Option<T>> {
        let r = self.0.poll_recv(cx);
        sched::point("message");
        r
    }
}
impl RuntimeChannel for HRt {
    type Receiver<T: Debug + Send> = Rx<T>;
    type Sender<T: Debug + Send> = Tx<T>;
    fn batch_message_channel<T: Debug + Send>(&self, capacity: usize) -> (Tx<T>, Rx<T>) {
        let (s, r) = tokio::sync::mpsc::channel(capacity);
        (Tx(s), Rx(r))
    }
}

// ------------------------------------------------------------------ the processor
pub enum Proc {
    Span(Box<dyn SpanProcessor>),
    Log(Box<dyn LogProcessor>),
}
fn res(r: &OTelSdkResult) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(OTelSdkError::AlreadyShutdown) => "already",
        Err(OTelSdkError::Timeout(_)) => "timeout",
        Err(_) => "err",
    }
}
impl Proc {
    pub fn flush(&self) -> OTelSdkResult {
        match self {
            Proc::Span(p) => p.force_flush(),
            Proc::Log(p) => p.force_flush(),
        }
    }
    pub fn shutdown(&self) -> OTelSdkResult {
        match self {
            Proc::Span(p) => p.shutdown(),
            Proc::Log(p) => p.shutdown(),
        }
    }
    fn emit(&self, run: &Run, sampled: bool) {
        let id = run.next.fetch_add(1, Ordering::SeqCst) + 1;
        match self {
            Proc::Span(p) => {
                let s = make_span(id, sampled);
                run.spans.lock().unwrap().insert(id, s.clone());
                run.ev(json!({"e": "emit", "id": id, "s": sampled}));
                p.on_end(s);
            }
            Proc::Log(p) => {
                let mut r = make_record(id);
                let sc = scope(id);
                run.records.lock().unwrap().insert(id, (r.clone(), sc.clone()));
                run.ev(json!({"e": "emit", "id": id, "s": true}));
                p.emit(&mut r, &sc);
            }
        }
        run.ev(json!({"e": "emitted", "id": id}));
    }
}

fn build(kind: &str, c: &Value, run: &Arc<Run>) -> Proc {
    let cap = c["cap"].as_u64().unwrap() as usize;
    let batch = c["batch"].as_u64().unwrap() as usize;
    let delay = match c.get("delay_ms").and_then(|d| d.as_u64()) {
        Some(0) | None => INTERVAL,
        Some(ms) => Duration::from_millis(ms),
    };
    let conc = c.get("conc").and_then(|d| d.as_u64()).unwrap_or(1) as usize;
    let exp = Exp { run: run.clone(), pend_ok: kind.starts_with('a') };
    let tcfg = || {
        trace::BatchConfigBuilder::default()
            .with_max_queue_size(cap)
            .with_max_export_batch_size(batch)
            .with_scheduled_delay(delay)
            .with_max_export_timeout(XTIMEOUT)
            .with_max_concurrent_exports(conc)
            .build()
    };
    let lcfg = || {
        logs::BatchConfigBuilder::default()
            .with_max_queue_size(cap)
            .with_max_export_batch_size(batch)
            .with_scheduled_delay(delay)
            .with_max_export_timeout(XTIMEOUT)
            .build()
    };
    use opentelemetry_sdk::runtime::{Tokio, TokioCurrentThread};
    use opentelemetry_sdk::logs::log_processor_with_async_runtime::BatchLogProcessor as ALog;
    use opentelemetry_sdk::trace::span_processor_with_async_runtime::BatchSpanProcessor as ASpan;
    match kind {
        "span" => Proc::Span(Box::new(trace::BatchSpanProcessor::builder(exp).with_batch_config(tcfg()).build())),
        "log" => Proc::Log(Box::new(logs::BatchLogProcessor::builder(exp).with_batch_config(lcfg()).build())),
        "sspan" => Proc::Span(Box::new(trace::SimpleSpanProcessor::new(exp))),
        "slog" => Proc::Log(Box::new(logs::SimpleLogProcessor::new(exp))),
        "aspan" => Proc::Span(Box::new(
            ASpan::builder(exp, HRt { run: run.clone() }).with_batch_config(tcfg()).build(),
        )),
        "alog" => Proc::Log(Box::new(
            ALog::builder(exp, HRt { run: run.clone() }).with_batch_config(lcfg()).build(),
        )),
        "atspan" => Proc::Span(Box::new(ASpan::builder(exp, Tokio).with_batch_config(tcfg()).build())),
        "atlog" => Proc::Log(Box::new(ALog::builder(exp, Tokio).with_batch_config(lcfg()).build())),
        "acspan" => Proc::Span(Box::new(ASpan::builder(exp, TokioCurrentThread).with_batch_config(tcfg()).build())),
        "aclog" => Proc::Log(Box::new(ALog::builder(exp, TokioCurrentThread).with_batch_config(lcfg()).build())),
        _ => panic!("harness: kind {kind}"),
    }
}

pub fn run_scenario(c: &Value) -> Value {
    let kind = c["kind"].as_str().unwrap();
    let run = Arc::new(Run {
        fail_every: c.get("fail").and_then(|x| x.as_u64()).unwrap_or(0) as usize,
        pend_every: c.get("pend").and_then(|x| x.as_u64()).unwrap_or(0) as usize,
        ..Default::default()
    });
    let timer = c.get("delay_ms").and_then(|d| d.as_u64()).unwrap_or(0) > 0 || c.get("timer") == Some(&json!(true));
    run.ev(json!({"e": "cfg", "kind": kind, "cap": c["cap"], "batch": c["batch"],
                  "conc": c.get("conc").and_then(|d| d.as_u64()).unwrap_or(1), "timer": timer}));
    let rt = kind.starts_with("at").then(|| {
        tokio::runtime::Builder::new_multi_thread().worker_threads(2).enable_all().build().unwrap()
    });
    let guard = rt.as_ref().map(|r| r.enter());
    let s = Sched::install();
    let proc = Arc::new(build(kind, c, &run));
    drop(guard);
    let calls = Arc::new(AtomicI64::new(0));
    let mut rng = Rng(c.get("seed").and_then(|x| x.as_u64()).unwrap_or(1));
    let progs: Vec<(String, Vec<String>)> = c["prog"]
        .as_object()
        .unwrap()
        .iter()
        .map(|(k, v)| (k.clone(), v.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect()))
        .collect();
    let names: Vec<String> = progs.iter().map(|p| p.0.clone()).collect();
    for n in &names {
        s.announce(n);
    }
    let mut handles = Vec::new();
    for (name, ops) in progs {
        let (s, proc, run, calls) = (s.clone(), proc.clone(), run.clone(), calls.clone());
        handles.push(std::thread::spawn(move || {
            s.enter(&name);
            for op in ops {
                do_op(&op, &proc, &run, &calls);
                sched::point("next");
            }
            s.done();
        }));
    }
    let sched: Vec<String> = c
        .get("sched")
        .and_then(|x| x.as_array())
        .map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect())
        .unwrap_or_default();
    let ok = s.run(&names, &sched, &mut rng, Duration::from_secs(15), &|| run.release());
    s.free();
    run.released.store(true, Ordering::SeqCst);
    run.release();
    if !ok {
        run.ev(json!({"e": "hang"}));
    } else {
        for h in handles {
            let _ = h.join();
        }
        // epilogue: whatever is left is flushed by a shutdown, and nothing happens after it
        let tail = c.get("tail").and_then(|x| x.as_array()).cloned().unwrap_or_else(|| {
            let sd = if kind.starts_with('a') { "shutdown!" } else { "shutdown" };
            ["emit", sd, "emit", "flush", "shutdown"].iter().map(|s| json!(s)).collect()
        });
        let (tx, rx) = std::sync::mpsc::channel();
        let (p2, r2, c2) = (proc.clone(), run.clone(), calls.clone());
        let h = std::thread::spawn(move || {
            for op in tail {
                do_op(op.as_str().unwrap(), &p2, &r2, &c2);
            }
            let _ = tx.send(());
        });
        if rx.recv_timeout(Duration::from_secs(20)).is_err() {
            run.ev(json!({"e": "hang"}));
        } else {
            let _ = h.join();
            let end = Instant::now() + Duration::from_secs(10);
            while run.live_tasks.load(Ordering::SeqCst) > 0 && Instant::now() < end {
                run.release();
                std::thread::sleep(Duration::from_micros(200));
            }
            run.ev(json!({"e": "end"}));
        }
    }
    Sched::uninstall();
    drop(proc);
    if let Some(rt) = rt {
        rt.shutdown_timeout(Duration::from_secs(5));
    }
    let l = run.log.lock().unwrap().clone();
    Value::Array(l)
}

fn do_op(op: &str, proc: &Proc, run: &Run, calls: &AtomicI64) {
    match op {
        "emit" => proc.emit(run, true),
        "unsampled" => proc.emit(run, false),
        "flush" | "shutdown" => {
            let c = calls.fetch_add(1, Ordering::SeqCst) + 1;
            run.ev(json!({"e": "call", "op": op, "c": c}));
            let r = if op == "flush" { proc.flush() } else { proc.shutdown() };
            run.ev(json!({"e": "ret", "op": op, "c": c, "res": res(&r)}));
        }
        // the async processors refuse a shutdown while their queue is full
        "shutdown!" => {
            for _ in 0..500 {
                do_op("shutdown", proc, run, calls);
                if run.log.lock().unwrap().iter().any(|e| e["e"] == "xdown") {
                    break;
                }
                std::thread::sleep(Duration::from_millis(1));
            }
        }
        "tick" => run.fire(INTERVAL),
        "xtimeout" => run.fire(XTIMEOUT),
        "release" => run.release(),
        // fewer items than a full batch are left (nothing is dropped in these runs)
        "idle" => {
            let end = Instant::now() + Duration::from_secs(5);
            let batch = run.log.lock().unwrap()[0]["batch"].as_u64().unwrap() as usize;
            let left = |l: &Vec<Value>| {
                let open: Vec<_> = l.iter().filter(|e| e["e"] == "exported").map(|e| e["x"].clone()).collect();
                let out: usize = l
                    .iter()
                    .filter(|e| e["e"] == "export" && open.contains(&e["x"]))
                    .map(|e| e["ids"].as_array().unwrap().len())
                    .sum();
                l.iter().filter(|e| e["e"] == "emit" && e["s"] == true).count() - out
            };
            while left(&run.log.lock().unwrap()) >= batch && Instant::now() < end {
                run.release();
                std::thread::sleep(Duration::from_millis(1));
            }
            run.ev(json!({"e": "idle"}));
        }
        "settle" => {
            let end = Instant::now() + Duration::from_secs(10);
            let n = run.next.load(Ordering::SeqCst) as usize;
            while run.seen.lock().unwrap().len() < n && Instant::now() < end {
                sched::point("wait?");
                run.fire(INTERVAL); // periods of a timer the harness holds go by
                std::thread::sleep(Duration::from_millis(1));
            }
            // the last export may still be running
            let done = |l: &Vec<Value>| {
                l.iter().filter(|e| e["e"] == "export").count() == l.iter().filter(|e| e["e"] == "exported").count()
            };
            while !done(&run.log.lock().unwrap()) && Instant::now() < end {
                sched::point("wait?");
                std::thread::sleep(Duration::from_millis(1));
            }
            run.ev(json!({"e": "settled"}));
        }
        _ => panic!("harness: op {op}"),
    }
}

pub fn record(args: &Value) -> Vec<Value> {
    // one process per shard: the schedule points are global
    let text = std::fs::read_to_string(args["file"].as_str().unwrap()).unwrap();
    until_hung(text.lines().map(|l| run_scenario(&serde_json::from_str(l).unwrap())))
}

/// The runs, up to the third one that hangs (its threads may still be running).
pub fn until_hung(runs: impl Iterator<Item = Value>) -> Vec<Value> {
    let mut hung = 0;
    let mut out = Vec::new();
    for r in runs {
        hung += r.as_array().unwrap().last().is_some_and(|e| e["e"] == "hang") as usize;
        out.push(r);
        if hung == 3 {
            break;
        }
    }
    out
}
