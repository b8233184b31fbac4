//! The log bridges against spec/Appenders.tla: records of the `log` crate and events of
//! `tracing` go in, what the processors of a logger provider receive comes out.
use crate::common::Sut;
use log::Log;
use opentelemetry::logs::{AnyValue, Severity};
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, ContextGuard, InstrumentationScope};
use opentelemetry_appender_log::OpenTelemetryLogBridge;
use opentelemetry_appender_tracing::layer::OpenTelemetryTracingBridge;
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{LogBatch, LogExporter, LogProcessor, SdkLogRecord, SdkLogger, SdkLoggerProvider};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use tracing::field::Empty;
use tracing_subscriber::layer::SubscriberExt;
use tracing_subscriber::Layer;

type Seen = Arc<Mutex<Vec<Value>>>;

fn any(v: &AnyValue) -> Value {
    match v {
        AnyValue::Int(i) => json!(["i", i.to_string()]),
        AnyValue::Double(d) => json!(["d", format!("{d:?}")]),
        AnyValue::String(s) => json!(["s", s.as_str()]),
        AnyValue::Boolean(b) => json!(["b", b.to_string()]),
        AnyValue::Bytes(b) => json!(["y", b.iter().map(|x| format!("{x:02x}")).collect::<String>()]),
        AnyValue::ListAny(l) => json!(["l", l.iter().map(any).collect::<Vec<_>>()]),
        AnyValue::Map(m) => {
            let mut e: Vec<(String, Value)> = m.iter().map(|(k, v)| (k.to_string(), any(v))).collect();
            e.sort_by(|a, b| a.0.cmp(&b.0));
            json!(["m", e])
        }
        _ => json!(["?", format!("{v:?}")]),
    }
}

#[derive(Debug, Clone)]
struct Filter {
    min: i64,
    not_target: String,
    not_name: String,
}
impl Filter {
    fn of(v: &Value) -> Self {
        Filter {
            min: v["min"].as_i64().unwrap(),
            not_target: v["target"].as_str().unwrap().to_string(),
            not_name: v["name"].as_str().unwrap().to_string(),
        }
    }
    fn wants(&self, level: Severity, target: &str, name: Option<&str>) -> bool {
        level as i64 >= self.min && target != self.not_target && name != Some(self.not_name.as_str())
    }
}
fn see(r: &SdkLogRecord, scope: &InstrumentationScope) -> Value {
    let tc = r.trace_context();
    json!({
        "sevn": r.severity_number().map(|s| s as i64).unwrap_or(0),
        "sevt": r.severity_text().unwrap_or("<none>"),
        "target": r.target().map(|t| t.to_string()).unwrap_or("<none>".into()),
        "ev": r.event_name().unwrap_or("<none>"),
        "body": r.body().map(any).unwrap_or(json!(["none", ""])),
        "attrs": r.attributes_iter().map(|(k, v)| json!([k.as_str(), any(v)])).collect::<Vec<_>>(),
        "scope": scope.name(),
        "stamps": [r.timestamp().is_some(), r.observed_timestamp().is_some()],
        "tc": tc.map(|t| json!([t.trace_id.to_string(), t.span_id.to_string(),
                      t.trace_flags.map(|f| f.to_u8().to_string()).unwrap_or("none".into())])).unwrap_or(Value::Null),
    })
}

#[derive(Debug)]
struct Raw(Filter, Seen);
impl LogProcessor for Raw {
    fn emit(&self, r: &mut SdkLogRecord, s: &InstrumentationScope) {
        self.1.lock().unwrap().push(see(r, s));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
    #[cfg(feature = "rich")]
    fn event_enabled(&self, level: Severity, target: &str, name: Option<&str>) -> bool {
        self.0.wants(level, target, name)
    }
}
#[derive(Debug)]
struct Exp(Filter, Seen);
impl LogExporter for Exp {
    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
        for (r, s) in batch.iter() {
            self.1.lock().unwrap().push(see(r, s));
        }
        Ok(())
    }
    #[cfg(feature = "rich")]
    fn event_enabled(&self, level: Severity, target: &str, name: Option<&str>) -> bool {
        self.0.wants(level, target, name)
    }
}

/// Data as serde presents it: a tree of the specification's values.
struct Dyn<'a>(&'a Value);
const KEYS: [&str; 3] = ["a", "b", "z key"];
impl serde::Serialize for Dyn<'_> {
    fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        use serde::ser::*;
        let v = self.0;
        let x = v["x"].as_str().unwrap_or("");
        let none = vec![];
        let items: Vec<Dyn> = v["items"].as_array().unwrap_or(&none).iter().map(Dyn).collect();
        match v["k"].as_str().unwrap() {
            "bool" => s.serialize_bool(x == "true"),
            "i8" => s.serialize_i8(x.parse().unwrap()),
            "i16" => s.serialize_i16(x.parse().unwrap()),
            "i32" => s.serialize_i32(x.parse().unwrap()),
            "i64" => s.serialize_i64(x.parse().unwrap()),
            "i128" => s.serialize_i128(x.parse().unwrap()),
            "u8" => s.serialize_u8(x.parse().unwrap()),
            "u16" => s.serialize_u16(x.parse().unwrap()),
            "u32" => s.serialize_u32(x.parse().unwrap()),
            "u64" => s.serialize_u64(x.parse().unwrap()),
            "u128" => s.serialize_u128(x.parse().unwrap()),
            "f32" => s.serialize_f32(x.parse().unwrap()),
            "f64" => s.serialize_f64(x.parse().unwrap()),
            "char" => s.serialize_char(x.chars().next().unwrap()),
            "str" => s.serialize_str(x),
            "bytes" => s.serialize_bytes(x.as_bytes()),
            "none" => s.serialize_none(),
            "unit" => s.serialize_unit(),
            "uvar" => s.serialize_unit_variant("E", 0, "Unit"),
            "some" => s.serialize_some(&items[0]),
            "nstruct" => s.serialize_newtype_struct("N", &items[0]),
            "nvar" => s.serialize_newtype_variant("E", 1, "Var", &items[0]),
            "seq" => {
                let mut q = s.serialize_seq(None)?;
                for i in &items {
                    q.serialize_element(i)?;
                }
                q.end()
            }
            "tup" => {
                let mut q = s.serialize_tuple(items.len())?;
                for i in &items {
                    q.serialize_element(i)?;
                }
                q.end()
            }
            "tstruct" => {
                let mut q = s.serialize_tuple_struct("T", items.len())?;
                for i in &items {
                    q.serialize_field(i)?;
                }
                q.end()
            }
            "tvar" => {
                let mut q = s.serialize_tuple_variant("E", 2, "Var", items.len())?;
                for i in &items {
                    q.serialize_field(i)?;
                }
                q.end()
            }
            "map" => {
                let mut q = s.serialize_map(Some(items.len()))?;
                for (k, i) in KEYS.iter().zip(&items) {
                    q.serialize_entry(k, i)?;
                }
                q.end()
            }
            "map2" => {
                let mut q = s.serialize_map(None)?;
                for (k, i) in KEYS.iter().zip(&items) {
                    q.serialize_key(k)?;
                    q.serialize_value(i)?;
                }
                q.end()
            }
            "struct" => {
                let mut q = s.serialize_struct("S", items.len())?;
                for (k, i) in KEYS.iter().zip(&items) {
                    q.serialize_field(k, i)?;
                }
                q.end()
            }
            "svar" => {
                let mut q = s.serialize_struct_variant("E", 3, "Var", items.len())?;
                for (k, i) in KEYS.iter().zip(&items) {
                    q.serialize_field(k, i)?;
                }
                q.end()
            }
            k => panic!("harness: serde kind {k}"),
        }
    }
}

struct Text(String);
impl std::fmt::Display for Text {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "S<{}>", self.0)
    }
}
impl std::fmt::Debug for Text {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "D<{}>", self.0)
    }
}
impl std::error::Error for Text {}

/// What backs a key-value pair of the `log` crate.
enum Kv<'a> {
    Plain(log::kv::Value<'a>),
    Debug(Text),
    Display(Text),
    Error(Text),
    Serde(Dyn<'a>),
}
fn kv(v: &Value) -> Kv<'_> {
    let x = v["x"].as_str().unwrap_or("");
    use log::kv::Value as L;
    let p = |v| Kv::Plain(v);
    if v["serde"] == json!(true) {
        return Kv::Serde(Dyn(v));
    }
    match v["k"].as_str().unwrap() {
        "bool" => p(L::from(x == "true")),
        "i8" => p(L::from(x.parse::<i8>().unwrap())),
        "i16" => p(L::from(x.parse::<i16>().unwrap())),
        "i32" => p(L::from(x.parse::<i32>().unwrap())),
        "i64" => p(L::from(x.parse::<i64>().unwrap())),
        "i128" => p(L::from(x.parse::<i128>().unwrap())),
        "u8" => p(L::from(x.parse::<u8>().unwrap())),
        "u16" => p(L::from(x.parse::<u16>().unwrap())),
        "u32" => p(L::from(x.parse::<u32>().unwrap())),
        "u64" => p(L::from(x.parse::<u64>().unwrap())),
        "u128" => p(L::from(x.parse::<u128>().unwrap())),
        "f32" => p(L::from(x.parse::<f32>().unwrap())),
        "f64" => p(L::from(x.parse::<f64>().unwrap())),
        "char" => p(L::from(x.chars().next().unwrap())),
        "str" => p(L::from(x)),
        "null" => p(L::null()),
        "dbg" => Kv::Debug(Text(x.into())),
        "disp" => Kv::Display(Text(x.into())),
        "err" => Kv::Error(Text(x.into())),
        _ => Kv::Serde(Dyn(v)),
    }
}

type Field = Box<dyn tracing::Value>;
fn field(v: &Value) -> Field {
    let x = v["x"].as_str().unwrap_or("").to_string();
    match v["k"].as_str().unwrap() {
        "absent" => Box::new(Empty),
        "none" => Box::new(None::<i64>),
        "some" => Box::new(Some(x.parse::<i64>().unwrap())),
        "wrap" => Box::new(std::num::Wrapping(x.parse::<u64>().unwrap())),
        "bool" => Box::new(x == "true"),
        "i8" => Box::new(x.parse::<i8>().unwrap()),
        "i16" => Box::new(x.parse::<i16>().unwrap()),
        "i32" => Box::new(x.parse::<i32>().unwrap()),
        "i64" => Box::new(x.parse::<i64>().unwrap()),
        "i128" => Box::new(x.parse::<i128>().unwrap()),
        "u8" => Box::new(x.parse::<u8>().unwrap()),
        "u16" => Box::new(x.parse::<u16>().unwrap()),
        "u32" => Box::new(x.parse::<u32>().unwrap()),
        "u64" => Box::new(x.parse::<u64>().unwrap()),
        "u128" => Box::new(x.parse::<u128>().unwrap()),
        "f32" => Box::new(x.parse::<f32>().unwrap()),
        "f64" => Box::new(x.parse::<f64>().unwrap()),
        "str" => Box::new(x),
        "lit" => Box::new(&*Box::leak(x.into_boxed_str())),
        "bytes" => Box::new(Box::<[u8]>::from(x.as_bytes())),
        "dbg" => Box::new(tracing::field::debug(Text(x))),
        "disp" => Box::new(tracing::field::display(Text(x))),
        "err" => Box::new(Box::<dyn std::error::Error + Send + Sync>::from(Box::new(Text(x)) as Box<_>)),
        "err2" => Box::new(Box::new(Text(x)) as Box<dyn std::error::Error>),
        k => panic!("harness: field kind {k}"),
    }
}

macro_rules! ev {
    ($lvl:ident, $name:literal, $target:literal, $order:expr, $m:expr, $a:expr, $b:expr, $c:expr) => {
        match $order {
            "first" => tracing::event!(name: $name, target: $target, tracing::Level::$lvl, message = $m, a = $a, b = $b, c.d = $c),
            "mid" => tracing::event!(name: $name, target: $target, tracing::Level::$lvl, a = $a, message = $m, b = $b, c.d = $c),
            "text" => tracing::event!(name: $name, target: $target, tracing::Level::$lvl, a = $a, b = $b, c.d = $c, "text {}", 7),
            o => panic!("harness: order {o}"),
        }
    };
}
macro_rules! levels {
    ($l:expr, $name:literal, $target:literal, $($r:tt)*) => {
        match $l {
            "TRACE" => ev!(TRACE, $name, $target, $($r)*),
            "DEBUG" => ev!(DEBUG, $name, $target, $($r)*),
            "INFO" => ev!(INFO, $name, $target, $($r)*),
            "WARN" => ev!(WARN, $name, $target, $($r)*),
            _ => ev!(ERROR, $name, $target, $($r)*),
        }
    };
}

/// Providers outlive the subscribers that use them by a while: one that is dropped while
/// `tracing` walks its subscribers would log, from within its registry lock.
static LINGER: Mutex<std::collections::VecDeque<Box<dyn std::any::Any + Send>>> = Mutex::new(std::collections::VecDeque::new());
fn linger(p: impl std::any::Any + Send) {
    let old = {
        let mut q = LINGER.lock().unwrap();
        q.push_back(Box::new(p));
        if q.len() > 400 { q.pop_front() } else { None }
    };
    drop(old);
}

struct Stack {
    bridge: OpenTelemetryLogBridge<SdkLoggerProvider, SdkLogger>,
    seen: Vec<Seen>,
    _default: tracing::subscriber::DefaultGuard,
    #[cfg(feature = "rich")]
    spans: Arc<Mutex<Vec<opentelemetry_sdk::trace::SpanData>>>,
}
#[derive(Default)]
pub struct AppSut {
    guards: Vec<ContextGuard>,
    // tracing spans: (span, ids as the tracer was told, still open)
    #[cfg(feature = "rich")]
    tspans: Vec<(Option<tracing::Span>, [String; 2])>,
    #[cfg(feature = "rich")]
    entered: Vec<usize>,
    stack: Option<Stack>,
}

#[cfg(feature = "rich")]
mod spy {
    use tracing_subscriber::{layer, registry::LookupSpan, Layer};
    thread_local!(pub static IDS: std::cell::RefCell<[String; 2]> = const { std::cell::RefCell::new([String::new(), String::new()]) });
    /// Notes the identifiers the tracer gave to a new span.
    pub struct Spy;
    impl<S: tracing::Subscriber + for<'a> LookupSpan<'a>> Layer<S> for Spy {
        fn on_new_span(&self, _: &tracing::span::Attributes<'_>, id: &tracing::span::Id, ctx: layer::Context<'_, S>) {
            let span = ctx.span(id).unwrap();
            let of = |s: &tracing_subscriber::registry::SpanRef<'_, S>| {
                let e = s.extensions();
                let d = e.get::<tracing_opentelemetry::OtelData>().unwrap();
                (d.builder.trace_id, d.builder.span_id.unwrap())
            };
            let root = span.scope().from_root().next().unwrap();
            IDS.with(|i| *i.borrow_mut() = [of(&root).0.unwrap().to_string(), of(&span).1.to_string()]);
        }
    }
    #[derive(Debug)]
    pub struct SpanExp(pub std::sync::Arc<std::sync::Mutex<Vec<opentelemetry_sdk::trace::SpanData>>>);
    impl opentelemetry_sdk::trace::SpanExporter for SpanExp {
        async fn export(&self, b: Vec<opentelemetry_sdk::trace::SpanData>) -> opentelemetry_sdk::error::OTelSdkResult {
            self.0.lock().unwrap().extend(b);
            Ok(())
        }
    }
}

impl AppSut {
    fn init(&mut self, s: &Value) {
        let mut b = SdkLoggerProvider::builder();
        let mut seen = vec![];
        for p in s["procs"].as_array().unwrap() {
            let (f, v) = (Filter::of(p), Seen::default());
            seen.push(v.clone());
            b = match p["kind"].as_str().unwrap() {
                "raw" => b.with_log_processor(Raw(f, v)),
                "simple" => b.with_simple_exporter(Exp(f, v)),
                k => panic!("harness: processor {k}"),
            };
        }
        let provider = b.build();
        linger(provider.clone());
        let own = tracing_subscriber::filter::filter_fn(|m| m.target().starts_with("t."));
        let sub = tracing_subscriber::registry();
        #[cfg(feature = "rich")]
        let spans = Arc::new(Mutex::new(vec![]));
        #[cfg(feature = "rich")]
        let sub = {
            use opentelemetry::trace::TracerProvider;
            let tp = opentelemetry_sdk::trace::SdkTracerProvider::builder()
                .with_sampler(opentelemetry_sdk::trace::Sampler::AlwaysOn)
                .with_simple_exporter(spy::SpanExp(spans.clone()))
                .build();
            linger(tp.clone());
            let only_spans = tracing_subscriber::filter::filter_fn(|m| m.is_span() && m.target().starts_with("t."));
            let tele = tracing_opentelemetry::layer().with_tracer(tp.tracer("t")).and_then(spy::Spy);
            sub.with(tele.with_filter(only_spans))
        };
        let sub = sub.with(OpenTelemetryTracingBridge::new(&provider).with_filter(own));
        self.stack = Some(Stack {
            bridge: OpenTelemetryLogBridge::new(&provider),
            seen,
            _default: tracing::subscriber::set_default(sub),
            #[cfg(feature = "rich")]
            spans,
        });
    }
    fn collect(&self) -> Value {
        let name = |tc: &Value| -> Value {
            let Some(t) = tc.as_array() else { return json!(["none", "none"]) };
            for k in 1..=9u64 {
                if t[0] == json!(TraceId::from(100 + k as u128).to_string()) && t[1] == json!(SpanId::from(200 + k).to_string()) {
                    return json!([format!("o{k}"), t[2]]);
                }
            }
            #[cfg(feature = "rich")]
            for (k, (_, ids)) in self.tspans.iter().enumerate() {
                if t[0] == json!(ids[0]) && t[1] == json!(ids[1]) {
                    return json!([format!("t{}", k + 1), t[2]]);
                }
            }
            json!(["other", t[2]])
        };
        let all: Vec<Value> = self.stack.as_ref().unwrap().seen.iter().map(|s| {
            let recs = std::mem::take(&mut *s.lock().unwrap());
            recs.into_iter().map(|mut r| {
                r["tc"] = name(&r["tc"]);
                r
            }).collect()
        }).collect();
        json!(all)
    }
}

fn level(l: &str) -> log::Level {
    match l {
        "TRACE" => log::Level::Trace,
        "DEBUG" => log::Level::Debug,
        "INFO" => log::Level::Info,
        "WARN" => log::Level::Warn,
        "ERROR" => log::Level::Error,
        _ => panic!("harness: level {l}"),
    }
}

impl Sut for AppSut {
    fn step(&mut self, s: &Value) -> Value {
        let st = |k: &str| s[k].as_str().unwrap_or("");
        match st("op") {
            "app_init" => {
                self.init(s);
                json!({"ok": true})
            }
            "app_log" => {
                let kvs: Vec<(&str, Kv)> = s["kvs"].as_array().unwrap().iter().map(|p| (p["key"].as_str().unwrap(), kv(&p["v"]))).collect();
                let vals: Vec<(&str, log::kv::Value)> = kvs.iter().map(|(k, v)| (*k, match v {
                    Kv::Plain(v) => v.clone(),
                    Kv::Debug(t) => log::kv::Value::from_debug(t),
                    Kv::Display(t) => log::kv::Value::from_display(t),
                    Kv::Error(t) => log::kv::Value::from_dyn_error(t),
                    Kv::Serde(d) => log::kv::Value::from_serde(d),
                })).collect();
                let body = st("body");
                self.stack.as_ref().unwrap().bridge.log(
                    &log::Record::builder()
                        .level(level(st("level")))
                        .target(st("target"))
                        .args(format_args!("{body}"))
                        .module_path(Some("some::module"))
                        .file(Some("src/some.rs"))
                        .line(Some(7))
                        .key_values(&vals)
                        .build(),
                );
                self.collect()
            }
            "app_enabled" => {
                let m = log::Metadata::builder().level(level(st("level"))).target(st("target")).build();
                json!(self.stack.as_ref().unwrap().bridge.enabled(&m))
            }
            "app_event" => {
                let f = |k: &str| field(&s[k]);
                let (m, a, b, c) = (f("message"), f("a"), f("b"), f("c"));
                let (l, o) = (st("level"), st("order"));
                match (st("name"), st("target")) {
                    ("n1", "t.one") => levels!(l, "n1", "t.one", o, m, a, b, c),
                    ("n1", "t.two") => levels!(l, "n1", "t.two", o, m, a, b, c),
                    ("n2", "t.one") => levels!(l, "n2", "t.one", o, m, a, b, c),
                    ("n2", "t.two") => levels!(l, "n2", "t.two", o, m, a, b, c),
                    x => panic!("harness: event {x:?}"),
                }
                self.collect()
            }
            "app_attach" => {
                let k = s["k"].as_u64().unwrap();
                let g = match st("what") {
                    "sup" => Context::enter_telemetry_suppressed_scope(),
                    "fresh" => Context::new().attach(),
                    w => Context::current()
                        .with_remote_span_context(SpanContext::new(
                            TraceId::from(100 + k as u128),
                            SpanId::from(200 + k),
                            if w == "on" { TraceFlags::SAMPLED } else { TraceFlags::default() },
                            true,
                            TraceState::default(),
                        ))
                        .attach(),
                };
                self.guards.push(g);
                json!({"ok": true})
            }
            "app_detach" => {
                self.guards.pop();
                json!({"ok": true})
            }
            #[cfg(feature = "rich")]
            "app_tspan" => {
                let root = s["root"] == json!(true);
                let span = if root {
                    tracing::info_span!(target: "t.span", parent: None, "sp")
                } else {
                    tracing::info_span!(target: "t.span", "sp")
                };
                span.with_subscriber(|(id, d)| d.enter(id));
                self.tspans.push((Some(span), spy::IDS.with(|i| i.borrow().clone())));
                self.entered.push(self.tspans.len() - 1);
                json!({"ok": true})
            }
            #[cfg(feature = "rich")]
            "app_tclose" => {
                let k = self.entered.pop().unwrap();
                let span = self.tspans[k].0.take().unwrap();
                span.with_subscriber(|(id, d)| d.exit(id));
                drop(span);
                let ids = &self.tspans[k].1;
                let out = self.stack.as_ref().unwrap().spans.lock().unwrap();
                json!({"exported": out.iter().any(|d| d.span_context.trace_id().to_string() == ids[0]
                    && d.span_context.span_id().to_string() == ids[1])})
            }
            o => panic!("harness: op {o}"),
        }
    }
    fn finish(&mut self) -> Option<String> {
        while self.guards.pop().is_some() {}
        #[cfg(feature = "rich")]
        while let Some(k) = self.entered.pop() {
            if let Some(sp) = self.tspans[k].0.take() {
                sp.with_subscriber(|(id, d)| d.exit(id));
            }
        }
        None
    }
}
