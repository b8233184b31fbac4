//! L03: log records from logger to processors and exporters.
use crate::common::*;
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger, LoggerProvider, Severity};
use opentelemetry::trace::{
    SpanBuilder, SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer, TracerProvider,
};
use opentelemetry::{Context, ContextGuard, InstrumentationScope, Key, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{
    BatchConfigBuilder, BatchLogProcessor, LogBatch, LogExporter, LogProcessor, SdkLogRecord, SdkLogger, SdkLoggerProvider,
    SimpleLogProcessor,
};
use opentelemetry_sdk::trace::{Sampler, SdkTracerProvider};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

type Seen = Arc<Mutex<Vec<(SdkLogRecord, InstrumentationScope)>>>;
#[derive(Debug)]
struct Raw(Seen);
impl LogProcessor for Raw {
    fn emit(&self, r: &mut SdkLogRecord, s: &InstrumentationScope) {
        self.0.lock().unwrap().push((r.clone(), s.clone()));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
#[derive(Debug)]
struct Editor(String);
impl LogProcessor for Editor {
    fn emit(&self, r: &mut SdkLogRecord, _: &InstrumentationScope) {
        match self.0.as_str() {
            "attr" => r.add_attribute("k999", attr_value(999)),
            "body" => r.set_body(AnyValue::Int(999)),
            "trace" => r.set_trace_context(TraceId::from(0xED0u128), SpanId::from(0xED0u64), Some(TraceFlags::SAMPLED)),
            _ => {}
        }
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
#[derive(Debug)]
struct Exp(Seen);
impl LogExporter for Exp {
    async fn export(&self, batch: LogBatch<'_>) -> OTelSdkResult {
        let mut v = self.0.lock().unwrap();
        v.extend(batch.iter().map(|(r, s)| (r.clone(), s.clone())));
        Ok(())
    }
}

fn scope(l: i64) -> InstrumentationScope {
    match l {
        1 => InstrumentationScope::builder("one").build(),
        2 => InstrumentationScope::builder("two")
            .with_version("2")
            .with_schema_url("http://s/2")
            .with_attributes([KeyValue::new("sa", 2), KeyValue::new("sb", "x")])
            .build(),
        3 => InstrumentationScope::builder("one").with_version("3").build(),
        o => panic!("harness: logger {o}"),
    }
}
fn scope_obs(s: &InstrumentationScope) -> i64 {
    for l in 1..=3 {
        let e = scope(l);
        if e.name() == s.name()
            && e.version() == s.version()
            && e.schema_url() == s.schema_url()
            && e.attributes().collect::<Vec<_>>() == s.attributes().collect::<Vec<_>>()
        {
            return l;
        }
    }
    -1
}
fn attr_value(x: i64) -> AnyValue {
    match (x / 100 + x) % 7 {
        0 => AnyValue::Int(x),
        1 => AnyValue::Double(x as f64 + 0.5),
        2 => AnyValue::String(format!("v{x}").into()),
        3 => AnyValue::Boolean(x % 2 == 0),
        4 => AnyValue::Bytes(Box::new(x.to_be_bytes().to_vec())),
        5 => AnyValue::ListAny(Box::new(vec![AnyValue::Int(x), AnyValue::Boolean(true), AnyValue::String("l".into())])),
        _ => AnyValue::Map(Box::new(HashMap::from([
            (Key::new("m"), AnyValue::Int(x)),
            (Key::new("n"), AnyValue::ListAny(Box::new(vec![AnyValue::Int(x)]))),
        ]))),
    }
}
fn body_value(x: i64) -> AnyValue {
    if x == 999 || x % 3 == 0 {
        AnyValue::Int(x)
    } else if x % 3 == 1 {
        AnyValue::String(format!("{x}").into())
    } else {
        AnyValue::ListAny(Box::new(vec![AnyValue::Int(x)]))
    }
}
fn leak(s: String) -> &'static str {
    Box::leak(s.into_boxed_str())
}
fn num(s: &str, p: &str) -> Value {
    s.strip_prefix(p).and_then(|x| x.parse::<i64>().ok()).map(|x| json!(x)).unwrap_or_else(|| json!(s))
}
fn time_obs(t: Option<SystemTime>) -> Value {
    let Some(t) = t else { return json!(0) };
    let s = t.duration_since(SystemTime::UNIX_EPOCH).map(|d| d.as_secs()).unwrap_or(0);
    if s < 100_000 {
        return json!(s);
    }
    let now = SystemTime::now();
    let d = now.duration_since(t).unwrap_or_else(|e| e.duration());
    if d < Duration::from_secs(3600) {
        json!(-1)
    } else {
        json!("odd")
    }
}
const KINDS: [&str; 5] = ["on", "off", "rec", "RS", "RU"];

pub struct LogSut {
    provider: Option<SdkLoggerProvider>,
    loggers: HashMap<i64, SdkLogger>,
    slots: HashMap<i64, (i64, SdkLogRecord)>,
    seen: [Seen; 4],
    spans: Vec<(&'static str, Context, SpanContext)>,
    guards: Vec<ContextGuard>,
}
#[derive(Clone, Debug)]
struct RecOnly;
impl opentelemetry_sdk::trace::ShouldSample for RecOnly {
    fn should_sample(
        &self,
        _: Option<&Context>,
        _: TraceId,
        _: &str,
        _: &opentelemetry::trace::SpanKind,
        _: &[KeyValue],
        _: &[opentelemetry::trace::Link],
    ) -> opentelemetry::trace::SamplingResult {
        opentelemetry::trace::SamplingResult {
            decision: opentelemetry::trace::SamplingDecision::RecordOnly,
            attributes: vec![],
            trace_state: TraceState::default(),
        }
    }
}
impl LogSut {
    pub fn new() -> Self {
        LogSut {
            provider: None,
            loggers: HashMap::new(),
            slots: HashMap::new(),
            seen: Default::default(),
            spans: vec![],
            guards: vec![],
        }
    }
    fn rec_obs(&self, r: &SdkLogRecord, sc: &InstrumentationScope) -> Value {
        let attrs: Vec<Value> = r
            .attributes_iter()
            .map(|(k, v)| match num(k.as_str(), "k") {
                Value::Number(x) if *v == attr_value(x.as_i64().unwrap()) => Value::Number(x),
                _ => json!(format!("{k:?} {v:?}")),
            })
            .collect();
        let body = match r.body() {
            None => json!(0),
            Some(b) => (1..=999).find(|x| body_value(*x) == *b).map(|x| json!(x)).unwrap_or(json!("odd")),
        };
        let tc = match r.trace_context() {
            None => json!({"src": "none", "flags": "none"}),
            Some(t) => {
                let src = if t.trace_id == TraceId::from(0xE0u128) && t.span_id == SpanId::from(0xE0u64) {
                    "explicit"
                } else if t.trace_id == TraceId::from(0xED0u128) && t.span_id == SpanId::from(0xED0u64) {
                    "edited"
                } else {
                    self.spans
                        .iter()
                        .find(|(_, _, c)| c.trace_id() == t.trace_id && c.span_id() == t.span_id)
                        .map(|x| x.0)
                        .unwrap_or("odd")
                };
                let f = match t.trace_flags {
                    None => "none".into(),
                    Some(f) => format!("{}", f.to_u8()),
                };
                json!({"src": src, "flags": f})
            }
        };
        json!({"lg": scope_obs(sc),
            "ev": r.event_name().map(|e| num(e, "ev")).unwrap_or(json!(0)),
            "target": r.target().map(|e| num(e, "tg")).unwrap_or(json!(0)),
            "ts": time_obs(r.timestamp()), "ots": time_obs(r.observed_timestamp()),
            "sevt": r.severity_text().map(|e| num(e, "st")).unwrap_or(json!(0)),
            "sevn": r.severity_number().map(|e| e as i64).unwrap_or(0),
            "body": body, "attrs": attrs, "tc": tc})
    }
    fn take(&self, i: usize) -> Vec<Value> {
        let v = std::mem::take(&mut *self.seen[i].lock().unwrap());
        v.iter().map(|(r, s)| self.rec_obs(r, s)).collect()
    }
}
fn severity(x: i64) -> Severity {
    use Severity::*;
    [
        Trace, Trace2, Trace3, Trace4, Debug, Debug2, Debug3, Debug4, Info, Info2, Info3, Info4, Warn, Warn2, Warn3, Warn4,
        Error, Error2, Error3, Error4, Fatal, Fatal2, Fatal3, Fatal4,
    ][x as usize - 1]
}
impl Sut for LogSut {
    fn step(&mut self, st: &Value) -> Value {
        let ok = json!({"ok": true});
        match s(st, "op") {
            "log_init" => {
                let mut p = SdkLoggerProvider::builder().with_log_processor(Raw(self.seen[0].clone()));
                if s(st, "mod") != "none" {
                    p = p.with_log_processor(Editor(s(st, "mod").to_string()));
                }
                let p = p
                    .with_log_processor(Raw(self.seen[1].clone()))
                    .with_log_processor(SimpleLogProcessor::new(Exp(self.seen[2].clone())))
                    .with_log_processor(
                        BatchLogProcessor::builder(Exp(self.seen[3].clone()))
                            .with_batch_config(
                                BatchConfigBuilder::default()
                                    .with_max_queue_size(10_000)
                                    .with_max_export_batch_size(3)
                                    .with_scheduled_delay(Duration::from_secs(3600))
                                    .build(),
                            )
                            .build(),
                    )
                    .build();
                for l in 1..=3 {
                    self.loggers.insert(l, p.logger_with_scope(scope(l)));
                }
                self.provider = Some(p);
                for k in KINDS {
                    let cx = match k {
                        "RS" | "RU" => {
                            let f = if k == "RS" { TraceFlags::SAMPLED } else { TraceFlags::default() };
                            let id = if k == "RS" { 0xA1u64 } else { 0xA2 };
                            Context::new().with_remote_span_context(SpanContext::new(
                                TraceId::from(id as u128),
                                SpanId::from(id),
                                f,
                                true,
                                TraceState::default(),
                            ))
                        }
                        k => {
                            let b = SdkTracerProvider::builder();
                            let tp = match k {
                                "on" => b.with_sampler(Sampler::AlwaysOn),
                                "off" => b.with_sampler(Sampler::AlwaysOff),
                                _ => b.with_sampler(RecOnly),
                            }
                            .build();
                            Context::new().with_span(tp.tracer("t").build_with_context(SpanBuilder::from_name("s"), &Context::new()))
                        }
                    };
                    let sc = cx.span().span_context().clone();
                    self.spans.push((k, cx, sc));
                }
                ok
            }
            "log_create" => {
                let l = n(st, "lg");
                self.slots.insert(n(st, "s"), (l, self.loggers[&l].create_log_record()));
                ok
            }
            "log_set" => {
                let x = n(st, "x");
                let r = &mut self.slots.get_mut(&n(st, "s")).expect("harness: slot").1;
                let t = SystemTime::UNIX_EPOCH + Duration::from_secs(x as u64);
                match s(st, "f") {
                    "ev" => r.set_event_name(leak(format!("ev{x}"))),
                    "target" => r.set_target(format!("tg{x}")),
                    "ts" => r.set_timestamp(t),
                    "ots" => r.set_observed_timestamp(t),
                    "sevt" => r.set_severity_text(leak(format!("st{x}"))),
                    "sevn" => r.set_severity_number(severity(x)),
                    "body" => r.set_body(body_value(x)),
                    o => panic!("harness: field {o}"),
                }
                ok
            }
            "log_attr" => {
                let x = n(st, "x");
                self.slots.get_mut(&n(st, "s")).expect("harness: slot").1.add_attribute(format!("k{x}"), attr_value(x));
                ok
            }
            "log_attrs" => {
                let x = n(st, "x");
                let v: Vec<_> = (1..=n(st, "k")).map(|j| (format!("k{}", x + j), attr_value(x + j))).collect();
                self.slots.get_mut(&n(st, "s")).expect("harness: slot").1.add_attributes(v);
                ok
            }
            "log_trace" => {
                let f = match s(st, "flags") {
                    "none" => None,
                    "0" => Some(TraceFlags::default()),
                    _ => Some(TraceFlags::SAMPLED),
                };
                self.slots.get_mut(&n(st, "s")).expect("harness: slot").1.set_trace_context(
                    TraceId::from(0xE0u128),
                    SpanId::from(0xE0u64),
                    f,
                );
                ok
            }
            "log_emit" => {
                let (l, r) = if s(st, "how") == "own" {
                    self.slots.remove(&n(st, "s")).expect("harness: slot")
                } else {
                    self.slots.get(&n(st, "s")).cloned().expect("harness: slot")
                };
                let lg = &self.loggers[&l];
                if s(st, "where") == "here" {
                    lg.emit(r);
                } else {
                    std::thread::scope(|sc| {
                        sc.spawn(|| lg.emit(r));
                    });
                }
                json!({"first": self.take(0), "second": self.take(1), "simple": self.take(2)})
            }
            "log_flush" => {
                self.provider.as_ref().unwrap().force_flush().unwrap();
                json!({"batch": self.take(3)})
            }
            "log_attach" => {
                let cur = Context::current();
                let cx = match s(st, "k") {
                    "fresh" => Context::new(),
                    "value" => cur.with_value(n_value()),
                    "sup" => cur.with_telemetry_suppressed(),
                    k => {
                        // the current context with this span: share the span by way of its context
                        let c = &self.spans.iter().find(|x| x.0 == k).expect("harness: span").1;
                        if cur.is_telemetry_suppressed() {
                            c.with_telemetry_suppressed()
                        } else {
                            c.clone()
                        }
                    }
                };
                self.guards.push(cx.attach());
                ok
            }
            "log_detach" => {
                self.guards.pop();
                ok
            }
            "log_end_span" => {
                Context::map_current(|c| c.span().end());
                ok
            }
            o => panic!("harness: op {o}"),
        }
    }
    fn finish(&mut self) -> Option<String> {
        while self.guards.pop().is_some() {}
        None
    }
}
#[derive(Debug)]
struct Val(#[allow(dead_code)] u8);
fn n_value() -> Val {
    Val(1)
}
