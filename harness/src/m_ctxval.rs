//! X02: contexts as immutable values.
use crate::common::*;
use opentelemetry::baggage::{Baggage, BaggageExt};
use opentelemetry::trace::{Span, SpanContext, SpanId, Status, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, KeyValue};
use serde_json::{json, Value};
use std::borrow::Cow;
use std::time::SystemTime;

struct VA(i64);
struct VB(i64);
struct VC(i64);

#[derive(Debug)]
pub struct FakeSpan(pub SpanContext);
impl Span for FakeSpan {
    fn add_event_with_timestamp<T: Into<Cow<'static, str>>>(&mut self, _: T, _: SystemTime, _: Vec<KeyValue>) {}
    fn span_context(&self) -> &SpanContext {
        &self.0
    }
    fn is_recording(&self) -> bool {
        false
    }
    fn set_attribute(&mut self, _: KeyValue) {}
    fn set_status(&mut self, _: Status) {}
    fn update_name<T: Into<Cow<'static, str>>>(&mut self, _: T) {}
    fn add_link(&mut self, _: SpanContext, _: Vec<KeyValue>) {}
    fn end_with_timestamp(&mut self, _: SystemTime) {}
}
pub fn sc(id: i64, remote: bool) -> SpanContext {
    SpanContext::new(
        TraceId::from(7u128),
        SpanId::from(id as u64),
        TraceFlags::SAMPLED,
        remote,
        TraceState::default(),
    )
}

pub struct ValSut {
    pool: Vec<Context>,
    types: Vec<String>,
}
impl ValSut {
    pub fn new() -> Self {
        ValSut { pool: vec![], types: vec![] }
    }
    fn obs1(&self, c: &Context) -> Value {
        let mut vals = serde_json::Map::new();
        for t in &self.types {
            let v = match t.as_str() {
                "A" => c.get::<VA>().map(|v| v.0),
                "B" => c.get::<VB>().map(|v| v.0),
                "C" => c.get::<VC>().map(|v| v.0),
                _ => panic!("harness: type"),
            };
            vals.insert(t.clone(), json!(v.unwrap_or(0)));
        }
        let span = u64::from_be_bytes(c.span().span_context().span_id().to_bytes());
        let bag = c.baggage();
        let b = match bag.len() {
            0 => 0,
            1 => bag.get("k").map(|v| v.as_str().parse::<i64>().unwrap()).unwrap_or(-1),
            _ => -2,
        };
        json!({"vals": vals, "span": span, "active": c.has_active_span(), "remote": c.span().span_context().is_remote(),
               "bag": b, "sup": c.is_telemetry_suppressed()})
    }
    fn obs(&self) -> Value {
        Value::Array(self.pool.iter().map(|c| self.obs1(c)).collect())
    }
}
fn bag(id: i64) -> Baggage {
    let mut b = Baggage::new();
    b.insert("k", id.to_string());
    b
}
impl Sut for ValSut {
    fn step(&mut self, st: &Value) -> Value {
        if s(st, "op") == "init" {
            self.types = st["exp"][0]["vals"].as_object().unwrap().keys().cloned().collect();
            self.pool.push(Context::new());
            return self.obs();
        }
        let src = &self.pool[n(st, "src") as usize - 1];
        let id = self.pool.len() as i64 + 1;
        let cx = if s(st, "via") == "own" {
            match (s(st, "k"), s(st, "t")) {
                ("value", "A") => src.with_value(VA(id)),
                ("value", "B") => src.with_value(VB(id)),
                ("value", "C") => src.with_value(VC(id)),
                ("span", _) => src.with_span(FakeSpan(sc(id, false))),
                ("remote", _) => src.with_remote_span_context(sc(id, true)),
                ("invalid_remote", _) => src.with_remote_span_context(SpanContext::empty_context()),
                ("bag", _) => src.with_baggage(bag(id)),
                ("emptybag", _) => src.with_baggage(Baggage::new()),
                ("clear", _) => src.with_cleared_baggage(),
                ("sup", _) => src.with_telemetry_suppressed(),
                ("clone", _) => src.clone(),
                o => panic!("harness: {o:?}"),
            }
        } else {
            let _g = src.clone().attach();
            match (s(st, "k"), s(st, "t")) {
                ("value", "A") => Context::current_with_value(VA(id)),
                ("value", "B") => Context::current_with_value(VB(id)),
                ("value", "C") => Context::current_with_value(VC(id)),
                ("span", _) => Context::current_with_span(FakeSpan(sc(id, false))),
                ("remote", _) => Context::map_current(|c| c.with_remote_span_context(sc(id, true))),
                ("invalid_remote", _) => Context::map_current(|c| c.with_remote_span_context(SpanContext::empty_context())),
                ("bag", _) => Context::current_with_baggage(vec![KeyValue::new("k", id.to_string())]),
                ("emptybag", _) => Context::current_with_baggage(Vec::<KeyValue>::new()),
                ("clear", _) => Context::map_current(|c| c.with_cleared_baggage()),
                ("sup", _) => {
                    let _g2 = Context::enter_telemetry_suppressed_scope();
                    assert!(Context::is_current_telemetry_suppressed());
                    Context::current()
                }
                ("clone", _) => Context::current(),
                o => panic!("harness: {o:?}"),
            }
        };
        self.pool.push(cx);
        self.obs()
    }
}
