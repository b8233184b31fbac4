//! T03, T06: what spans record and what processors are told.
use crate::common::*;
use opentelemetry::global::{BoxedSpan, BoxedTracer};
use opentelemetry::trace::{
    Event, Link, SamplingDecision, SamplingResult, Span as _, SpanContext, SpanId, SpanKind, Status, TraceContextExt,
    TraceFlags, TraceId, TraceState, Tracer, TracerProvider,
};
use opentelemetry::{Context, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::trace::{SdkTracer, SdkTracerProvider, ShouldSample, Span, SpanData, SpanProcessor};
use serde_json::{json, Value};
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime};

#[derive(Default, Debug)]
struct Shared {
    decision: Option<(String, Vec<KeyValue>)>,
    onstart: Option<KeyValue>,
    reports: Vec<(i64, SpanData)>,
}
type Sh = Arc<Mutex<Shared>>;
#[derive(Clone, Debug)]
struct Smp(Sh);
impl ShouldSample for Smp {
    fn should_sample(
        &self,
        _: Option<&Context>,
        _: TraceId,
        _: &str,
        _: &SpanKind,
        _: &[KeyValue],
        _: &[Link],
    ) -> SamplingResult {
        let (d, attributes) = self.0.lock().unwrap().decision.clone().expect("harness: decision");
        SamplingResult {
            decision: match d.as_str() {
                "sample" => SamplingDecision::RecordAndSample,
                "record" => SamplingDecision::RecordOnly,
                _ => SamplingDecision::Drop,
            },
            attributes,
            trace_state: TraceState::default(),
        }
    }
}
#[derive(Debug)]
struct Proc(i64, Sh);
impl SpanProcessor for Proc {
    fn on_start(&self, span: &mut Span, _: &Context) {
        if self.0 == 1 {
            let kv = self.1.lock().unwrap().onstart.clone();
            if let Some(kv) = kv {
                span.set_attribute(kv);
            }
        }
    }
    fn on_end(&self, span: SpanData) {
        self.1.lock().unwrap().reports.push((self.0, span));
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}

enum Handle {
    Own(Span),
    Boxed(BoxedSpan),
    Cx(Context),
}
fn fixed(t: &str) -> SystemTime {
    let k = match t {
        "t0" => 500,
        "t1" => 1000,
        "t2" => 2000,
        "t3" => 3000,
        o => panic!("harness: time {o}"),
    };
    SystemTime::UNIX_EPOCH + Duration::from_secs(k)
}
fn time_obs(t: SystemTime) -> Value {
    for k in ["t0", "t1", "t2", "t3"] {
        if t == fixed(k) {
            return json!(k);
        }
    }
    let now = SystemTime::now();
    let d = now.duration_since(t).or_else(|e| Ok::<_, ()>(e.duration())).unwrap();
    if d < Duration::from_secs(3600) {
        json!("auto")
    } else {
        json!(format!("{t:?}"))
    }
}
fn kv(tag: Value) -> KeyValue {
    KeyValue::new(format!("k{tag}"), format!("v{tag}"))
}
fn tags(x: &Value, k: i64) -> Vec<KeyValue> {
    (1..=k).map(|j| kv(json!([x, j]))).collect()
}
fn kv_obs(k: &KeyValue) -> Value {
    let (a, b) = (k.key.as_str(), k.value.to_string());
    if a == "exception.message" {
        return serde_json::from_str(&b).unwrap_or(json!("bad"));
    }
    if a.get(1..) == b.get(1..) && a.starts_with('k') && b.starts_with('v') {
        serde_json::from_str(&a[1..]).unwrap_or(json!("bad"))
    } else {
        json!(format!("{k:?}"))
    }
}
fn link_sc(x: i64, j: i64) -> SpanContext {
    SpanContext::new(TraceId::from(9u128), SpanId::from((1_000_000 + 1000 * x + j) as u64), TraceFlags::default(), true, TraceState::default())
}
fn status(x: &str) -> Status {
    match x {
        "unset" => Status::Unset,
        "ok" => Status::Ok,
        e => Status::error(e.to_string()),
    }
}
fn data_obs(d: &SpanData) -> Value {
    let name: Value = d.name.strip_prefix('n').and_then(|x| x.parse::<i64>().ok()).map(|x| json!(x)).unwrap_or(json!(d.name));
    let events: Vec<Value> = d
        .events
        .iter()
        .map(|e| {
            let tag = if e.name == "exception" {
                json!("exception")
            } else {
                serde_json::from_str(e.name.strip_prefix('e').unwrap_or("\"bad\"")).unwrap_or(json!("bad"))
            };
            json!({"tag": tag, "attrs": e.attributes.iter().map(kv_obs).collect::<Vec<_>>(),
                   "da": e.dropped_attributes_count, "ts": time_obs(e.timestamp)})
        })
        .collect();
    let links: Vec<Value> = d
        .links
        .iter()
        .map(|l| {
            let id = u64::from_be_bytes(l.span_context.span_id().to_bytes()) as i64 - 1_000_000;
            let (x, j) = (id / 1000, id % 1000);
            let tag = if j == 0 { json!(x) } else { json!([[x, 4], j]) };
            json!({"tag": tag, "attrs": l.attributes.iter().map(kv_obs).collect::<Vec<_>>(), "da": l.dropped_attributes_count})
        })
        .collect();
    let st = match &d.status {
        Status::Unset => "unset".to_string(),
        Status::Ok => "ok".to_string(),
        Status::Error { description } => description.to_string(),
    };
    let kind = match d.span_kind {
        SpanKind::Internal => "none",
        SpanKind::Server => "server",
        SpanKind::Producer => "producer",
        _ => "?",
    };
    json!({"name": name, "attrs": d.attributes.iter().map(kv_obs).collect::<Vec<_>>(), "da": d.dropped_attributes_count,
           "events": events, "de": d.events.dropped_count, "links": links, "dl": d.links.dropped_count,
           "status": st, "kind": kind, "start": time_obs(d.start_time), "end": time_obs(d.end_time),
           "sampled": d.span_context.is_sampled()})
}

pub struct SpanSut {
    sh: Sh,
    provider: Option<SdkTracerProvider>,
    tracer: Option<SdkTracer>,
    /// T08: the same through the forms that hide whose spans they are.
    boxed: Option<BoxedTracer>,
    spans: Vec<Option<Handle>>,
    ids: Vec<SpanId>,
    onstart: bool,
}
impl SpanSut {
    pub fn new() -> Self {
        SpanSut { sh: Default::default(), provider: None, tracer: None, boxed: None, spans: vec![], ids: vec![], onstart: false }
    }
    fn obs(&mut self) -> Value {
        let rec: Vec<Value> = self
            .spans
            .iter()
            .map(|h| match h {
                None => json!(false),
                Some(Handle::Own(s)) => json!(s.is_recording()),
                Some(Handle::Boxed(s)) => json!(s.is_recording()),
                Some(Handle::Cx(c)) => json!(c.span().is_recording()),
            })
            .collect();
        let reps: Vec<_> = std::mem::take(&mut self.sh.lock().unwrap().reports);
        let reps: Vec<Value> = reps
            .iter()
            .map(|(p, d)| {
                let i = self.ids.iter().position(|x| *x == d.span_context.span_id()).map(|x| x as i64 + 1).unwrap_or(-1);
                json!({"proc": p, "span": i, "data": data_obs(d)})
            })
            .collect();
        json!({"recording": rec, "reports": reps})
    }
}
impl Sut for SpanSut {
    fn step(&mut self, st: &Value) -> Value {
        let op = s(st, "op");
        let x = st.get("x").cloned().unwrap_or(Value::Null);
        match op {
            "span_init" => {
                let l: Vec<u32> = arr(st, "lims").iter().map(|v| v.as_u64().unwrap() as u32).collect();
                let p = SdkTracerProvider::builder()
                    .with_sampler(Smp(self.sh.clone()))
                    .with_span_processor(Proc(1, self.sh.clone()))
                    .with_span_processor(Proc(2, self.sh.clone()))
                    .with_max_attributes_per_span(l[0])
                    .with_max_events_per_span(l[1])
                    .with_max_links_per_span(l[2])
                    .with_max_attributes_per_event(l[3])
                    .with_max_attributes_per_link(l[4])
                    .build();
                self.onstart = b(st, "onstart");
                self.boxed = std::env::var("VH_BOXED").is_ok().then(|| BoxedTracer::new(Box::new(p.tracer("t"))));
                self.tracer = Some(p.tracer("t"));
                self.provider = Some(p);
            }
            "start" => {
                {
                    let mut sh = self.sh.lock().unwrap();
                    sh.decision = Some((s(st, "dec").to_string(), tags(&json!([x, 2]), n(st, "sa"))));
                    sh.onstart = self.onstart.then(|| kv(json!([[x, 5], 1])));
                }
                let t = self.tracer.as_ref().unwrap();
                let mut bu = t.span_builder(format!("n{x}"));
                if n(st, "ba") > 0 {
                    bu = bu.with_attributes(tags(&json!([x, 1]), n(st, "ba")));
                }
                let be = arr(st, "be");
                if !be.is_empty() {
                    bu = bu.with_events(
                        be.iter()
                            .enumerate()
                            .map(|(j, k)| {
                                let tag = json!([[x, 3], j + 1]);
                                Event::new(format!("e{tag}"), fixed("t2"), tags(&tag, k.as_i64().unwrap()), 0)
                            })
                            .collect(),
                    );
                }
                let bl = arr(st, "bl");
                if !bl.is_empty() {
                    bu = bu.with_links(
                        bl.iter()
                            .enumerate()
                            .map(|(j, k)| {
                                let tag = json!([[x, 4], j + 1]);
                                Link::new(link_sc(x.as_i64().unwrap(), j as i64 + 1), tags(&tag, k.as_i64().unwrap()), 0)
                            })
                            .collect(),
                    );
                }
                if s(st, "bst") != "unset" {
                    bu = bu.with_status(status(s(st, "bst")));
                }
                if s(st, "st") != "auto" {
                    bu = bu.with_start_time(fixed(s(st, "st")));
                }
                if s(st, "en") != "none" {
                    bu = bu.with_end_time(fixed(s(st, "en")));
                }
                match s(st, "kind") {
                    "none" => {}
                    "server" => bu = bu.with_kind(SpanKind::Server),
                    "producer" => bu = bu.with_kind(SpanKind::Producer),
                    o => panic!("harness: kind {o}"),
                }
                let own = s(st, "own") == "own";
                let (id, handle) = match &self.boxed {
                    None => {
                        let span = t.build_with_context(bu, &Context::new());
                        let id = span.span_context().span_id();
                        (id, if own { Handle::Own(span) } else { Handle::Cx(Context::new().with_span(span)) })
                    }
                    Some(t) => {
                        let span = t.build_with_context(bu, &Context::new());
                        let id = span.span_context().span_id();
                        (id, if own { Handle::Boxed(span) } else { Handle::Cx(Context::new().with_span(span)) })
                    }
                };
                self.ids.push(id);
                self.spans.push(Some(handle));
            }
            "shutdown" => {
                let _ = self.provider.as_ref().unwrap().shutdown();
            }
            "drop_all" => {
                for h in self.spans.iter_mut() {
                    *h = None;
                }
                self.spans.clear();
            }
            _ => {
                let i = n(st, "i") as usize - 1;
                let err = std::io::Error::new(std::io::ErrorKind::Other, json!([x, 1]).to_string());
                macro_rules! both {
                    ($sp:ident => $e:expr) => {
                        match self.spans[i].as_mut().expect("harness: span gone") {
                            Handle::Own($sp) => $e,
                            Handle::Boxed($sp) => $e,
                            Handle::Cx(c) => {
                                let $sp = c.span();
                                $e
                            }
                        }
                    };
                }
                match op {
                    "set_attribute" => both!(sp => sp.set_attribute(kv(json!([x, 1])))),
                    "set_attributes" => both!(sp => sp.set_attributes(tags(&x, n(st, "k")))),
                    "add_event" => {
                        let (name, at) = (format!("e{x}"), tags(&x, n(st, "k")));
                        if s(st, "ts") == "auto" {
                            both!(sp => sp.add_event(name, at))
                        } else {
                            both!(sp => sp.add_event_with_timestamp(name, fixed(s(st, "ts")), at))
                        }
                    }
                    "record_error" => both!(sp => sp.record_error(&err)),
                    "add_link" => match self.spans[i].as_mut() {
                        Some(Handle::Own(sp)) => sp.add_link(link_sc(x.as_i64().unwrap(), 0), tags(&x, n(st, "k"))),
                        Some(Handle::Boxed(sp)) => sp.add_link(link_sc(x.as_i64().unwrap(), 0), tags(&x, n(st, "k"))),
                        _ => panic!("harness: add_link"),
                    },
                    "set_status" => both!(sp => sp.set_status(status(s(st, "st")))),
                    "update_name" => both!(sp => sp.update_name(format!("n{x}"))),
                    "end" => match s(st, "how") {
                        "end" => both!(sp => sp.end()),
                        "end_at" => both!(sp => sp.end_with_timestamp(fixed("t3"))),
                        "end_at1" => both!(sp => sp.end_with_timestamp(fixed("t1"))),
                        "end_at0" => both!(sp => sp.end_with_timestamp(fixed("t0"))),
                        "drop" => self.spans[i] = None,
                        o => panic!("harness: end {o}"),
                    },
                    o => panic!("harness: op {o}"),
                }
            }
        }
        self.obs()
    }
}
