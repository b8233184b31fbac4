//! O01–O03: the OTLP/HTTP exporters, over an HTTP client that records what it is given.
use crate::common::*;
use crate::m_metrics::Rdr;
use crate::m_otlp_wire::{hex, json_tree, protobuf};
use crate::m_resource::{lock_env, set_env};
use opentelemetry::logs::{AnyValue, LogRecord as _, Logger, LoggerProvider, Severity};
use opentelemetry::metrics::MeterProvider;
use opentelemetry::trace::{Event, Link, SpanContext, SpanId, SpanKind, Status, TraceFlags, TraceId, TraceState};
use opentelemetry::{Array, InstrumentationScope, Key, KeyValue, StringValue, Value as OValue};
use opentelemetry_http::{Bytes, HttpClient, HttpError, Request, Response};
use opentelemetry_otlp::{Protocol, WithExportConfig, WithHttpConfig};
use opentelemetry_sdk::error::{OTelSdkError, OTelSdkResult};
use opentelemetry_sdk::logs::{LogBatch, LogExporter, SdkLogRecord, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{new_view, Aggregation, Instrument, ManualReader, SdkMeterProvider, Stream, Temporality};
use opentelemetry_sdk::trace::{SpanData, SpanEvents, SpanExporter, SpanLinks};
use opentelemetry_sdk::Resource;
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::task::{Context as Cx, Poll, Waker};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

// ---- the HTTP client ----
#[derive(Default)]
struct Wire {
    sent: Vec<Request<Bytes>>,
    answer: Option<String>,
    body: Option<String>,
}
#[derive(Clone, Default)]
pub(crate) struct Client(Arc<Mutex<Wire>>);
impl std::fmt::Debug for Client {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Client")
    }
}
struct Answer(Client);
impl Future for Answer {
    type Output = Result<Response<Bytes>, HttpError>;
    fn poll(self: Pin<&mut Self>, _: &mut Cx<'_>) -> Poll<Self::Output> {
        let mut g = self.0 .0.lock().unwrap();
        match g.answer.take() {
            None => Poll::Pending,
            Some(a) if a == "lost" => Poll::Ready(Err("connection lost".into())),
            Some(a) => Poll::Ready(Ok(Response::builder().status(a.parse::<u16>().unwrap()).body(g.body.take().map_or(Bytes::from_static(b"answer"), Bytes::from)).unwrap())),
        }
    }
}
#[async_trait::async_trait]
impl HttpClient for Client {
    async fn send_bytes(&self, r: Request<Bytes>) -> Result<Response<Bytes>, HttpError> {
        self.0.lock().unwrap().sent.push(r);
        Answer(self.clone()).await
    }
}
impl Client {
    pub(crate) fn take(&self) -> Vec<Request<Bytes>> {
        std::mem::take(&mut self.0.lock().unwrap().sent)
    }
    pub(crate) fn answer(&self, a: &str) {
        self.0.lock().unwrap().answer = Some(a.into());
    }
    pub(crate) fn answer_with(&self, a: &str, body: &str) {
        self.0.lock().unwrap().body = Some(body.into());
        self.answer(a);
    }
    fn sent(&self) -> usize {
        self.0.lock().unwrap().sent.len()
    }
}
fn poll<F: Future + ?Sized>(f: &mut Pin<Box<F>>) -> Poll<F::Output> {
    f.as_mut().poll(&mut Cx::from_waker(Waker::noop()))
}
pub(crate) fn now<F: Future>(f: F) -> F::Output {
    match poll(&mut Box::pin(f)) {
        Poll::Ready(r) => r,
        Poll::Pending => panic!("the export waits for something besides the answer"),
    }
}

// ---- exporters ----
enum Exp {
    Spans(opentelemetry_otlp::SpanExporter),
    Logs(Arc<opentelemetry_otlp::LogExporter>),
    Metrics(Arc<opentelemetry_otlp::MetricExporter>),
}
struct Code {
    endpoint: Option<String>,
    headers: Vec<(String, String)>,
    timeout: u64,
    protocol: Protocol,
}
fn protocol(p: &str) -> Protocol {
    match p {
        "binary" => Protocol::HttpBinary,
        "json" => Protocol::HttpJson,
        _ => Protocol::Grpc,
    }
}
fn plain(p: &str) -> Code {
    Code { endpoint: None, headers: vec![], timeout: 0, protocol: protocol(p) }
}
fn build(sig: &str, c: &Code, client: &Client) -> Option<Exp> {
    macro_rules! cfg {
        ($b:expr) => {{
            let mut b = $b.with_http().with_http_client(client.clone()).with_protocol(c.protocol);
            if let Some(e) = &c.endpoint {
                b = b.with_endpoint(e.clone());
            }
            if c.timeout > 0 {
                b = b.with_timeout(Duration::from_millis(c.timeout));
            }
            for (k, v) in &c.headers {
                b = b.with_headers(HashMap::from([(k.clone(), v.clone())]));
            }
            b
        }};
    }
    match sig {
        "traces" | "spans" => cfg!(opentelemetry_otlp::SpanExporter::builder()).build().ok().map(Exp::Spans),
        "logs" => cfg!(opentelemetry_otlp::LogExporter::builder()).build().ok().map(|e| Exp::Logs(Arc::new(e))),
        _ => cfg!(opentelemetry_otlp::MetricExporter::builder()).build().ok().map(|e| Exp::Metrics(Arc::new(e))),
    }
}

// ---- telemetry from the words of the specification ----
fn t(v: i64) -> SystemTime {
    UNIX_EPOCH + Duration::from_nanos(v as u64)
}
fn list(x: &str) -> Vec<&str> {
    x.split(',').filter(|p| !p.is_empty()).collect()
}
fn oval(v: &str) -> OValue {
    let (k, x) = v.split_once(':').unwrap();
    match k {
        "s" => x.to_string().into(),
        "i" => OValue::I64(x.parse().unwrap()),
        "b" => OValue::Bool(x == "true"),
        "d" => OValue::F64(x.parse::<f64>().unwrap() / 10.0),
        "S" => OValue::Array(Array::String(list(x).into_iter().map(|p| StringValue::from(p.to_string())).collect())),
        "I" => OValue::Array(Array::I64(list(x).into_iter().map(|p| p.parse().unwrap()).collect())),
        "B" => OValue::Array(Array::Bool(list(x).into_iter().map(|p| p == "true").collect())),
        "D" => OValue::Array(Array::F64(list(x).into_iter().map(|p| p.parse::<f64>().unwrap() / 10.0).collect())),
        o => panic!("harness: value {o}"),
    }
}
fn aval(v: &str) -> AnyValue {
    let (k, x) = v.split_once(':').unwrap();
    match k {
        "s" => AnyValue::String(x.to_string().into()),
        "i" => AnyValue::Int(x.parse().unwrap()),
        "b" => AnyValue::Boolean(x == "true"),
        "d" => AnyValue::Double(x.parse::<f64>().unwrap() / 10.0),
        "y" => AnyValue::Bytes(Box::new((0..x.len() / 2).map(|i| u8::from_str_radix(&x[2 * i..2 * i + 2], 16).unwrap()).collect())),
        "L" => AnyValue::ListAny(Box::new(x.split(';').filter(|p| !p.is_empty()).map(aval).collect())),
        "M" => AnyValue::Map(Box::new(
            x.split(';').filter(|p| !p.is_empty()).map(|p| p.split_once('=').unwrap()).map(|(k, v)| (Key::from(k.to_string()), aval(v))).collect(),
        )),
        o => panic!("harness: value {o}"),
    }
}
fn kvs(v: &Value) -> Vec<KeyValue> {
    v.as_array().unwrap().iter().map(|a| KeyValue::new(s(a, "k").to_string(), oval(s(a, "v")))).collect()
}
pub(crate) fn scope(v: &Value) -> InstrumentationScope {
    let mut b = InstrumentationScope::builder(s(v, "name").to_string());
    if !s(v, "version").is_empty() {
        b = b.with_version(s(v, "version").to_string());
    }
    if !s(v, "schema").is_empty() {
        b = b.with_schema_url(s(v, "schema").to_string());
    }
    if !arr(v, "attrs").is_empty() {
        b = b.with_attributes(kvs(&v["attrs"]));
    }
    b.build()
}
fn resource(v: &Value) -> Resource {
    let b = Resource::builder_empty();
    match s(v, "schema") {
        "" => b.with_attributes(kvs(&v["attrs"])).build(),
        u => b.with_schema_url(kvs(&v["attrs"]), u.to_string()).build(),
    }
}
fn context(v: &Value) -> SpanContext {
    SpanContext::new(
        TraceId::from_hex(s(v, "tid")).unwrap(),
        SpanId::from_hex(s(v, "sid")).unwrap(),
        TraceFlags::new(n(v, "flags") as u8),
        false,
        TraceState::from_str(s(v, "state")).unwrap(),
    )
}
pub(crate) fn span(sc: InstrumentationScope, v: &Value) -> SpanData {
    let mut events = SpanEvents::default();
    events.events = arr(v, "events")
        .iter()
        .map(|e| Event::new(s(e, "name").to_string(), t(n(e, "time")), kvs(&e["attrs"]), n(e, "dropped") as u32))
        .collect();
    events.dropped_count = n(v, "edropped") as u32;
    let mut links = SpanLinks::default();
    links.links = arr(v, "links").iter().map(|l| Link::new(context(l), kvs(&l["attrs"]), n(l, "dropped") as u32)).collect();
    links.dropped_count = n(v, "ldropped") as u32;
    SpanData {
        span_context: context(v),
        parent_span_id: if s(v, "parent").is_empty() { SpanId::INVALID } else { SpanId::from_hex(s(v, "parent")).unwrap() },
        span_kind: match s(v, "kind") {
            "internal" => SpanKind::Internal,
            "server" => SpanKind::Server,
            "client" => SpanKind::Client,
            "producer" => SpanKind::Producer,
            _ => SpanKind::Consumer,
        },
        name: s(v, "name").to_string().into(),
        start_time: t(n(v, "start")),
        end_time: t(n(v, "end")),
        attributes: kvs(&v["attrs"]),
        dropped_attributes_count: n(v, "dropped") as u32,
        events,
        links,
        status: match s(v, "status") {
            "unset" => Status::Unset,
            "ok" => Status::Ok,
            _ => Status::error(s(v, "message").to_string()),
        },
        instrumentation_scope: sc,
    }
}
const SEVERITIES: [Severity; 24] = [
    Severity::Trace,
    Severity::Trace2,
    Severity::Trace3,
    Severity::Trace4,
    Severity::Debug,
    Severity::Debug2,
    Severity::Debug3,
    Severity::Debug4,
    Severity::Info,
    Severity::Info2,
    Severity::Info3,
    Severity::Info4,
    Severity::Warn,
    Severity::Warn2,
    Severity::Warn3,
    Severity::Warn4,
    Severity::Error,
    Severity::Error2,
    Severity::Error3,
    Severity::Error4,
    Severity::Fatal,
    Severity::Fatal2,
    Severity::Fatal3,
    Severity::Fatal4,
];
fn leak(x: &str) -> &'static str {
    Box::leak(x.to_string().into_boxed_str())
}
fn log(v: &Value) -> SdkLogRecord {
    let mut r = SdkLoggerProvider::builder().build().logger("any").create_log_record();
    if n(v, "time") > 0 {
        r.set_timestamp(t(n(v, "time")));
    }
    r.set_observed_timestamp(t(n(v, "obs")));
    if n(v, "sev") > 0 {
        r.set_severity_number(SEVERITIES[n(v, "sev") as usize - 1]);
    }
    if !s(v, "text").is_empty() {
        r.set_severity_text(leak(s(v, "text")));
    }
    if s(v, "body") != "-" {
        r.set_body(aval(s(v, "body")));
    }
    for a in arr(v, "attrs") {
        r.add_attribute(s(a, "k").to_string(), aval(s(a, "v")));
    }
    if !s(v, "event").is_empty() {
        r.set_event_name(leak(s(v, "event")));
    }
    if s(v, "target") != "-" {
        r.set_target(s(v, "target").to_string());
    }
    if !s(v, "tid").is_empty() {
        let flags = (n(v, "flags") >= 0).then(|| TraceFlags::new(n(v, "flags") as u8));
        r.set_trace_context(TraceId::from_hex(s(v, "tid")).unwrap(), SpanId::from_hex(s(v, "sid")).unwrap(), flags);
    }
    r
}
/// The metrics of the items, as a reader with the temporality of the first collects them.
fn metrics(res: Resource, items: &[Value]) -> ResourceMetrics {
    let temp = match items.first().map(|i| s(&i["x"], "temp")) {
        Some("delta") => Temporality::Delta,
        _ => Temporality::Cumulative,
    };
    let reader = Rdr(Arc::new(ManualReader::builder().with_temporality(temp).build()));
    let mut pb = SdkMeterProvider::builder().with_resource(res).with_reader(reader.clone());
    for (i, it) in items.iter().enumerate() {
        if s(&it["x"], "kind") == "expo" {
            pb = pb.with_view(
                new_view(
                    Instrument::new().name(format!("m{}", i + 1)),
                    Stream::new().aggregation(Aggregation::Base2ExponentialHistogram { max_size: 160, max_scale: 0, record_min_max: true }),
                )
                .expect("harness: view"),
            );
        }
    }
    let p = pb.build();
    for (i, it) in items.iter().enumerate() {
        let x = &it["x"];
        let (name, desc) = (format!("m{}", i + 1), s(x, "desc").to_string());
        let meter = p.meter_with_scope(scope(&it["sc"]));
        let all: Vec<(Vec<KeyValue>, i64)> = arr(x, "pts")
            .iter()
            .flat_map(|p| {
                let at = if s(p, "a").is_empty() { vec![] } else { vec![KeyValue::new("at", s(p, "a").to_string())] };
                arr(p, "ms").iter().map(move |m| (at.clone(), m.as_i64().unwrap())).collect::<Vec<_>>()
            })
            .collect();
        macro_rules! fin {
            ($b:expr) => {{
                let b = $b;
                if desc.is_empty() { b } else { b.with_description(desc.clone()).with_unit("By") }
            }};
        }
        macro_rules! sync {
            ($b:expr, $m:ident, $t:ty) => {{
                let i = fin!($b).build();
                for (at, v) in &all {
                    i.$m(*v as $t, at);
                }
            }};
        }
        macro_rules! observed {
            ($b:expr, $t:ty) => {{
                fin!($b).with_callback(move |o| all.iter().for_each(|(at, v)| o.observe(*v as $t, at))).build();
            }};
        }
        match s(x, "kind") {
            "counter" => sync!(meter.u64_counter(name), add, u64),
            "fcounter" => sync!(meter.f64_counter(name), add, f64),
            "updown" => sync!(meter.i64_up_down_counter(name), add, i64),
            "gauge" => sync!(meter.i64_gauge(name), record, i64),
            "fgauge" => sync!(meter.f64_gauge(name), record, f64),
            "hist" => sync!(meter.u64_histogram(name).with_boundaries(vec![1.0, 5.0]), record, u64),
            "fhist" => sync!(meter.f64_histogram(name).with_boundaries(vec![1.0, 5.0]), record, f64),
            "expo" => sync!(meter.f64_histogram(name), record, f64),
            "ocounter" => observed!(meter.u64_observable_counter(name), u64),
            "oupdown" => observed!(meter.i64_observable_up_down_counter(name), i64),
            "ogauge" => observed!(meter.i64_observable_gauge(name), i64),
            k => panic!("harness: kind {k}"),
        }
    }
    let mut rm = ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] };
    reader.collect(&mut rm).expect("harness: collect");
    rm
}
/// When each metric starts and ends, as the SDK has it.
fn times(rm: &ResourceMetrics) -> HashMap<String, (String, String)> {
    let ns = |x: SystemTime| x.duration_since(UNIX_EPOCH).unwrap().as_nanos().to_string();
    let mut out = HashMap::new();
    for m in rm.scope_metrics.iter().flat_map(|s| &s.metrics) {
        macro_rules! d {
            ($d:expr) => {
                match $d {
                    MetricData::Sum(x) => (Some(x.start_time), x.time),
                    MetricData::Gauge(x) => (x.start_time, x.time),
                    MetricData::Histogram(x) => (Some(x.start_time), x.time),
                    MetricData::ExponentialHistogram(x) => (Some(x.start_time), x.time),
                }
            };
        }
        let (a, b) = match &m.data {
            AggregatedMetrics::F64(d) => d!(d),
            AggregatedMetrics::U64(d) => d!(d),
            AggregatedMetrics::I64(d) => d!(d),
        };
        out.insert(m.name.to_string(), (a.map(ns).unwrap_or("0".into()), ns(b)));
    }
    out
}

// ---- requests in the words of the specification ----
fn some_item(sig: &str) -> Value {
    let sc = json!({"name": "lib", "version": "", "attrs": [], "schema": ""});
    let x = match sig {
        "traces" => json!({"tid": "0102030405060708090a0b0c0d0e0f10", "sid": "0102030405060708", "parent": "", "flags": 1, "state": "",
            "name": "op", "kind": "internal", "start": 1, "end": 2, "attrs": [], "dropped": 0, "events": [], "edropped": 0, "links": [],
            "ldropped": 0, "status": "unset", "message": ""}),
        "logs" => json!({"time": 0, "obs": 3, "sev": 0, "text": "", "body": "s:x", "attrs": [], "event": "", "target": "-", "tid": "",
            "sid": "", "flags": -1}),
        _ => json!({"kind": "counter", "temp": "cumulative", "desc": "", "pts": [{"a": "", "ms": [1]}]}),
    };
    json!([{"sc": sc, "x": x}])
}
/// The export of the items, not yet polled (spans are exported at once).
fn export(e: &Exp, res: &Resource, items: &[Value]) -> Pin<Box<dyn Future<Output = OTelSdkResult> + Send>> {
    match e {
        Exp::Spans(e) => {
            let r = now(e.export(items.iter().map(|i| span(scope(&i["sc"]), &i["x"])).collect()));
            Box::pin(async move { r })
        }
        Exp::Logs(e) => {
            let e = e.clone();
            let data: Vec<(SdkLogRecord, InstrumentationScope)> = items.iter().map(|i| (log(&i["x"]), scope(&i["sc"]))).collect();
            Box::pin(async move {
                let refs: Vec<(&SdkLogRecord, &InstrumentationScope)> = data.iter().map(|(r, s)| (r, s)).collect();
                e.export(LogBatch::new(&refs)).await
            })
        }
        Exp::Metrics(e) => {
            let (e, mut rm) = (e.clone(), metrics(res.clone(), items));
            Box::pin(async move { e.export(&mut rm).await })
        }
    }
}
fn set_resource(e: Exp, r: &Resource) -> Exp {
    match e {
        Exp::Spans(mut e) => {
            e.set_resource(r);
            Exp::Spans(e)
        }
        Exp::Logs(mut e) => {
            Arc::get_mut(&mut e).unwrap().set_resource(r);
            Exp::Logs(e)
        }
        m => m,
    }
}
fn wire(v: &Value) -> String {
    let Some(o) = v.as_object() else { return format!("no value: {v}") };
    if o.len() != 1 {
        return format!("{v}");
    }
    let (k, x) = o.iter().next().unwrap();
    let text = || x.as_str().unwrap_or("?").to_string();
    match k.as_str() {
        "stringValue" => format!("s:{}", text()),
        "intValue" => format!("i:{}", text()),
        "boolValue" => format!("b:{x}"),
        "doubleValue" => format!("d:{}", text()),
        "bytesValue" => format!("y:{}", text()),
        "kvlistValue" => {
            format!("M:{}", each(x, "values").iter().map(|p| format!("{}={}", text_of(p, "key"), wire(&p["value"]))).collect::<Vec<_>>().join(";"))
        }
        "arrayValue" => format!("L:{}", each(x, "values").iter().map(wire).collect::<Vec<_>>().join(";")),
        o => o.to_string(),
    }
}
/// An array of one kind of value is written S: I: B: D:
fn wire_attr(v: &Value, any: bool) -> String {
    if let (Some(a), false) = (v.get("arrayValue"), any) {
        let vs: Vec<String> = each(a, "values").iter().map(wire).collect();
        for k in ["s:", "i:", "b:", "d:"] {
            if !vs.is_empty() && vs.iter().all(|x| x.starts_with(k)) {
                return format!("{}{}", k.to_uppercase(), vs.iter().map(|x| &x[2..]).collect::<Vec<_>>().join(","));
            }
        }
    }
    wire(v)
}
fn each(v: &Value, k: &str) -> Vec<Value> {
    v.get(k).and_then(|x| x.as_array()).cloned().unwrap_or_default()
}
fn text_of(v: &Value, k: &str) -> String {
    v.get(k).and_then(|x| x.as_str()).unwrap_or("").to_string()
}
fn num(v: &Value, k: &str) -> Value {
    match v.get(k).and_then(|x| x.as_str()).unwrap_or("0").parse::<i64>() {
        Ok(i) => json!(i),
        Err(e) => json!(e.to_string()),
    }
}
fn attrs(v: &Value, any: bool) -> Vec<Value> {
    each(v, "attributes").iter().map(|a| json!({"k": text_of(a, "key"), "v": wire_attr(a.get("value").unwrap_or(&Value::Null), any)})).collect()
}
fn sorted(mut v: Vec<Value>) -> Vec<Value> {
    v.sort_by_key(|x| x.to_string());
    v
}
fn scope_obs(v: &Value, schema: String) -> (Value, String) {
    (json!({"name": text_of(v, "name"), "version": text_of(v, "version"), "attrs": attrs(v, false)}), schema)
}
fn span_obs(x: &Value) -> Value {
    let many = |k: &str, f: &dyn Fn(&Value) -> Value| each(x, k).iter().map(f).collect::<Vec<_>>();
    let status = x.get("status").cloned().unwrap_or(json!({}));
    json!({
        "tid": text_of(x, "traceId"), "sid": text_of(x, "spanId"), "parent": text_of(x, "parentSpanId"), "flags": num(x, "flags"),
        "state": text_of(x, "traceState"), "name": text_of(x, "name"),
        "kind": match text_of(x, "kind").as_str() { "1" => "internal", "2" => "server", "3" => "client", "4" => "producer", "5" => "consumer", _ => "?" },
        "start": num(x, "startTimeUnixNano"), "end": num(x, "endTimeUnixNano"), "attrs": attrs(x, false), "dropped": num(x, "droppedAttributesCount"),
        "events": many("events", &|e| json!({"name": text_of(e, "name"), "time": num(e, "timeUnixNano"), "attrs": attrs(e, false),
            "dropped": num(e, "droppedAttributesCount")})),
        "edropped": num(x, "droppedEventsCount"),
        "links": many("links", &|l| json!({"tid": text_of(l, "traceId"), "sid": text_of(l, "spanId"), "flags": num(l, "flags"),
            "state": text_of(l, "traceState"), "attrs": attrs(l, false), "dropped": num(l, "droppedAttributesCount")})),
        "ldropped": num(x, "droppedLinksCount"),
        "status": match text_of(&status, "code").as_str() { "" => "unset", "1" => "ok", "2" => "error", _ => "?" },
        "message": text_of(&status, "message"),
    })
}
fn log_obs(x: &Value) -> Value {
    json!({
        "time": num(x, "timeUnixNano"), "obs": num(x, "observedTimeUnixNano"), "sev": num(x, "severityNumber"), "text": text_of(x, "severityText"),
        "body": x.get("body").map(wire).unwrap_or("-".into()), "attrs": attrs(x, true), "event": text_of(x, "eventName"),
        "tid": text_of(x, "traceId"), "sid": text_of(x, "spanId"), "flags": num(x, "flags"),
    })
}
fn metric_obs(x: &Value, when: &HashMap<String, (String, String)>) -> Value {
    let kinds: Vec<&str> = ["gauge", "sum", "histogram", "exponentialHistogram"].into_iter().filter(|k| x.get(*k).is_some()).collect();
    let [k] = kinds[..] else { return json!(format!("kinds of data: {kinds:?}")) };
    let (d, name) = (&x[k], text_of(x, "name"));
    let dbl = |p: &Value, k: &str| json!(p.get(k).map(|v| format!("d:{}", v.as_str().unwrap_or("?"))).unwrap_or("none".into()));
    let buckets = |p: &Value, k: &str| {
        let b = p.get(k).cloned().unwrap_or(json!({}));
        let mut c: Vec<i64> = each(&b, "bucketCounts").iter().map(|v| v.as_str().unwrap().parse().unwrap()).collect();
        let mut lo = num(&b, "offset").as_i64().unwrap_or(-999);
        while c.first() == Some(&0) {
            c.remove(0);
            lo += 1;
        }
        while c.last() == Some(&0) {
            c.pop();
        }
        json!({"offset": if c.is_empty() { 0 } else { lo }, "counts": c})
    };
    let mut pts = vec![];
    for p in each(d, "dataPoints") {
        let at = (text_of(&p, "startTimeUnixNano"), text_of(&p, "timeUnixNano"));
        let at = (if at.0.is_empty() { "0".to_string() } else { at.0 }, at.1);
        if when.get(&name) != Some(&at) {
            return json!(format!("{name} is said to span {at:?}, not {:?}", when.get(&name)));
        }
        pts.push(match k {
            "gauge" | "sum" => json!({"attrs": attrs(&p, false), "value": match (p.get("asInt"), p.get("asDouble")) {
                (Some(i), None) => format!("i:{}", i.as_str().unwrap()),
                (None, Some(d)) => format!("d:{}", d.as_str().unwrap()),
                o => format!("{o:?}"),
            }}),
            "histogram" => json!({"attrs": attrs(&p, false), "count": num(&p, "count"), "sum": dbl(&p, "sum"), "min": dbl(&p, "min"), "max": dbl(&p, "max"),
                "bounds": each(&p, "explicitBounds").iter().map(|v| format!("d:{}", v.as_str().unwrap())).collect::<Vec<_>>(),
                "counts": each(&p, "bucketCounts").iter().map(|v| v.as_str().unwrap().parse::<i64>().unwrap()).collect::<Vec<_>>()}),
            _ => json!({"attrs": attrs(&p, false), "count": num(&p, "count"), "sum": dbl(&p, "sum"), "min": dbl(&p, "min"), "max": dbl(&p, "max"),
                "scale": num(&p, "scale"), "zero": num(&p, "zeroCount"), "pos": buckets(&p, "positive"), "neg": buckets(&p, "negative")}),
        });
    }
    json!({
        "name": name, "desc": text_of(x, "description"), "unit": text_of(x, "unit"),
        "data": if k == "exponentialHistogram" { "exponential" } else { k },
        "temp": match (k, text_of(d, "aggregationTemporality").as_str()) { ("gauge", "") => "", (_, "1") => "delta", (_, "2") => "cumulative", _ => "?" },
        "mono": d.get("isMonotonic").and_then(|b| b.as_bool()).unwrap_or(false), "pts": sorted(pts),
    })
}
const NAMES: [(&str, &str, &str, &str, &str); 3] = [
    ("traces", "TraceRequest", "resourceSpans", "scopeSpans", "spans"),
    ("logs", "LogsRequest", "resourceLogs", "scopeLogs", "logRecords"),
    ("metrics", "MetricsRequest", "resourceMetrics", "scopeMetrics", "metrics"),
];
fn decode(sig: &str, r: &Request<Bytes>) -> Result<Value, String> {
    let (_, msg, ..) = NAMES.into_iter().find(|x| x.0 == sig).unwrap();
    match r.headers().get("content-type").and_then(|v| v.to_str().ok()) {
        Some("application/json") => json_tree(msg, &serde_json::from_slice(r.body()).map_err(|e| e.to_string())?),
        Some("application/x-protobuf") => protobuf(msg, r.body()),
        o => Err(format!("content type {o:?}")),
    }
}
fn request_obs(sig: &str, r: &Request<Bytes>, when: &HashMap<String, (String, String)>) -> Value {
    let tree = match decode(sig, r) {
        Ok(t) => t,
        Err(e) => return json!({"undecodable": e, "body": hex(r.body())}),
    };
    let (_, _, over, under, leaf) = NAMES.into_iter().find(|x| x.0 == sig).unwrap();
    let rs = each(&tree, over);
    let mut heads: Vec<Value> = rs
        .iter()
        .map(|r| json!({"attrs": sorted(r.get("resource").map(|x| attrs(x, false)).unwrap_or_default()), "schema": text_of(r, "schemaUrl")}))
        .collect();
    heads.dedup();
    if heads.len() > 1 {
        return json!({"resources": heads});
    }
    let mut items = vec![];
    for g in rs.iter().flat_map(|r| each(r, under)) {
        let (sc, schema) = scope_obs(g.get("scope").unwrap_or(&Value::Null), text_of(&g, "schemaUrl"));
        for x in each(&g, leaf) {
            let rec = match sig {
                "traces" => span_obs(&x),
                "logs" => log_obs(&x),
                _ => metric_obs(&x, when),
            };
            items.push(json!({"scope": sc, "schema": schema, "rec": rec}));
        }
    }
    let head = heads.pop();
    json!({"resource": head.as_ref().map(|h| h["attrs"].clone()).unwrap_or(Value::Null),
           "schema": head.map(|h| h["schema"].clone()).unwrap_or(Value::Null), "items": sorted(items)})
}
fn map_step(st: &Value) -> Value {
    let sig = if s(st, "sig") == "spans" { "traces" } else { s(st, "sig") };
    let client = Client::default();
    let res = resource(&st["resource"]);
    let exp = {
        let _g = lock_env();
        clear_env();
        set_resource(build(sig, &plain(s(st, "p")), &client).expect("build"), &res)
    };
    let items = arr(st, "items").clone();
    let mut when = HashMap::new();
    client.answer("200");
    let r = match &exp {
        Exp::Metrics(e) => {
            let mut rm = metrics(res.clone(), &items);
            when = times(&rm);
            now(e.export(&mut rm))
        }
        e => now(export(e, &res, &items)),
    };
    if let Err(e) = r {
        return json!(format!("export: {e:?}"));
    }
    let wire = client.0.lock().unwrap();
    if wire.sent.len() != 1 {
        return json!(format!("{} requests", wire.sent.len()));
    }
    let got = request_obs(sig, &wire.sent[0], &when);
    // the order of attributes of the resource, of points, and of items is free
    let mut want = st["exp"].clone();
    if items.is_empty() && got["resource"].is_null() {
        return want;
    }
    want["resource"] = json!(sorted(arr(&want, "resource").clone()));
    for i in want["items"].as_array_mut().unwrap() {
        if let Some(p) = i["rec"].get("pts") {
            i["rec"]["pts"] = json!(sorted(p.as_array().unwrap().clone()));
        }
    }
    want["items"] = json!(sorted(arr(&want, "items").clone()));
    if got == want {
        st["exp"].clone()
    } else {
        json!({"got": got, "want": want})
    }
}

// ---- O01 ----
const VARS: [(&str, &str); 3] = [("se", "ENDPOINT"), ("sh", "HEADERS"), ("st", "TIMEOUT")];
fn clear_env() {
    for (_, v) in VARS {
        for sig in ["", "TRACES_", "LOGS_", "METRICS_"] {
            set_env(&format!("OTEL_EXPORTER_OTLP_{sig}{v}"), None);
        }
    }
}
fn cfg_step(st: &Value) -> Value {
    let sig = s(st, "sig");
    let _g = lock_env();
    clear_env();
    for (k, v) in VARS {
        for (key, var) in [(k.to_string(), format!("OTEL_EXPORTER_OTLP_{}_{v}", sig.to_uppercase())), (format!("g{}", &k[1..]), format!("OTEL_EXPORTER_OTLP_{v}"))] {
            let x = s(&st["env"], &key);
            set_env(&var, (x != "<unset>").then_some(x));
        }
    }
    let c = &st["code"];
    let code = Code {
        endpoint: (s(c, "e") != "<unset>").then(|| s(c, "e").to_string()),
        headers: arr(c, "h").iter().map(|h| (s(h, "n").to_string(), s(h, "v").replace("%0A", "\n"))).collect(),
        timeout: n(c, "t") as u64,
        protocol: protocol(s(c, "p")),
    };
    let client = Client::default();
    let built = build(sig, &code, &client);
    clear_env();
    let Some(e) = built else { return json!({"built": false}) };
    let exp = &st["exp"];
    if exp["built"] == json!(false) {
        return json!({"built": true});
    }
    let shown = match &e {
        Exp::Spans(e) => format!("{e:?}"),
        Exp::Logs(e) => format!("{e:?}"),
        Exp::Metrics(_) => String::new(),
    };
    client.answer("200");
    if let Err(x) = now(export(&e, &Resource::builder_empty().build(), some_item(sig).as_array().unwrap())) {
        return json!(format!("export: {x:?}"));
    }
    let wire = client.0.lock().unwrap();
    let r = &wire.sent[0];
    if r.method() != "POST" || wire.sent.len() != 1 {
        return json!(format!("{} {:?}", wire.sent.len(), r));
    }
    if let Err(e) = decode(sig, r) {
        return json!({"undecodable": e});
    }
    let mut got = Map::new();
    got.insert("built".into(), json!(true));
    got.insert("url".into(), json!(r.uri().to_string()));
    got.insert("ctype".into(), json!(r.headers()["content-type"].to_str().unwrap()));
    // the timeout belongs to the HTTP client, which here is ours: what the exporter holds is
    // only seen in its debugging output
    let timeout = shown.split("timeout: ").nth(1).map(|x| x.split([',', ' ', '}']).next().unwrap().to_string());
    let want = Duration::from_millis(n(exp, "timeout") as u64);
    got.insert("timeout".into(), match timeout {
        Some(t) if t != format!("{want:?}") => json!(t),
        _ => exp["timeout"].clone(),
    });
    let mut left: Vec<&str> = r.headers().keys().map(|k| k.as_str()).filter(|k| *k != "content-type").collect();
    let mut ok = true;
    for h in arr(exp, "headers") {
        left.retain(|k| *k != s(h, "n"));
        let vs: Vec<_> = r.headers().get_all(s(h, "n")).iter().collect();
        ok &= vs.len() == 1
            && arr(h, "vs").iter().any(|v| match v.as_str().unwrap() {
                "DEFAULT" => vs[0].to_str().unwrap_or("").starts_with("OTel"),
                x => vs[0].to_str().ok() == Some(x),
            });
    }
    got.insert("headers".into(), if ok && left.is_empty() { exp["headers"].clone() } else { json!(format!("{:?}", r.headers())) });
    Value::Object(got)
}

// ---- O03 ----
#[derive(Default)]
pub struct OtlpSut {
    sig: String,
    exp: Option<Exp>,
    client: Client,
    open: Option<Pin<Box<dyn Future<Output = OTelSdkResult> + Send>>>,
}
fn res(r: OTelSdkResult) -> &'static str {
    match r {
        Ok(()) => "ok",
        Err(OTelSdkError::AlreadyShutdown) => "shutdown",
        Err(_) => "err",
    }
}
impl Sut for OtlpSut {
    fn step(&mut self, st: &Value) -> Value {
        let (none, items) = (Resource::builder_empty().build(), some_item(&self.sig));
        let items = items.as_array().unwrap();
        let r = match s(st, "op") {
            "otlp_map" => return map_step(st),
            "otlp_cfg" => return cfg_step(st),
            "otlp_new" => {
                let _g = lock_env();
                clear_env();
                self.sig = s(st, "sig").to_string();
                self.exp = build(&self.sig, &plain(s(st, "p")), &self.client);
                return json!(null);
            }
            "otlp_export" => {
                self.client.answer(s(st, "a"));
                let before = self.client.sent();
                let r = res(now(export(self.exp.as_ref().unwrap(), &none, items)));
                self.client.0.lock().unwrap().answer = None;
                if self.client.sent() > before && decode(&self.sig, &self.client.0.lock().unwrap().sent[before]).is_err() {
                    return json!("undecodable");
                }
                r
            }
            "otlp_begin" => {
                let mut f = export(self.exp.as_ref().unwrap(), &none, items);
                match poll(&mut f) {
                    Poll::Ready(r) => res(r),
                    Poll::Pending => {
                        self.open = Some(f);
                        "pending"
                    }
                }
            }
            "otlp_finish" => {
                self.client.answer(s(st, "a"));
                let mut f = self.open.take().unwrap();
                match poll(&mut f) {
                    Poll::Ready(r) => res(r),
                    Poll::Pending => "pending",
                }
            }
            "otlp_shutdown" => {
                let r = match self.exp.as_mut().unwrap() {
                    Exp::Spans(e) => e.shutdown(),
                    Exp::Logs(e) => e.shutdown(),
                    Exp::Metrics(e) => e.shutdown(),
                };
                if st["exp"]["res"] == "again" {
                    "again"
                } else {
                    res(r)
                }
            }
            o => panic!("harness: op {o}"),
        };
        json!({"res": r, "sent": self.client.sent()})
    }
}
