//! P07: the carriers of propagation: HTTP headers and maps of strings.
use crate::common::*;
use opentelemetry::propagation::{Extractor, Injector, TextMapPropagator};
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{baggage::BaggageExt, Context, KeyValue};
use opentelemetry_http::{HeaderExtractor, HeaderInjector, Request};
use opentelemetry_sdk::propagation::{BaggagePropagator, TraceContextPropagator};
use opentelemetry_jaeger_propagator::Propagator as Jaeger;
use opentelemetry_zipkin::{B3Encoding, Propagator as B3};
use serde_json::{json, Value};
use std::collections::{HashMap, HashSet};
use std::str::FromStr;

pub struct CarrierSut {
    http: Option<Request<()>>,
    map: HashMap<String, String>,
}
/// Characters the specifications do not write: ~ is \u{e9}, ^ a line feed, ` a tab.
fn text(x: &str) -> String {
    x.replace('~', "\u{e9}").replace('^', "\n").replace('`', "\t")
}
impl CarrierSut {
    pub fn new() -> Self {
        CarrierSut { http: None, map: HashMap::new() }
    }
    fn seen(&self, names: &Value) -> Value {
        let look = |e: &dyn Extractor| {
            let mut keys: Vec<String> = e.keys().into_iter().map(|k| k.to_string()).collect();
            keys.sort();
            let got: Vec<Value> = names.as_array().unwrap().iter().map(|k| match e.get(&text(k.as_str().unwrap())) {
                None => json!("<none>"),
                Some(v) => json!(v.replace('\u{e9}', "~").replace('\n', "^").replace('\t', "`")),
            }).collect();
            json!({"keys": keys.iter().map(|k| k.replace('\u{e9}', "~").replace('\n', "^")).collect::<Vec<_>>(), "got": got})
        };
        match &self.http {
            Some(r) => look(&HeaderExtractor(r.headers())),
            None => look(&self.map),
        }
    }
    fn inject(&mut self, f: impl FnOnce(&mut dyn Injector)) {
        match &mut self.http {
            Some(r) => f(&mut HeaderInjector(r.headers_mut())),
            None => f(&mut self.map),
        }
    }
}
fn propagator(x: &str) -> Box<dyn TextMapPropagator + Send + Sync> {
    match x {
        "tc" => Box::new(TraceContextPropagator::new()),
        "bag" => Box::new(BaggagePropagator::new()),
        "b3" => Box::new(B3::with_encoding(B3Encoding::SingleHeader)),
        "b3m" => Box::new(B3::with_encoding(B3Encoding::MultipleHeader)),
        "jaeger" => Box::new(Jaeger::new()),
        x => panic!("harness: propagator {x}"),
    }
}
impl Sut for CarrierSut {
    fn step(&mut self, st: &Value) -> Value {
        match s(st, "op") {
            "ca_new" => self.http = (s(st, "kind") == "http").then(|| Request::new(())),
            "ca_set" => {
                let (k, v) = (text(s(st, "key")), text(s(st, "value")));
                self.inject(|i| i.set(&k, v));
            }
            // a header as it came over the wire: one more value for its name
            "ca_wire" => {
                let r = self.http.take().expect("harness: no headers");
                let mut b = Request::builder();
                for (k, v) in r.headers() {
                    b = b.header(k, v);
                }
                self.http = Some(b.header(s(st, "key"), text(s(st, "value")).as_bytes()).body(()).expect("harness: header"));
            }
            // what every propagator writes comes back
            "ca_carry" => {
                let p = propagator(s(st, "p"));
                let flags = if n(st, "flags") == 1 { TraceFlags::SAMPLED } else { TraceFlags::default() };
                let ts = TraceState::from_str(s(st, "state")).expect("harness: state");
                let sc = SpanContext::new(TraceId::from(0xabcdef0123456789u128), SpanId::from(n(st, "sid") as u64), flags, false, ts);
                let items: Vec<KeyValue> = arr(st, "bag").iter().map(|x| KeyValue::new(text(s(x, "k")), text(s(x, "v")))).collect();
                let cx = Context::new().with_remote_span_context(sc.clone()).with_baggage(items);
                self.inject(|i| p.inject_context(&cx, i));
                let out = match &self.http {
                    Some(r) => p.extract(&HeaderExtractor(r.headers())),
                    None => p.extract(&self.map),
                };
                let span = out.span();
                let c = span.span_context();
                let same = c.trace_id() == sc.trace_id() && c.span_id() == sc.span_id() && c.is_sampled() == sc.is_sampled() && c.is_remote();
                let fields: HashSet<String> = p.fields().map(|x| x.to_string()).collect();
                let named = fields.iter().all(|f| f.starts_with("x-b3") || f == "b3" || f == "uber-trace-id" || ["traceparent", "tracestate", "baggage"].contains(&f.as_str()));
                let mut bag: Vec<Value> = out.baggage().iter().map(|(k, (v, _))| json!([k.as_str(), v.as_str().replace('\u{e9}', "~").replace('\n', "^").replace('\t', "`")])).collect();
                bag.sort_by_key(|x| x.to_string());
                return json!({"span": same, "state": c.trace_state().header(), "bag": bag, "named": named});
            }
            x => panic!("harness: op {x}"),
        }
        self.seen(&st["names"])
    }
}
