//! T08: what is global in a process. Behaviours run one at a time; each starts from no-op providers.
use crate::common::*;
use crate::m_otlp::scope;
use opentelemetry::baggage::BaggageExt;
use opentelemetry::global::{self, BoxedTracer, GlobalTracerProvider};
use opentelemetry::metrics::{Counter, Meter, MeterProvider};
use opentelemetry::propagation::TextMapCompositePropagator;
use opentelemetry::trace::noop::{NoopTextMapPropagator, NoopTracerProvider};
use opentelemetry::trace::{Span as _, SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState, Tracer, TracerProvider};
use opentelemetry::{Context, InstrumentationScope, KeyValue};
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::{reader::MetricReader, ManualReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::propagation::{BaggagePropagator, TraceContextPropagator};
use opentelemetry_sdk::trace::{InMemorySpanExporter, SdkTracerProvider};
use opentelemetry_sdk::Resource;
use opentelemetry_zipkin::Propagator as B3;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

type AnyMeters = Arc<dyn MeterProvider + Send + Sync>;
struct Held(AnyMeters);
impl MeterProvider for Held {
    fn meter_with_scope(&self, s: InstrumentationScope) -> Meter {
        self.0.meter_with_scope(s)
    }
}
/// The meter provider before anyone set one.
static FIRST: OnceLock<AnyMeters> = OnceLock::new();

struct Side {
    spans: InMemorySpanExporter,
    tracers: SdkTracerProvider,
    reader: crate::m_metrics::Rdr,
    meters: SdkMeterProvider,
}
fn side() -> Side {
    let spans = InMemorySpanExporter::default();
    let reader = crate::m_metrics::Rdr(Arc::new(ManualReader::builder().with_temporality(Temporality::Delta).build()));
    Side {
        tracers: SdkTracerProvider::builder().with_sampler(opentelemetry_sdk::trace::Sampler::AlwaysOn).with_simple_exporter(spans.clone()).build(),
        meters: SdkMeterProvider::builder().with_reader(reader.clone()).build(),
        spans,
        reader,
    }
}
pub struct GlobalSut {
    sides: Vec<Side>,
    tracers: Vec<BoxedTracer>,
    saved: Vec<GlobalTracerProvider>,
    meters: Vec<(Meter, Counter<u64>)>,
    held: Vec<AnyMeters>,
}
fn scope_obs(x: &InstrumentationScope) -> Value {
    let attrs: Vec<Value> = x.attributes().map(|k| json!({"k": k.key.as_str(), "v": format!("i:{}", k.value)})).collect();
    json!({"name": x.name(), "version": x.version().unwrap_or(""), "schema": x.schema_url().unwrap_or(""), "attrs": attrs})
}
fn known() -> Context {
    let c = SpanContext::new(TraceId::from(5u128), SpanId::from(6u64), TraceFlags::SAMPLED, false, TraceState::default());
    Context::new().with_remote_span_context(c).with_baggage(vec![KeyValue::new("k", "v")])
}
impl GlobalSut {
    pub fn new() -> Self {
        let first = FIRST.get_or_init(|| {
            let recording = global::tracer("first").start("s").is_recording() || global::tracer_provider().tracer("x").start("s").span_context().is_valid();
            let mut h = HashMap::new();
            global::get_text_map_propagator(|p| p.inject_context(&known(), &mut h));
            assert!(!recording && h.is_empty(), "the first global providers do something");
            global::meter_provider()
        });
        global::set_tracer_provider(NoopTracerProvider::new());
        global::set_meter_provider(Held(first.clone()));
        global::set_text_map_propagator(NoopTextMapPropagator::new());
        GlobalSut { sides: vec![side(), side()], tracers: vec![], saved: vec![], meters: vec![], held: vec![] }
    }
    /// What the providers were given since the last time: in the order of the ends of the spans.
    fn spans(&mut self, names: &mut HashMap<SpanId, String>) -> Vec<Value> {
        let mut out = vec![];
        for (k, x) in self.sides.iter().enumerate() {
            for d in x.spans.get_finished_spans().unwrap() {
                names.insert(d.span_context.span_id(), d.name.to_string());
                out.push((k + 1, d));
            }
            x.spans.reset();
        }
        out.sort_by_key(|(_, d)| std::cmp::Reverse(d.name.to_string()));
        out.iter()
            .map(|(k, d)| {
                let parent = if d.parent_span_id == SpanId::INVALID { "".into() } else { names.get(&d.parent_span_id).cloned().unwrap_or("?".into()) };
                json!({"by": k, "name": d.name, "sc": scope_obs(&d.instrumentation_scope), "parent": parent, "attrs": d.attributes.len()})
            })
            .collect()
    }
    fn counts(&self) -> Vec<Value> {
        let mut out = vec![];
        for (k, x) in self.sides.iter().enumerate() {
            let mut rm = ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] };
            if x.reader.collect(&mut rm).is_err() {
                continue;
            }
            for sm in &rm.scope_metrics {
                for m in &sm.metrics {
                    if let AggregatedMetrics::U64(MetricData::Sum(sum)) = &m.data {
                        let v: u64 = sum.data_points.iter().map(|p| p.value).sum();
                        if v > 0 {
                            out.push(json!({"by": k + 1, "sc": scope_obs(&sm.scope), "name": m.name, "value": v}));
                        }
                    }
                }
            }
        }
        out
    }
    fn nest(&self, stack: &[usize], depth: usize) {
        let Some(h) = stack.first() else { return };
        self.tracers[h - 1].in_span(format!("s{depth}"), |cx| {
            cx.span().set_attribute(KeyValue::new("a", 1));
            self.nest(&stack[1..], depth + 1)
        })
    }
    fn act(&mut self, st: &Value) -> Value {
        let which = |k: &str| n(st, k) as usize;
        match s(st, "op") {
            "g_set_tp" => {
                let prev = match which("to") {
                    0 => global::set_tracer_provider(NoopTracerProvider::new()),
                    k => global::set_tracer_provider(self.sides[k - 1].tracers.clone()),
                };
                prev.tracer("probe").start("s1").end();
                self.saved.push(prev);
                json!({"prev": self.spans(&mut HashMap::new()).iter().map(|x| x["by"].clone()).collect::<Vec<_>>()})
            }
            "g_restore_tp" => {
                let prev = global::set_tracer_provider(self.saved[which("saved") - 1].clone());
                prev.tracer("probe").start("s1").end();
                self.saved.push(prev);
                json!({"prev": self.spans(&mut HashMap::new()).iter().map(|x| x["by"].clone()).collect::<Vec<_>>()})
            }
            "g_tracer" => {
                let sc = scope(&st["sc"]);
                let t = match s(st, "how") {
                    "name" => global::tracer(s(&st["sc"], "name").to_string()),
                    "scope" => global::tracer_with_scope(sc),
                    "provider" => global::tracer_provider().tracer_with_scope(sc),
                    "saved" => self.saved[which("saved") - 1].tracer_with_scope(sc),
                    x => panic!("harness: how {x}"),
                };
                self.tracers.push(t);
                json!({"ok": true})
            }
            "g_nest" => {
                let stack: Vec<usize> = arr(st, "stack").iter().map(|x| x.as_u64().unwrap() as usize).collect();
                self.nest(&stack, 1);
                json!({"spans": self.spans(&mut HashMap::new())})
            }
            "g_set_mp" => {
                match which("to") {
                    0 => global::set_meter_provider(Held(FIRST.get().unwrap().clone())),
                    k => global::set_meter_provider(self.sides[k - 1].meters.clone()),
                }
                json!({"ok": true})
            }
            "g_hold_mp" => {
                self.held.push(global::meter_provider());
                json!({"ok": true})
            }
            "g_restore_mp" => {
                global::set_meter_provider(Held(self.held[which("held") - 1].clone()));
                json!({"ok": true})
            }
            "g_meter" => {
                let sc = scope(&st["sc"]);
                let m = match s(st, "how") {
                    "name" => global::meter(match s(&st["sc"], "name") { "a" => "a", "b" => "b", "" => "", x => panic!("harness: name {x}") }),
                    "scope" => global::meter_with_scope(sc),
                    "provider" => global::meter_provider().meter_with_scope(sc),
                    "held" => self.held[which("held") - 1].meter_with_scope(sc),
                    x => panic!("harness: how {x}"),
                };
                let c = m.u64_counter("early").build();
                self.meters.push((m, c));
                json!({"ok": true})
            }
            "g_count" => {
                let (m, c) = &self.meters[which("h") - 1];
                if s(st, "with") == "early" {
                    c.add(which("by") as u64, &[]);
                } else {
                    m.u64_counter("late").build().add(which("by") as u64, &[]);
                }
                json!({"counts": self.counts()})
            }
            "g_down" => {
                let x = &self.sides[which("k") - 1];
                let _ = if s(st, "of") == "tracers" { x.tracers.shutdown().is_ok() } else { x.meters.shutdown().is_ok() };
                json!({"ok": true})
            }
            "g_set_prop" => {
                let both = || TextMapCompositePropagator::new(vec![Box::new(TraceContextPropagator::new()), Box::new(BaggagePropagator::new())]);
                match s(st, "to") {
                    "tc" => global::set_text_map_propagator(TraceContextPropagator::new()),
                    "bag" => global::set_text_map_propagator(BaggagePropagator::new()),
                    "b3" => global::set_text_map_propagator(B3::new()),
                    "both" => global::set_text_map_propagator(both()),
                    "noop" => global::set_text_map_propagator(NoopTextMapPropagator::new()),
                    x => panic!("harness: propagator {x}"),
                }
                json!({"ok": true})
            }
            "g_carry" => {
                let mut h: HashMap<String, String> = HashMap::new();
                let cx = known();
                let fields = global::get_text_map_propagator(|p| {
                    p.inject_context(&cx, &mut h);
                    let mut f: Vec<String> = p.fields().map(String::from).collect();
                    f.sort();
                    f
                });
                let mut set: Vec<String> = h.keys().cloned().collect();
                set.sort();
                let full: HashMap<String, String> = [("traceparent", "00-00000000000000000000000000000005-0000000000000006-01"), ("baggage", "k=v"),
                    ("b3", "00000000000000000000000000000005-0000000000000007-1")].iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
                let out = global::get_text_map_propagator(|p| p.extract_with_context(&Context::new(), &full));
                let id = u64::from_be_bytes(out.span().span_context().span_id().to_bytes());
                json!({"set": set, "fields": fields, "span": id, "baggage": out.baggage().len()})
            }
            x => panic!("harness: op {x}"),
        }
    }
}
impl Sut for GlobalSut {
    fn step(&mut self, st: &Value) -> Value {
        // on another thread than the step before, or not
        if st["far"] == json!(true) {
            std::thread::scope(|t| t.spawn(|| self.act(st)).join()).unwrap_or_else(|e| std::panic::resume_unwind(e))
        } else {
            self.act(st)
        }
    }
}
