//! T04, T05: span identity, parentage, sampling; recorders for ratio sampling and id sources.
use crate::common::*;
use opentelemetry::trace::{
    Link, SamplingDecision, SamplingResult, Span as _, SpanBuilder, SpanContext, SpanId, SpanKind, TraceContextExt,
    TraceFlags, TraceId, TraceState, Tracer, TracerProvider,
};
use opentelemetry::{Context, KeyValue};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::trace::{
    Sampler, SdkTracer, SdkTracerProvider, ShouldSample, SimpleSpanProcessor, Span, SpanData, SpanExporter, SpanProcessor,
};
use serde_json::{json, Value};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

#[derive(Clone, Debug)]
struct TsSampler;
impl ShouldSample for TsSampler {
    fn should_sample(&self, _: Option<&Context>, _: TraceId, _: &str, _: &SpanKind, _: &[KeyValue], _: &[Link]) -> SamplingResult {
        SamplingResult {
            decision: SamplingDecision::RecordAndSample,
            attributes: vec![],
            trace_state: TraceState::from_str("new=1").unwrap(),
        }
    }
}
#[derive(Clone, Debug)]
struct RecOnly;
impl ShouldSample for RecOnly {
    fn should_sample(&self, cx: Option<&Context>, _: TraceId, _: &str, _: &SpanKind, _: &[KeyValue], _: &[Link]) -> SamplingResult {
        SamplingResult {
            decision: SamplingDecision::RecordOnly,
            attributes: vec![],
            trace_state: cx.map(|c| c.span().span_context().trace_state().clone()).unwrap_or_default(),
        }
    }
}
fn sampler(s: &str) -> Box<dyn ShouldSample> {
    if let Some(r) = s.strip_prefix("pb_") {
        return Box::new(Sampler::ParentBased(sampler(r)));
    }
    match s {
        "on" => Box::new(Sampler::AlwaysOn),
        "off" => Box::new(Sampler::AlwaysOff),
        "ratio1" => Box::new(Sampler::TraceIdRatioBased(1.0)),
        "ratio2" => Box::new(Sampler::TraceIdRatioBased(2.0)),
        "ratio0" => Box::new(Sampler::TraceIdRatioBased(0.0)),
        "rationeg" => Box::new(Sampler::TraceIdRatioBased(-0.5)),
        "ts" => Box::new(TsSampler),
        "reconly" => Box::new(RecOnly),
        o => panic!("harness: sampler {o}"),
    }
}
// `with_sampler` wants a concrete type
#[derive(Clone, Debug)]
struct Boxed(Box<dyn ShouldSample>);
impl ShouldSample for Boxed {
    fn should_sample(&self, a: Option<&Context>, b: TraceId, c: &str, d: &SpanKind, e: &[KeyValue], f: &[Link]) -> SamplingResult {
        self.0.should_sample(a, b, c, d, e, f)
    }
}
type Rep = Arc<Mutex<Vec<SpanData>>>;
#[derive(Debug)]
struct All(Rep);
impl SpanProcessor for All {
    fn on_start(&self, _: &mut Span, _: &Context) {}
    fn on_end(&self, span: SpanData) {
        self.0.lock().unwrap().push(span);
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown(&self) -> OTelSdkResult {
        Ok(())
    }
}
#[derive(Debug)]
struct Exp(Rep);
impl SpanExporter for Exp {
    async fn export(&self, batch: Vec<SpanData>) -> OTelSdkResult {
        self.0.lock().unwrap().extend(batch);
        Ok(())
    }
}

const RS_T: u128 = 0x1111_0000_0000_0000_0000_0000_0000_0001;
const RU_T: u128 = 0x2222_0000_0000_0000_0000_0000_0000_0002;
const RX_T: u128 = 0xffff_0000_0000_0000_ffff_0000_0000_0003;
const RY_T: u128 = 0xffff_0000_0000_0000_ffff_0000_0000_0004;
fn remote(r: &str) -> SpanContext {
    let (t, s, f, ts) = match r {
        "RS" => (RS_T, 0xA1u64, TraceFlags::SAMPLED, "rs=1"),
        "RU" => (RU_T, 0xA2, TraceFlags::default(), "ru=1"),
        "RX" => (RX_T, 0xA3, TraceFlags::new(0xff), "rx=1,b=2"),
        "RY" => (RY_T, 0xA4, TraceFlags::new(0xfe), ""),
        o => panic!("harness: remote {o}"),
    };
    SpanContext::new(TraceId::from(t), SpanId::from(s), f, r != "RY", if ts.is_empty() { TraceState::NONE } else { TraceState::from_str(ts).unwrap() })
}

pub struct TreeSut {
    provider: Option<SdkTracerProvider>,
    tracer: Option<SdkTracer>,
    spans: Vec<(Context, SpanContext)>,
    told: Rep,
    exported: Rep,
    count: usize,
}
impl TreeSut {
    pub fn new() -> Self {
        TreeSut { provider: None, tracer: None, spans: vec![], told: Default::default(), exported: Default::default(), count: 0 }
    }
    fn trace_name(&self, t: TraceId) -> String {
        if t == TraceId::from(RS_T) {
            return "RS".into();
        }
        if t == TraceId::from(RU_T) {
            return "RU".into();
        }
        if t == TraceId::from(RX_T) {
            return "RX".into();
        }
        if t == TraceId::from(RY_T) {
            return "RY".into();
        }
        self.spans
            .iter()
            .position(|(_, c)| c.trace_id() == t)
            .map(|i| (i + 1).to_string())
            .unwrap_or_else(|| "?".into())
    }
    fn span_name(&self, s: SpanId) -> String {
        match u64::from_be_bytes(s.to_bytes()) {
            0 => return "none".into(),
            0xA1 => return "RS".into(),
            0xA2 => return "RU".into(),
            0xA3 => return "RX".into(),
            0xA4 => return "RY".into(),
            _ => {}
        }
        self.spans
            .iter()
            .position(|(_, c)| c.span_id() == s)
            .map(|i| (i + 1).to_string())
            .unwrap_or_else(|| "?".into())
    }
    fn tell(&self, d: &SpanData) -> Value {
        json!({"tr": self.trace_name(d.span_context.trace_id()),
               "id": self.span_name(d.span_context.span_id()).parse::<i64>().unwrap_or(-1),
               "par": self.span_name(d.parent_span_id),
               "sampled": d.span_context.is_sampled(),
               "ts": d.span_context.trace_state().header()})
    }
    fn drain(&self, r: &Rep) -> Vec<Value> {
        let v: Vec<SpanData> = std::mem::take(&mut *r.lock().unwrap());
        v.iter().map(|d| self.tell(d)).collect()
    }
}
fn start(t: &SdkTracer, how: &str, cx: &Context, name: String) -> Span {
    match how {
        "explicit" => t.build_with_context(SpanBuilder::from_name(name), cx),
        "current" => {
            let _g = cx.clone().attach();
            t.start(name)
        }
        "builder" => t.span_builder(name).with_kind(SpanKind::Client).start_with_context(t, cx),
        o => panic!("harness: how {o}"),
    }
}
impl Sut for TreeSut {
    fn step(&mut self, st: &Value) -> Value {
        match s(st, "op") {
            "tree_init" => {
                let p = SdkTracerProvider::builder()
                    .with_sampler(Boxed(sampler(s(st, "smp"))))
                    .with_span_processor(All(self.told.clone()))
                    .with_span_processor(SimpleSpanProcessor::new(Exp(self.exported.clone())))
                    .build();
                self.tracer = Some(p.tracer("tree"));
                self.provider = Some(p);
                json!({"ok": true})
            }
            "tree_start" => {
                let p = s(st, "p");
                let cx = match p {
                    "none" => Context::new(),
                    "RS" | "RU" | "RX" | "RY" => Context::new().with_remote_span_context(remote(p)),
                    "invalid" => Context::new().with_remote_span_context(SpanContext::empty_context()),
                    "suppressed" => {
                        // suppression also holds with an active span
                        let base = self.spans.last().map(|(c, _)| c.clone()).unwrap_or_default();
                        base.with_telemetry_suppressed()
                    }
                    i => self.spans[i.parse::<usize>().expect("harness: parent") - 1].0.clone(),
                };
                self.count += 1;
                let sp = start(self.tracer.as_ref().unwrap(), s(st, "how"), &cx, format!("s{}", self.count));
                let sc = sp.span_context().clone();
                let fresh = sc.is_valid() && self.span_name(sc.span_id()) == "?";
                self.spans.push((Context::new().with_span(sp), sc.clone()));
                let rec = self.spans.last().unwrap().0.span().is_recording();
                json!({"seen": {"valid": sc.is_valid(), "tr": if sc.is_valid() { self.trace_name(sc.trace_id()) } else { "none".into() },
                    "fresh": fresh, "sampled": sc.is_sampled(), "ts": sc.trace_state().header(), "rec": rec, "remote": sc.is_remote()}})
            }
            "tree_end" => {
                self.spans[n(st, "i") as usize - 1].0.span().end();
                json!({"told": self.drain(&self.told), "exported": self.drain(&self.exported)})
            }
            "tree_shutdown" => {
                json!({"ok": self.provider.as_ref().unwrap().shutdown().is_ok()})
            }
            "tree_burst" => {
                let ids = burst(self.tracer.as_ref().unwrap(), n(st, "threads") as usize, n(st, "k") as usize);
                self.told.lock().unwrap().clear();
                self.exported.lock().unwrap().clear();
                let ok = ids.iter().all(|(t, s)| *t != TraceId::INVALID && *s != SpanId::INVALID);
                let a: std::collections::HashSet<_> = ids.iter().map(|x| x.0).collect();
                let b: std::collections::HashSet<_> = ids.iter().map(|x| x.1).collect();
                json!({"distinct": a.len() == ids.len() && b.len() == ids.len(), "valid": ok})
            }
            o => panic!("harness: op {o}"),
        }
    }
}
fn burst(t: &SdkTracer, threads: usize, k: usize) -> Vec<(TraceId, SpanId)> {
    let hs: Vec<_> = (0..threads)
        .map(|_| {
            let t = t.clone();
            std::thread::spawn(move || {
                (0..k)
                    .map(|_| {
                        let s = t.build_with_context(SpanBuilder::from_name("b"), &Context::new());
                        (s.span_context().trace_id(), s.span_context().span_id())
                    })
                    .collect::<Vec<_>>()
            })
        })
        .collect();
    hs.into_iter().flat_map(|h| h.join().unwrap()).collect()
}
/// Ids of root spans of several tracers on several threads, under a sampling and a dropping provider.
pub fn record_ids(args: &Value) -> Vec<Value> {
    let k = n(args, "k") as usize;
    let mut out = vec![];
    for smp in [Sampler::AlwaysOn, Sampler::AlwaysOff] {
        let p = SdkTracerProvider::builder().with_sampler(smp).build();
        for (t, s) in burst(&p.tracer("a"), 4, k) {
            out.push(json!({"t": t.to_string(), "s": s.to_string()}));
        }
    }
    vec![Value::Array(out)]
}

/// The decisions of ratio samplers: for a set of trace ids (chosen by `seed`, the same in every
/// process), each ratio of a fixed increasing list, several sampler instances, with and without
/// parents, names, kinds and attributes, on several threads.
pub fn record_ratio(args: &Value) -> Vec<Value> {
    let ratios: [f64; 16] = [
        f64::NEG_INFINITY, 0.0, 1e-19, 1e-9, 0.001, 0.1, 0.25, 0.3, 0.5, 0.500001, 0.75, 0.9, 0.999, 0.999_999_999_999, 1.0, 7.5,
    ];
    let mut x: u64 = n(args, "seed") as u64 ^ 0x9E37_79B9_7F4A_7C15;
    let mut rnd = move || {
        x ^= x << 13;
        x ^= x >> 7;
        x ^= x << 17;
        x
    };
    let mut ids: Vec<u128> = vec![1, 2, u128::MAX, 1 << 64, 1 << 63, (1 << 64) - 1, u64::MAX as u128 >> 1, 1 << 127, 0xFFFF_FFFF_0000_0000];
    while ids.len() < n(args, "ids") as usize {
        let (a, b) = (rnd(), rnd());
        let id = match rnd() % 6 {
            0 => a as u128,
            1 => (a as u128) << 64,
            // near the boundary of some ratio, in the low, or the high half
            2 => ((a as u128) << 64) | (((ratios[5 + (b % 8) as usize] * 18446744073709551616.0) as u64).wrapping_add(b % 7).wrapping_sub(3)) as u128,
            3 => (((ratios[5 + (b % 8) as usize] * 18446744073709551616.0) as u64) as u128) << 64 | b as u128,
            _ => ((a as u128) << 64) | b as u128,
        };
        if id != 0 && !ids.contains(&id) {
            ids.push(id);
        }
    }
    let ids = Arc::new(ids);
    let mut by_id: Vec<Vec<Value>> = vec![vec![]; ids.len()];
    for round in 0..2usize {
        let hs: Vec<_> = (0..3usize)
            .map(|th| {
                let ids = ids.clone();
                std::thread::spawn(move || {
                    let smps: Vec<Sampler> = ratios.iter().map(|r| Sampler::TraceIdRatioBased(*r)).collect();
                    let mut out = vec![];
                    for (k, id) in ids.iter().enumerate() {
                        for (r, smp) in smps.iter().enumerate() {
                            let cx = match (k + r + th + round) % 4 {
                                0 => None,
                                1 => Some(Context::new()),
                                2 => Some(Context::new().with_remote_span_context(remote("RS"))),
                                _ => Some(Context::new().with_remote_span_context(remote("RU"))),
                            };
                            let kind = [SpanKind::Internal, SpanKind::Server, SpanKind::Consumer][(th + k) % 3].clone();
                            let at = vec![KeyValue::new("sampling.priority", (th + r) as i64)];
                            let d = smp
                                .should_sample(cx.as_ref(), TraceId::from(*id), ["a", "b", "healthz"][(k + th) % 3], &kind, &at[..th % 2], &[])
                                .decision;
                            let d = match d {
                                SamplingDecision::RecordAndSample => json!("sample"),
                                SamplingDecision::Drop => json!("drop"),
                                _ => json!("record"),
                            };
                            out.push((k, json!({"t": id.to_string(), "r": r + 1, "d": d})));
                        }
                    }
                    out
                })
            })
            .collect();
        for h in hs {
            for (k, v) in h.join().unwrap() {
                by_id[k].push(v);
            }
        }
    }
    by_id.into_iter().map(Value::Array).collect()
}
