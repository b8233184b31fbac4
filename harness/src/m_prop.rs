//! P01-P06: propagators, trace state and baggage.
use crate::common::*;
use crate::m_ctxval::{sc, FakeSpan};
use opentelemetry::baggage::{Baggage, BaggageExt, BaggageMetadata};
use opentelemetry::propagation::text_map_propagator::FieldIter;
use opentelemetry::propagation::{Extractor, Injector, TextMapCompositePropagator, TextMapPropagator};
use opentelemetry::trace::{SpanContext, SpanId, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, Key, StringValue};
use opentelemetry_jaeger_propagator::Propagator as Jaeger;
use opentelemetry_sdk::propagation::{BaggagePropagator, TraceContextPropagator};
use opentelemetry_zipkin::{B3Encoding, Propagator as B3};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::str::FromStr;
use std::sync::{Arc, Mutex};

struct Marker(i64);
const BASE_SPAN: i64 = 0x77;

/// The characters that stand for multi-byte ones in the specifications.
fn sub(x: &str) -> String {
    x.replace('^', "\u{e9}").replace('`', "\u{1F600}")
}
fn unsub(x: &str) -> String {
    x.replace('\u{e9}', "^").replace('\u{1F600}', "`")
}
fn opt(v: &Value, k: &str) -> Option<String> {
    arr(v, k).first().map(|x| sub(x.as_str().unwrap()))
}
/// `got` as the specification's list if it is the same set, else sorted.
fn as_set(mut got: Vec<Value>, exp: &Value) -> Value {
    let key = |v: &Value| v.to_string();
    got.sort_by_key(key);
    if let Some(e) = exp.as_array() {
        let mut e2 = e.clone();
        e2.sort_by_key(key);
        if e2 == got {
            return exp.clone();
        }
    }
    Value::Array(got)
}

fn base_cx() -> Context {
    Context::new().with_value(Marker(42)).with_span(FakeSpan(sc(BASE_SPAN, false)))
}
fn marker(cx: &Context) -> bool {
    cx.get::<Marker>().map(|m| m.0) == Some(42)
}
fn hex_sid(c: &SpanContext) -> String {
    format!("{:016x}", u64::from_be_bytes(c.span_id().to_bytes()))
}
fn hex_tid(c: &SpanContext) -> String {
    format!("{:032x}", u128::from_be_bytes(c.trace_id().to_bytes()))
}
/// What extraction made of the base context.
fn extracted(cx: &Context) -> Result<SpanContext, Value> {
    let span = cx.span();
    let c = span.span_context();
    if !cx.has_active_span() {
        return Err(json!({"r": "nothing", "marker": marker(cx)}));
    }
    if *c == sc(BASE_SPAN, false) {
        return Err(json!({"r": "base", "marker": marker(cx)}));
    }
    if !c.is_remote() {
        return Err(json!({"r": "local", "marker": marker(cx)}));
    }
    Ok(c.clone())
}
fn w3c_obs(cx: &Context) -> Value {
    match extracted(cx) {
        Err(v) => v,
        Ok(c) => json!({"r": "remote", "tid": hex_tid(&c), "sid": hex_sid(&c), "sampled": c.is_sampled(),
                        "ts": unsub(&c.trace_state().header()), "marker": marker(cx)}),
    }
}
fn smp_obs(cx: &Context, exp: &Value) -> Value {
    match extracted(cx) {
        Err(v) => v,
        Ok(c) => {
            let smp = if exp.get("smp") == Some(&json!("?")) {
                "?"
            } else if c.is_sampled() {
                "1"
            } else {
                "0"
            };
            json!({"r": "remote", "tid": hex_tid(&c), "sid": hex_sid(&c), "smp": smp, "marker": marker(cx)})
        }
    }
}
fn mk_sc(st: &Value, kvs: TraceState) -> SpanContext {
    SpanContext::new(
        TraceId::from(u128::from_str_radix(s(st, "tid"), 16).unwrap()),
        SpanId::from(u64::from_str_radix(s(st, "sid"), 16).unwrap()),
        TraceFlags::new(n(st, "flags") as u8),
        false,
        kvs,
    )
}
fn pairs(v: &Value, k: &str) -> Vec<(String, String)> {
    arr(v, k)
        .iter()
        .map(|p| (p[0].as_str().unwrap().to_string(), p[1].as_str().unwrap().to_string()))
        .collect()
}
fn ents(cx: &Context) -> Vec<Value> {
    cx.baggage()
        .iter()
        .map(|(k, (v, m))| json!([unsub(k.as_str()), unsub(v.as_str()), unsub(m.as_str())]))
        .collect()
}

// ---- baggage container -----------------------------------------------------------------
fn text(tag: i64, bytes: i64, unit: i64) -> String {
    let mut r = String::new();
    if unit == 2 {
        let c = char::from_u32(0xC0 + tag as u32).unwrap();
        for _ in 0..bytes / 2 {
            r.push(c);
        }
        if bytes % 2 == 1 {
            r.push((b'a' + tag as u8) as char);
        }
    } else {
        for _ in 0..bytes {
            r.push((b'a' + tag as u8) as char);
        }
    }
    assert_eq!(r.len() as i64, bytes, "harness: text");
    r
}
fn tags(x: &str) -> Vec<i64> {
    let mut t: Vec<i64> = x
        .chars()
        .map(|c| if c.is_ascii() { c as i64 - 'a' as i64 } else { c as i64 - 0xC0 })
        .collect();
    t.sort();
    t.dedup();
    t
}

// ---- composite --------------------------------------------------------------------------
#[derive(Clone)]
struct Ran(Vec<&'static str>);
#[derive(Debug)]
struct Noting {
    name: &'static str,
    fields: Vec<String>,
    log: Arc<Mutex<Vec<&'static str>>>,
}
impl TextMapPropagator for Noting {
    fn inject_context(&self, _cx: &Context, injector: &mut dyn Injector) {
        self.log.lock().unwrap().push(self.name);
        injector.set(&format!("x-{}", self.name), "1".into());
        if self.name == "q" {
            injector.set("traceparent", "from-q".into());
        }
    }
    fn extract_with_context(&self, cx: &Context, _extractor: &dyn Extractor) -> Context {
        let mut r = cx.get::<Ran>().cloned().unwrap_or(Ran(vec![]));
        r.0.push(self.name);
        cx.with_value(r)
    }
    fn fields(&self) -> FieldIter<'_> {
        FieldIter::new(&self.fields)
    }
}
type Part = Box<dyn TextMapPropagator + Send + Sync>;
fn part(name: &str, log: &Arc<Mutex<Vec<&'static str>>>) -> Part {
    let f = |x: &[&str]| x.iter().map(|y| y.to_string()).collect::<Vec<_>>();
    match name {
        "tc" => Box::new(TraceContextPropagator::new()),
        "bag" => Box::new(BaggagePropagator::new()),
        "jg" => Box::new(Jaeger::new()),
        "b3s" => Box::new(B3::with_encoding(B3Encoding::SingleHeader)),
        "b3m" => Box::new(B3::with_encoding(B3Encoding::MultipleHeader)),
        "p" => Box::new(Noting { name: "p", fields: f(&["x-p"]), log: log.clone() }),
        "q" => Box::new(Noting { name: "q", fields: f(&["x-q", "traceparent"]), log: log.clone() }),
        o => panic!("harness: part {o}"),
    }
}
fn composite(st: &Value, log: &Arc<Mutex<Vec<&'static str>>>) -> TextMapCompositePropagator {
    let mut parts: Vec<Part> = arr(st, "parts").iter().map(|p| part(p.as_str().unwrap(), log)).collect();
    if s(st, "nest") == "nested" {
        let tail = parts.split_off(parts.len().min(1));
        parts.push(Box::new(TextMapCompositePropagator::new(tail)));
    }
    TextMapCompositePropagator::new(parts)
}
fn comp_base(st: &Value) -> Context {
    let b = &st["base"];
    let mut cx = Context::new().with_value(Marker(42));
    if s(b, "span") == "base" {
        cx = cx.with_span(FakeSpan(sc(BASE_SPAN, false)));
    }
    if s(b, "bag") == "base" {
        let mut g = Baggage::new();
        g.insert("base", "B");
        cx = cx.with_baggage(g);
    }
    cx
}
fn tid_of(k: &str) -> u64 {
    match k {
        "tc" => 1,
        "b3s" => 2,
        "b3m" => 3,
        "jg" => 4,
        _ => panic!("harness: format"),
    }
}

pub struct PropSut {
    pool: Vec<TraceState>,
    keys: Vec<String>,
    bag: Baggage,
    names: Vec<String>,
    filllen: i64,
}
impl PropSut {
    pub fn new() -> Self {
        PropSut { pool: vec![], keys: vec![], bag: Baggage::new(), names: vec![], filllen: 0 }
    }
    fn ts_obs(&self) -> Value {
        Value::Array(
            self.pool
                .iter()
                .map(|t| {
                    let h = t.header();
                    let kvs: Vec<Value> = if h.is_empty() {
                        vec![]
                    } else {
                        h.split(',')
                            .map(|m| {
                                let (k, v) = m.split_once('=').unwrap_or((m, "<no =>"));
                                json!([k, v])
                            })
                            .collect()
                    };
                    let get: serde_json::Map<String, Value> = self
                        .keys
                        .iter()
                        .map(|k| (k.clone(), t.get(k).map(|v| json!([v])).unwrap_or(json!([]))))
                        .collect();
                    json!({"kvs": kvs, "get": get, "same": TraceState::from_str(&h).map(|x| x == *t).unwrap_or(false)})
                })
                .collect(),
        )
    }
    fn bag_obs(&self, exp: &Value) -> Value {
        let mut ents = serde_json::Map::new();
        for x in &self.names {
            let got = match self.bag.get_with_metadata(x) {
                None => json!([]),
                Some((v, m)) => {
                    let (v, m) = (v.as_str(), m.as_str());
                    let mut t = tags(v);
                    t.extend(tags(m));
                    t.sort();
                    t.dedup();
                    let tag = match t.as_slice() {
                        [] => exp["ents"][x][0]["tag"].clone(),
                        [t] => json!(t),
                        _ => json!("mixed"),
                    };
                    if self.bag.get(x).map(|y| y.as_str()) != Some(v) {
                        json!(["get and get_with_metadata differ"])
                    } else {
                        json!([{"tag": tag, "vl": v.len(), "ml": m.len()}])
                    }
                }
            };
            ents.insert(x.clone(), got);
        }
        let len = if self.bag.iter().count() == self.bag.len() && self.bag.is_empty() == (self.bag.len() == 0) {
            json!(self.bag.len())
        } else {
            json!("len and iter differ")
        };
        json!({"len": len, "ents": ents})
    }
    fn fill_name(i: i64) -> String {
        format!("f{i:03}")
    }
    fn add_fill(&mut self, i: i64) {
        self.bag.insert(Self::fill_name(i), "x".repeat((self.filllen - 4) as usize));
    }
}
impl Sut for PropSut {
    fn step(&mut self, st: &Value) -> Value {
        let exp = &st["exp"];
        match s(st, "op") {
            // ---- W3C
            "w3c_extract" => {
                let mut h: HashMap<String, String> = HashMap::new();
                if let Some(x) = opt(st, "tp") {
                    h.insert("traceparent".into(), x);
                }
                if let Some(x) = opt(st, "ts") {
                    h.insert("tracestate".into(), x);
                }
                w3c_obs(&TraceContextPropagator::new().extract_with_context(&base_cx(), &h))
            }
            "w3c_round" => {
                let c = mk_sc(st, TraceState::from_key_value(pairs(st, "kvs")).expect("harness: kvs"));
                let mut h: HashMap<String, String> = HashMap::new();
                let p = TraceContextPropagator::new();
                p.inject_context(&Context::new().with_span(FakeSpan(c)), &mut h);
                let parent = h.get("traceparent").cloned().unwrap_or("none".into());
                json!({"parent": parent, "back": w3c_obs(&p.extract_with_context(&base_cx(), &h))})
            }
            // ---- trace state
            "ts_key" => {
                let k = sub(s(st, "key"));
                let one = TraceState::from_key_value(vec![("other", "1")]).expect("harness: ts");
                let mut oks = vec![
                    TraceState::NONE.insert(k.clone(), "v").is_ok(),
                    one.insert(k.clone(), "v").is_ok(),
                    TraceState::from_key_value(vec![(k.clone(), "v")]).is_ok(),
                    TraceState::from_key_value(vec![("other", "v"), (&k, "v")]).is_ok(),
                    one.delete(k.clone()).is_ok(),
                ];
                if !k.contains([',', '=']) && k.trim() == k {
                    oks.push(TraceState::from_str(&format!("{k}=v")).is_ok());
                    oks.push(TraceState::from_str(&format!("other=1,{k}=v")).is_ok());
                }
                if oks.iter().all(|x| *x == oks[0]) {
                    json!({"ok": oks[0]})
                } else {
                    json!({"ok": oks})
                }
            }
            "ts_value" => {
                let v = sub(s(st, "value"));
                let a = TraceState::NONE.insert("k", v.clone());
                let b2 = TraceState::from_key_value(vec![("k", v.clone())]);
                let mut oks = vec![a.is_ok(), b2.is_ok()];
                if let (Ok(a), Ok(b2)) = (&a, &b2) {
                    oks.push(a.get("k") == Some(&v) && b2.get("k") == Some(&v));
                }
                if b(st, "parse") {
                    oks.push(TraceState::from_str(&format!("k={v}")).is_ok());
                }
                if oks.iter().all(|x| *x == oks[0]) {
                    json!({"ok": oks[0]})
                } else {
                    json!({"ok": oks})
                }
            }
            "ts_init" => {
                self.keys = exp[0]["get"].as_object().unwrap().keys().cloned().collect();
                self.pool.push(TraceState::default());
                self.ts_obs()
            }
            "ts_insert" => {
                let r = self.pool[n(st, "src") as usize - 1].insert(s(st, "k"), s(st, "v"));
                match r {
                    Ok(t) => self.pool.push(t),
                    Err(e) => return json!({"err": e.to_string()}),
                }
                self.ts_obs()
            }
            "ts_delete" => {
                let r = self.pool[n(st, "src") as usize - 1].delete(s(st, "k"));
                match r {
                    Ok(t) => self.pool.push(t),
                    Err(e) => return json!({"err": e.to_string()}),
                }
                self.ts_obs()
            }
            "ts_make" => {
                let kvs = pairs(st, "kvs");
                let r = if s(st, "how") == "list" {
                    TraceState::from_key_value(kvs)
                } else {
                    let h: Vec<String> = kvs.iter().map(|(k, v)| format!("{k}={v}")).collect();
                    TraceState::from_str(&h.join(","))
                };
                match r {
                    Ok(t) => self.pool.push(t),
                    Err(e) => return json!({"err": e.to_string()}),
                }
                self.ts_obs()
            }
            // ---- baggage container
            "bag_init" => {
                self.names = arr(st, "names").iter().map(|x| x.as_str().unwrap().to_string()).collect();
                self.filllen = n(st, "filllen");
                for i in 1..=n(st, "filln") {
                    self.add_fill(i);
                }
                self.bag_obs(exp)
            }
            "bag_insert" => {
                let v = text(n(st, "tag"), n(st, "vl"), n(st, "unit"));
                let m = text(n(st, "tag"), n(st, "ml"), n(st, "unit"));
                if n(st, "ml") == 0 {
                    self.bag.insert(s(st, "name").to_string(), v);
                } else {
                    self.bag.insert_with_metadata(s(st, "name").to_string(), v, BaggageMetadata::from(m));
                }
                self.bag_obs(exp)
            }
            "bag_remove" => {
                self.bag.remove(s(st, "name"));
                self.bag_obs(exp)
            }
            "bag_remove_fill" => {
                self.bag.remove(Self::fill_name(n(st, "i")));
                self.bag_obs(exp)
            }
            "bag_add_fill" => {
                self.add_fill(n(st, "i"));
                self.bag_obs(exp)
            }
            "bag_name" => {
                let name: String = arr(st, "codes")
                    .iter()
                    .map(|c| char::from_u32(c.as_i64().unwrap() as u32).unwrap())
                    .collect();
                let mut g = Baggage::new();
                g.insert("first", "1");
                g.insert(name.clone(), "v");
                let direct = g.len() == 2 && g.get(&name).map(|v| v.as_str()) == Some("v");
                let untouched = g.len() == 1 && g.get("first").map(|v| v.as_str()) == Some("1");
                let from: Baggage = vec![opentelemetry::KeyValue::new(name.clone(), "v")].into_iter().collect();
                match (direct, untouched, from.len()) {
                    (true, false, 1) => json!({"ok": true}),
                    (false, true, 0) => json!({"ok": false}),
                    o => json!({"ok": format!("{o:?}")}),
                }
            }
            // ---- baggage on the wire
            "bag_extract" => {
                let mut cx = base_cx();
                if b(st, "base") {
                    let mut g = Baggage::new();
                    g.insert_with_metadata("base", "B", BaggageMetadata::from("mb"));
                    cx = cx.with_baggage(g);
                }
                let mut h: HashMap<String, String> = HashMap::new();
                if let Some(x) = opt(st, "h") {
                    h.insert("baggage".into(), x);
                }
                let out = BaggagePropagator::new().extract_with_context(&cx, &h);
                let mk = marker(&out) && matches!(extracted(&out), Err(v) if v["r"] == "base");
                json!({"ents": as_set(ents(&out), &exp["ents"]), "marker": mk})
            }
            "bag_round" => {
                let mut g = Baggage::new();
                for e in arr(st, "ents") {
                    let q = |i: usize| sub(e[i].as_str().unwrap());
                    g.insert_with_metadata(Key::from(q(0)), StringValue::from(q(1)), BaggageMetadata::from(q(2)));
                }
                let mut h: HashMap<String, String> = HashMap::new();
                let p = BaggagePropagator::new();
                p.inject_context(&Context::new().with_baggage(g), &mut h);
                let clean = h.get("baggage").map(|x| x.bytes().all(|c| (0x20..0x7f).contains(&c))).unwrap_or(true);
                let out = p.extract_with_context(&Context::new(), &h);
                json!({"ents": as_set(ents(&out), &exp["ents"]), "clean": clean})
            }
            // ---- Jaeger
            "j_extract" | "j_round" => {
                let (p, header) = match s(st, "cfg") {
                    "default" => (Jaeger::new(), "uber-trace-id"),
                    "custom" => (Jaeger::with_custom_header("x-trace"), "x-trace"),
                    "custom_both" => (Jaeger::with_custom_header_and_baggage("x-trace2", "x-bag-"), "x-trace2"),
                    "blank" => (Jaeger::with_custom_header_and_baggage(" ", ""), "uber-trace-id"),
                    o => panic!("harness: cfg {o}"),
                };
                let mut h: HashMap<String, String> = HashMap::new();
                if s(st, "op") == "j_extract" {
                    if let Some(x) = opt(st, "h") {
                        h.insert(header.into(), x);
                    }
                } else {
                    let c = mk_sc(st, TraceState::default());
                    let valid = c.is_valid();
                    p.inject_context(&Context::new().with_span(FakeSpan(c)), &mut h);
                    if h.contains_key(header) != valid {
                        return json!({"r": "header", "carrier": h});
                    }
                }
                smp_obs(&p.extract_with_context(&base_cx(), &h), exp)
            }
            // ---- B3
            "b_extract" | "b_round" => {
                let enc = |x: &str| match x {
                    "multi" => B3Encoding::MultipleHeader,
                    "single" => B3Encoding::SingleHeader,
                    "both" => B3Encoding::SingleAndMultiHeader,
                    "unspec" => B3Encoding::UnSpecified,
                    o => panic!("harness: enc {o}"),
                };
                let mut h: HashMap<String, String> = HashMap::new();
                let dec = if s(st, "op") == "b_extract" {
                    if let Some(x) = opt(st, "h") {
                        h.insert("b3".into(), x);
                    }
                    let m = &st["m"];
                    for (k, name) in [("t", "x-b3-traceid"), ("s", "x-b3-spanid"), ("smp", "x-b3-sampled")] {
                        if let Some(x) = opt(m, k) {
                            h.insert(name.into(), x);
                        }
                    }
                    B3::with_encoding(enc(s(st, "enc")))
                } else {
                    let c = mk_sc(st, TraceState::default());
                    B3::with_encoding(enc(s(st, "enc"))).inject_context(&Context::new().with_span(FakeSpan(c)), &mut h);
                    B3::with_encoding(enc(s(st, "dec")))
                };
                smp_obs(&dec.extract_with_context(&base_cx(), &h), exp)
            }
            // ---- composite
            "c_extract" => {
                let log = Arc::default();
                let p = composite(st, &log);
                let mut h: HashMap<String, String> = HashMap::new();
                let ca = &st["carrier"];
                let (t, id) = ("4bf92f3577b34da6a3ce929d0e0e4736", |k| format!("{:016x}", tid_of(k)));
                match s(ca, "tc") {
                    "valid" => drop(h.insert("traceparent".into(), format!("00-{t}-{}-01", id("tc")))),
                    "bad" => drop(h.insert("traceparent".into(), format!("00-{t}-{}-01", "0".repeat(16)))),
                    _ => {}
                }
                match s(ca, "b3s") {
                    "valid" => drop(h.insert("b3".into(), format!("{t}-{}-1", id("b3s")))),
                    "bad" => drop(h.insert("b3".into(), format!("{t}-xyz-1"))),
                    _ => {}
                }
                match s(ca, "b3m") {
                    "absent" => {}
                    v => {
                        h.insert("x-b3-traceid".into(), if v == "valid" { t.into() } else { "xyz".into() });
                        h.insert("x-b3-spanid".into(), id("b3m"));
                        h.insert("x-b3-sampled".into(), "1".into());
                    }
                }
                match s(ca, "jg") {
                    "valid" => drop(h.insert("uber-trace-id".into(), format!("{t}:{}:0:1", id("jg")))),
                    "bad" => drop(h.insert("uber-trace-id".into(), format!("{t}:{}:1", id("jg")))),
                    _ => {}
                }
                match s(ca, "bag") {
                    "valid" => drop(h.insert("baggage".into(), "k=v".into())),
                    "bad" => drop(h.insert("baggage".into(), "nonsense".into())),
                    _ => {}
                }
                let out = p.extract_with_context(&comp_base(st), &h);
                let span = if !out.has_active_span() {
                    json!("none")
                } else {
                    let sp = out.span();
                    let c = sp.span_context();
                    match (u64::from_be_bytes(c.span_id().to_bytes()), c.is_remote()) {
                        (1, true) => json!("tc"),
                        (2, true) => json!("b3s"),
                        (3, true) => json!("b3m"),
                        (4, true) => json!("jg"),
                        (x, false) if x == BASE_SPAN as u64 => json!("base"),
                        o => json!(format!("{o:?}")),
                    }
                };
                let mut e = ents(&out);
                let bagv = match (e.len(), e.pop()) {
                    (0, _) => json!("none"),
                    (1, Some(x)) if x == json!(["base", "B", ""]) => json!("base"),
                    (1, Some(x)) if x == json!(["k", "v", ""]) => json!("bag"),
                    (_, x) => json!(format!("{x:?}")),
                };
                let ran = out.get::<Ran>().map(|r| r.0.clone()).unwrap_or_default();
                json!({"cx": {"span": span, "bag": bagv, "ran": ran}, "marker": marker(&out)})
            }
            "c_inject" => {
                let log = Arc::default();
                let p = composite(st, &log);
                let cx = comp_base(st);
                let mut h: HashMap<String, String> = HashMap::new();
                h.insert("keep".into(), "me".into());
                p.inject_context(&cx, &mut h);
                let ran = log.lock().unwrap().clone();
                let log2 = Arc::default();
                let mut h2: HashMap<String, String> = HashMap::new();
                for q in arr(st, "parts") {
                    part(q.as_str().unwrap(), &log2).inject_context(&cx, &mut h2);
                }
                let keep = h.remove("keep").as_deref() == Some("me");
                let same: BTreeMap<_, _> = h.into_iter().collect();
                let same2: BTreeMap<_, _> = h2.into_iter().collect();
                let fields: Vec<Value> = p.fields().map(|f| json!(f)).collect();
                let nf = fields.len();
                json!({"same": same == same2, "keep": keep, "fields": as_set(fields, &exp["fields"]),
                       "nfields": nf, "ran": ran})
            }
            o => panic!("harness: op {o}"),
        }
    }
}
