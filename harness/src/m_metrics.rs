//! M01-M04, M06-M10, M12 (instruments): the metrics pipeline driven one call at a time.
use crate::common::*;
use opentelemetry::metrics::{AsyncInstrument, Counter, Gauge, Histogram, Meter, MeterProvider, UpDownCounter};
use opentelemetry::{Array, InstrumentationScope, Key, KeyValue, Value as OVal};
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{
    new_view, periodic_reader_with_async_runtime, Aggregation, Instrument, InstrumentKind, ManualReader, PeriodicReader,
    Pipeline, SdkMeterProvider, Stream, Temporality,
};
use serde_json::{json, Map, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{Arc, Mutex, Weak};
use std::time::{Duration, SystemTime};

#[derive(Debug, Clone)]
pub struct Rdr(pub Arc<dyn MetricReader>);
impl MetricReader for Rdr {
    fn register_pipeline(&self, p: Weak<Pipeline>) {
        self.0.register_pipeline(p)
    }
    fn collect(&self, rm: &mut ResourceMetrics) -> OTelSdkResult {
        self.0.collect(rm)
    }
    fn force_flush(&self) -> OTelSdkResult {
        self.0.force_flush()
    }
    fn shutdown_with_timeout(&self, t: Duration) -> OTelSdkResult {
        self.0.shutdown_with_timeout(t)
    }
    fn temporality(&self, k: InstrumentKind) -> Temporality {
        self.0.temporality(k)
    }
}
/// What a periodic reader would push; the harness collects instead.
struct Nowhere(Temporality);
impl PushMetricExporter for Nowhere {
    async fn export(&self, _m: &mut ResourceMetrics) -> OTelSdkResult {
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        self.0
    }
}
/// A runtime that runs nothing.
#[derive(Debug, Clone)]
struct Idle;
impl opentelemetry_sdk::runtime::Runtime for Idle {
    fn spawn<F: std::future::Future<Output = ()> + Send + 'static>(&self, _f: F) {}
    fn delay(&self, _d: Duration) -> impl std::future::Future<Output = ()> + Send + 'static {
        std::future::pending()
    }
}
/// A reader with that preference: all kinds of readers treat it alike.
fn any_reader(t: Temporality, which: usize) -> Rdr {
    let r: Arc<dyn MetricReader> = match which % 4 {
        2 => Arc::new(PeriodicReader::builder(Nowhere(t)).with_interval(Duration::from_secs(3600)).build()),
        3 => Arc::new(
            periodic_reader_with_async_runtime::PeriodicReader::builder(Nowhere(t), Idle)
                .with_interval(Duration::from_secs(3600))
                .build(),
        ),
        _ => Arc::new(ManualReader::builder().with_temporality(t).build()),
    };
    Rdr(r)
}
pub fn pref(p: &str) -> Temporality {
    match p {
        "cum" => Temporality::Cumulative,
        "delta" => Temporality::Delta,
        "low" => Temporality::LowMemory,
        o => panic!("harness: temporality {o}"),
    }
}

const FT: [f64; 12] = [-1e300, -10.0, -1.5, -5e-324, 0.0, 5e-324, 0.25, 1.0, 1.0000000000000002, 5.0, 1e15, 1e300];
const UT: [f64; 12] = [0.0, 1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0, 10.0, 50.0, 1000.0, 1099511627776.0];
fn bounds(name: &str, table: &[f64; 12]) -> Vec<f64> {
    let r = |v: &[usize]| v.iter().map(|i| table[i - 1]).collect();
    match name {
        "none" => vec![],
        "b1" => r(&[5]),
        "b2" => r(&[3, 7]),
        "b3" => r(&[2, 5, 8, 9, 10]),
        "all" => table.to_vec(),
        "bad_unsorted" => r(&[5, 3]),
        "bad_dup" => r(&[3, 3]),
        "bad_nan" => vec![1.0, f64::NAN],
        "bad_inf" => vec![1.0, f64::INFINITY],
        o => panic!("harness: bounds {o}"),
    }
}

/// The attribute behind a token; `owned` varies how the key is held.
pub fn attr(t: &str, owned: bool) -> KeyValue {
    let k: &'static str = match &t[..1] {
        "a" => "a",
        "b" => "b",
        "c" => "c",
        "x" => "x",
        _ => panic!("harness: token {t}"),
    };
    let v: OVal = match t {
        "a1" => 1i64.into(),
        "a2" => 2i64.into(),
        "a1f" => 1.0f64.into(),
        "a1s" => {
            if owned {
                String::from("1").into()
            } else {
                "1".into()
            }
        }
        "at" => true.into(),
        "aL" => OVal::Array(Array::I64(vec![1, 2])),
        "aM" => OVal::Array(Array::I64(vec![2, 1])),
        "b1" => "x".into(),
        "b2" => "y".into(),
        "c1" => 7i64.into(),
        "x1" => 0.5f64.into(),
        o => panic!("harness: token {o}"),
    };
    let key = if owned { Key::from(k.to_string()) } else { Key::from_static_str(k) };
    KeyValue::new(key, v)
}
const TOKENS: [&str; 11] = ["a1", "a2", "a1f", "a1s", "at", "aL", "aM", "b1", "b2", "c1", "x1"];
pub fn set_name(attrs: &[KeyValue]) -> String {
    if attrs.len() == 1 && attrs[0].key.as_str() == "otel.metric.overflow" && attrs[0].value == OVal::Bool(true) {
        return "~over".into();
    }
    let mut left: Vec<&KeyValue> = attrs.iter().collect();
    let mut out = String::new();
    for t in TOKENS {
        let a = attr(t, false);
        if let Some(i) = left.iter().position(|x| x.key == a.key && x.value == a.value) {
            left.remove(i);
            out.push_str(t);
            out.push(';');
        }
    }
    for x in left {
        out.push_str(&format!("?{}={:?};", x.key, x.value));
    }
    out
}
fn real_name(n: &str) -> String {
    match n {
        "n255" => "n".repeat(255),
        "n256" => "n".repeat(256),
        o => o.to_string(),
    }
}
fn real_unit(u: &str) -> String {
    match u {
        "u63" => "u".repeat(63),
        "u64" => "u".repeat(64),
        "\\u" => "\u{b5}s".to_string(),
        o => o.to_string(),
    }
}
fn spec_name(n: &str) -> String {
    if n == "n".repeat(255) {
        "n255".into()
    } else {
        n.to_string()
    }
}
fn spec_unit(u: &str) -> String {
    if u == "u".repeat(63) {
        "u63".into()
    } else {
        u.to_string()
    }
}

enum Handle {
    Cu(Counter<u64>),
    Cf(Counter<f64>),
    Ui(UpDownCounter<i64>),
    Uf(UpDownCounter<f64>),
    Gu(Gauge<u64>),
    Gi(Gauge<i64>),
    Gf(Gauge<f64>),
    Hu(Histogram<u64>),
    Hf(Histogram<f64>),
    Obs,
}
type Table = Arc<Mutex<Vec<(Vec<KeyValue>, i64)>>>;
struct Inst {
    handle: Handle,
    table: Table,
    runs: Arc<AtomicUsize>,
}
#[derive(Default)]
struct Window {
    /// end of the last reported window
    end: Option<SystemTime>,
    /// when it was collected without being reported, since then
    unreported: Option<(SystemTime, SystemTime)>,
    start: Option<SystemTime>,
}

pub struct MetricsSut {
    provider: Option<SdkMeterProvider>,
    readers: Vec<Rdr>,
    setup: Value,
    insts: HashMap<usize, Inst>,
    rms: Vec<ResourceMetrics>,
    windows: HashMap<(usize, String), Window>,
    created: Vec<(SystemTime, SystemTime)>,
    lists: HashMap<usize, Vec<Vec<String>>>,
    calls: usize,
}
fn empty_rm() -> ResourceMetrics {
    ResourceMetrics { resource: opentelemetry_sdk::Resource::builder_empty().build(), scope_metrics: vec![] }
}
fn cb<T: Copy + 'static>(
    table: &Table,
    runs: &Arc<AtomicUsize>,
    conv: fn(i64) -> T,
) -> impl Fn(&dyn AsyncInstrument<T>) + Send + Sync + 'static {
    let (table, runs) = (table.clone(), runs.clone());
    move |o| {
        runs.fetch_add(1, Ordering::SeqCst);
        for (a, v) in table.lock().unwrap().iter() {
            o.observe(conv(*v), a);
        }
    }
}
fn to_u(v: i64) -> u64 {
    u64::try_from(v).expect("harness: negative")
}
fn to_i(v: i64) -> i64 {
    v
}
fn to_f(v: i64) -> f64 {
    v as f64 * 0.25
}

impl MetricsSut {
    pub fn new() -> Self {
        MetricsSut {
            provider: None,
            readers: vec![],
            setup: Value::Null,
            insts: HashMap::new(),
            rms: vec![],
            windows: HashMap::new(),
            created: vec![],
            lists: HashMap::new(),
            calls: 0,
        }
    }
    fn table(&self, num: &str) -> &'static [f64; 12] {
        if num == "f64" && s(&self.setup, "tab") == "F" {
            &FT
        } else {
            &UT
        }
    }
    fn create(&mut self, i: usize) {
        let t0 = SystemTime::now();
        let d = arr(&self.setup, "insts")[i - 1].clone();
        let scope = InstrumentationScope::builder(s(&d, "scope").to_string()).build();
        let m: Meter = self.provider.as_ref().unwrap().meter_with_scope(scope);
        let name = real_name(s(&d, "name"));
        let (unit, desc, lim) = (real_unit(s(&d, "unit")), s(&d, "desc").to_string(), n(&d, "lim") as usize);
        let table: Table = Default::default();
        let runs: Arc<AtomicUsize> = Default::default();
        macro_rules! fin {
            ($b:expr) => {{
                let mut b = $b;
                if !unit.is_empty() {
                    b = b.with_unit(unit.clone());
                }
                if !desc.is_empty() {
                    b = b.with_description(desc.clone());
                }
                if lim > 0 {
                    b = b.with_cardinality_limit(lim);
                }
                b
            }};
        }
        macro_rules! hist {
            ($b:expr, $num:expr) => {{
                let mut b = fin!($b);
                if s(&d, "bounds") != "default" {
                    b = b.with_boundaries(bounds(s(&d, "bounds"), self.table($num)));
                }
                b.build()
            }};
        }
        let handle = match (s(&d, "kind"), s(&d, "num")) {
            ("counter", "u64") => Handle::Cu(fin!(m.u64_counter(name)).build()),
            ("counter", "f64") => Handle::Cf(fin!(m.f64_counter(name)).build()),
            ("updown", "i64") => Handle::Ui(fin!(m.i64_up_down_counter(name)).build()),
            ("updown", "f64") => Handle::Uf(fin!(m.f64_up_down_counter(name)).build()),
            ("gauge", "u64") => Handle::Gu(fin!(m.u64_gauge(name)).build()),
            ("gauge", "i64") => Handle::Gi(fin!(m.i64_gauge(name)).build()),
            ("gauge", "f64") => Handle::Gf(fin!(m.f64_gauge(name)).build()),
            ("hist", "u64") => Handle::Hu(hist!(m.u64_histogram(name), "u64")),
            ("hist", "f64") => Handle::Hf(hist!(m.f64_histogram(name), "f64")),
            ("ocounter", "u64") => {
                fin!(m.u64_observable_counter(name)).with_callback(cb(&table, &runs, to_u)).build();
                Handle::Obs
            }
            ("ocounter", "f64") => {
                fin!(m.f64_observable_counter(name)).with_callback(cb(&table, &runs, to_f)).build();
                Handle::Obs
            }
            ("oupdown", "i64") => {
                fin!(m.i64_observable_up_down_counter(name)).with_callback(cb(&table, &runs, to_i)).build();
                Handle::Obs
            }
            ("oupdown", "f64") => {
                fin!(m.f64_observable_up_down_counter(name)).with_callback(cb(&table, &runs, to_f)).build();
                Handle::Obs
            }
            ("ogauge", "u64") => {
                fin!(m.u64_observable_gauge(name)).with_callback(cb(&table, &runs, to_u)).build();
                Handle::Obs
            }
            ("ogauge", "i64") => {
                fin!(m.i64_observable_gauge(name)).with_callback(cb(&table, &runs, to_i)).build();
                Handle::Obs
            }
            ("ogauge", "f64") => {
                fin!(m.f64_observable_gauge(name)).with_callback(cb(&table, &runs, to_f)).build();
                Handle::Obs
            }
            o => panic!("harness: instrument {o:?}"),
        };
        self.insts.insert(i, Inst { handle, table, runs });
        self.created.push((t0, SystemTime::now()));
    }
    fn attrs(&mut self, list: &[Value]) -> Vec<KeyValue> {
        self.calls += 1;
        let c = self.calls;
        list.iter().enumerate().map(|(k, t)| attr(t.as_str().expect("harness: token"), (c + k) % 2 == 0)).collect()
    }

    fn collect(&mut self, st: &Value) -> Value {
        let r = n(st, "r") as usize - 1;
        for o in arr(st, "obs") {
            let i = n(o, "i") as usize;
            let lists = self.lists.get(&i).cloned().unwrap_or_default();
            let vals: Vec<i64> = arr(o, "vals").iter().map(|v| v.as_i64().unwrap()).collect();
            assert_eq!(lists.len(), vals.len(), "harness: lists and values");
            let mut t = vec![];
            for (l, v) in lists.iter().zip(vals) {
                let l: Vec<Value> = l.iter().map(|x| json!(x)).collect();
                t.push((self.attrs(&l), v));
            }
            *self.insts[&i].table.lock().unwrap() = t;
        }
        let mut fresh = empty_rm();
        let reuse = b(st, "reuse");
        let t0 = SystemTime::now();
        let res = {
            let rm = if reuse { &mut self.rms[r] } else { &mut fresh };
            self.readers[r].collect(rm)
        };
        let t1 = SystemTime::now();
        if let Err(e) = res {
            return json!({"err": format!("{e:?}")});
        }
        let exp = &st["exp"]["streams"];
        let may = &st["may"];
        let mut streams: Map<String, Value> = Map::new();
        let mut time: Vec<String> = vec![];
        let mut reported: Vec<String> = vec![];
        let taken = if reuse { std::mem::replace(&mut self.rms[r], empty_rm()) } else { fresh };
        for sm in &taken.scope_metrics {
            if sm.metrics.is_empty() {
                streams.insert(format!("empty scope {}", sm.scope.name()), json!("reported without metrics"));
            }
            for m in &sm.metrics {
                let num = match &m.data {
                    AggregatedMetrics::F64(_) => "f64",
                    AggregatedMetrics::U64(_) => "u64",
                    AggregatedMetrics::I64(_) => "i64",
                };
                let table = self.table(num);
                macro_rules! data {
                    ($d:expr, $val:expr) => {{
                        let val = $val;
                        let rank = |v| {
                            let f = val(v);
                            table.iter().position(|x| *x == f).map(|p| json!(p + 1)).unwrap_or(json!(format!("no rank: {f}")))
                        };
                        match $d {
                            MetricData::Sum(x) => (
                                "sum",
                                x.is_monotonic,
                                match x.temporality {
                                    Temporality::Delta => "delta",
                                    Temporality::Cumulative => "cum",
                                    _ => "low",
                                },
                                Some(x.start_time),
                                x.time,
                                x.data_points.iter().map(|p| (set_name(&p.attributes), P::Num(val(p.value)))).collect::<Vec<_>>(),
                            ),
                            MetricData::Gauge(x) => (
                                "gauge",
                                false,
                                "",
                                x.start_time,
                                x.time,
                                x.data_points.iter().map(|p| (set_name(&p.attributes), P::Num(val(p.value)))).collect::<Vec<_>>(),
                            ),
                            MetricData::Histogram(x) => (
                                "hist",
                                false,
                                match x.temporality {
                                    Temporality::Delta => "delta",
                                    Temporality::Cumulative => "cum",
                                    _ => "low",
                                },
                                Some(x.start_time),
                                x.time,
                                x.data_points
                                    .iter()
                                    .map(|p| {
                                        (
                                            set_name(&p.attributes),
                                            P::Hist(
                                                json!({"c": p.count, "b": p.bucket_counts,
                                                   "mn": p.min.map(|v| rank(v)).unwrap_or(json!("none")),
                                                   "mx": p.max.map(|v| rank(v)).unwrap_or(json!("none"))}),
                                                val(p.sum),
                                                p.bounds.clone(),
                                            ),
                                        )
                                    })
                                    .collect::<Vec<_>>(),
                            ),
                            MetricData::ExponentialHistogram(_) => panic!("unexpected exponential histogram"),
                        }
                    }};
                }
                let (kind, mono, temp, start, end, points) = match &m.data {
                    AggregatedMetrics::F64(d) => data!(d, |v: f64| v),
                    AggregatedMetrics::U64(d) => data!(d, |v: u64| v as f64),
                    AggregatedMetrics::I64(d) => data!(d, |v: i64| v as f64),
                };
                let name = format!(
                    "{}|{}|{}|{}|{}|{}{}",
                    sm.scope.name(),
                    spec_name(&m.name),
                    spec_unit(&m.unit),
                    m.description,
                    num,
                    kind,
                    if mono { "+" } else { "" }
                );
                let mut pts = Map::new();
                for (k, p) in points {
                    let e = &exp[&name]["points"][&k];
                    let v = match p {
                        P::Num(f) => {
                            if let Some(ranks) = e.get("s").and_then(|x| x.as_array()) {
                                if close(f, ranks, table) {
                                    e.clone()
                                } else {
                                    json!({"sum": f})
                                }
                            } else {
                                let f = if num == "f64" { f * 4.0 } else { f };
                                if f == f.trunc() && f.abs() < 1e15 {
                                    json!(f as i64)
                                } else {
                                    json!(f)
                                }
                            }
                        }
                        P::Hist(mut h, sum, bd) => {
                            let empty = vec![];
                            let ranks = e.get("s").and_then(|x| x.as_array()).unwrap_or(&empty);
                            h["s"] = if close(sum, ranks, table) { json!(ranks) } else { json!({"sum": sum}) };
                            if bd.len() + 1 != h["b"].as_array().unwrap().len() || bd.windows(2).any(|w| w[0] >= w[1]) {
                                h["bounds"] = json!(format!("{bd:?}"));
                            }
                            h
                        }
                    };
                    if pts.contains_key(&k) {
                        pts.insert(format!("{k} reported twice"), v);
                    } else if may[&name].get(&k) == Some(&v) {
                        // allowed, not required
                    } else {
                        pts.insert(k, v);
                    }
                }
                // ---- the window
                let w = self.windows.entry((r, name.clone())).or_default();
                let mut bad = |m: &str| time.push(format!("{name}: {m}"));
                match start {
                    None => bad("no start time"),
                    Some(st0) => {
                        if end < st0 {
                            bad("end before start");
                        }
                        if end < t0 || end > t1 {
                            bad("end is not the time of the collection");
                        }
                        let born = self.created.iter().any(|(a, z)| *a <= st0 && st0 <= *z);
                        match st["win"][&name].as_str() {
                            Some("cum") => {
                                if w.start.is_some_and(|x| x != st0) {
                                    bad("cumulative start moved");
                                } else if w.start.is_none() && !born {
                                    bad("cumulative start is not the creation of the instrument");
                                }
                            }
                            Some("delta") => {
                                let ok = match (&w.end, &w.unreported) {
                                    (None, None) => born,
                                    (Some(e), None) => *e == st0,
                                    (e, Some((a, z))) => (*a <= st0 && st0 <= *z) || e.map_or(born, |e| e == st0),
                                };
                                if !ok {
                                    bad("delta window does not start where the previous one ended");
                                }
                            }
                            _ => bad("unexpected stream"),
                        }
                        w.start = Some(st0);
                        w.end = Some(end);
                        w.unreported = None;
                    }
                }
                reported.push(name.clone());
                if pts.is_empty() {
                    continue;
                }
                let v = json!({"kind": kind, "mono": mono, "temp": temp, "points": pts});
                if streams.contains_key(&name) {
                    streams.insert(format!("{name} reported twice"), v);
                } else {
                    streams.insert(name, v);
                }
            }
        }
        if let Some(win) = st["win"].as_object() {
            for name in win.keys() {
                if !reported.contains(name) {
                    self.windows.entry((r, name.clone())).or_default().unreported = Some((t0, t1));
                }
            }
        }
        if reuse {
            self.rms[r] = taken;
        }
        let cbs: Vec<usize> = (1..=arr(&self.setup, "insts").len())
            .map(|i| self.insts.get(&i).map_or(0, |x| x.runs.load(Ordering::SeqCst)))
            .collect();
        json!({"streams": if streams.is_empty() { json!([]) } else { Value::Object(streams) },
               "cbs": cbs, "time": if time.is_empty() { json!("ok") } else { json!(time) }})
    }
}
enum P {
    Num(f64),
    Hist(Value, f64, Vec<f64>),
}
fn close(sum: f64, ranks: &[Value], table: &[f64; 12]) -> bool {
    let (mut e, mut mag) = (0.0f64, 0.0f64);
    for r in ranks {
        let v = table[r.as_u64().expect("harness: rank") as usize - 1];
        e += v;
        mag = mag.max(v.abs());
    }
    (sum - e).abs() <= 1e-9 * mag * ranks.len() as f64
}

impl Sut for MetricsSut {
    fn step(&mut self, st: &Value) -> Value {
        match s(st, "op") {
            "m_init" => {
                self.setup = st["setup"].clone();
                let mut pb = SdkMeterProvider::builder();
                let h = self.setup.to_string().bytes().fold(7usize, |h, b| h.wrapping_mul(31).wrapping_add(b as usize));
                for (i, r) in arr(&self.setup, "readers").iter().enumerate() {
                    let rd = any_reader(pref(r.as_str().unwrap()), (h >> 4) + i);
                    self.readers.push(rd.clone());
                    self.rms.push(empty_rm());
                    pb = pb.with_reader(rd);
                }
                for v in arr(&self.setup, "views") {
                    let mut c = Instrument::new().name(s(v, "name").to_string()).unit(real_unit(s(v, "unit")));
                    c.kind = match s(v, "kind") {
                        "" => None,
                        "counter" => Some(InstrumentKind::Counter),
                        "gauge" => Some(InstrumentKind::Gauge),
                        "hist" => Some(InstrumentKind::Histogram),
                        o => panic!("harness: kind {o}"),
                    };
                    if !s(v, "scope").is_empty() {
                        c = c.scope(InstrumentationScope::builder(s(v, "scope").to_string()).build());
                    }
                    let mut m = Stream::new().name(s(v, "to").to_string()).description(s(v, "todesc").to_string()).unit(s(v, "tounit").to_string());
                    let keep: Vec<String> = arr(v, "keep").iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    if keep != ["*"] {
                        m = m.allowed_attribute_keys(keep.into_iter().map(Key::from));
                    }
                    if n(v, "lim") > 0 {
                        m = m.cardinality_limit(n(v, "lim") as usize);
                    }
                    m = match s(v, "agg") {
                        "" => m,
                        "drop" => m.aggregation(Aggregation::Drop),
                        "sum" => m.aggregation(Aggregation::Sum),
                        h => m.aggregation(Aggregation::ExplicitBucketHistogram {
                            boundaries: bounds(h.strip_prefix("hist:").expect("harness: agg"), self.table("f64")),
                            record_min_max: true,
                        }),
                    };
                    pb = pb.with_view(new_view(c, m).expect("harness: view"));
                }
                self.provider = Some(pb.build());
                for i in 1..=arr(&self.setup, "insts").len() {
                    if !b(&arr(&self.setup, "insts")[i - 1], "late") {
                        self.create(i);
                    }
                }
                json!({"ok": true})
            }
            "m_create" => {
                self.create(n(st, "i") as usize);
                json!({"ok": true})
            }
            "m_obs" => {
                let l = arr(st, "lists")
                    .iter()
                    .map(|l| l.as_array().unwrap().iter().map(|t| t.as_str().unwrap().to_string()).collect())
                    .collect();
                self.lists.insert(n(st, "i") as usize, l);
                json!({"ok": true})
            }
            "m_rec" => {
                let i = n(st, "i") as usize;
                let a = self.attrs(arr(st, "a"));
                let v = n(st, "v");
                let d = &arr(&self.setup, "insts")[i - 1];
                let f = if b(st, "rank") { self.table(s(d, "num"))[v as usize - 1] } else { to_f(v) };
                let w = if b(st, "rank") { f as i64 } else { v };
                match &self.insts[&i].handle {
                    Handle::Cu(x) => x.add(to_u(w), &a),
                    Handle::Cf(x) => x.add(f, &a),
                    Handle::Ui(x) => x.add(w, &a),
                    Handle::Uf(x) => x.add(f, &a),
                    Handle::Gu(x) => x.record(to_u(w), &a),
                    Handle::Gi(x) => x.record(w, &a),
                    Handle::Gf(x) => x.record(f, &a),
                    Handle::Hu(x) => x.record(to_u(w), &a),
                    Handle::Hf(x) => x.record(f, &a),
                    Handle::Obs => panic!("harness: recording on an observable"),
                }
                json!({"ok": true})
            }
            "m_collect" => self.collect(st),
            o => panic!("harness: op {o}"),
        }
    }
}
