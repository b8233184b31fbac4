//! M05: exponential histograms.
use crate::common::*;
use crate::m_metrics::{pref, set_name, Rdr};
use opentelemetry::metrics::{Counter, Gauge, Histogram, MeterProvider, UpDownCounter};
use opentelemetry::KeyValue;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, ExponentialBucket, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{Aggregation, Instrument, ManualReader, SdkMeterProvider, Stream, Temporality};
use serde_json::{json, Map, Value};
use std::sync::Arc;

enum H {
    Cf(Counter<f64>),
    Ui(UpDownCounter<i64>),
    Gi(Gauge<i64>),
    Hu(Histogram<u64>),
    Hf(Histogram<f64>),
}
pub struct ExpoSut {
    provider: Option<SdkMeterProvider>,
    readers: Vec<Rdr>,
    h: Option<H>,
    setup: Value,
    rms: Vec<ResourceMetrics>,
}
impl ExpoSut {
    pub fn new() -> Self {
        ExpoSut { provider: None, readers: vec![], h: None, setup: Value::Null, rms: vec![] }
    }
    fn collect(&mut self, st: &Value) -> Value {
        let r = n(st, "r") as usize - 1;
        if let Err(e) = self.readers[r].collect(&mut self.rms[r]) {
            return json!({"err": format!("{e:?}")});
        }
        let size = n(&self.setup, "size") as usize;
        let mut pts = Map::new();
        let mut temp = json!("");
        for m in self.rms[r].scope_metrics.iter().flat_map(|s| s.metrics.iter()) {
            macro_rules! data {
                ($d:expr) => {
                    match $d {
                        MetricData::ExponentialHistogram(x) => {
                            temp = match x.temporality {
                                Temporality::Delta => json!("delta"),
                                Temporality::Cumulative => json!("cum"),
                                _ => json!("low"),
                            };
                            for p in &x.data_points {
                                let k = set_name(&p.attributes);
                                let e = &st["exp"]["pts"][&k];
                                let close = |f: f64| -> Value {
                                    let q = e["s"].as_array().cloned().unwrap_or_default();
                                    let (mut t, mut mag) = (0.0, 0.0f64);
                                    for v in &q {
                                        let v = number(v);
                                        t += v;
                                        mag = mag.max(v.abs());
                                    }
                                    if (f - t).abs() <= 1e-9 * mag * q.len() as f64 || (t.is_infinite() && !f.is_finite()) || (t.is_nan() && !f.is_finite()) {
                                        json!(q)
                                    } else {
                                        json!({"sum": f, "expected": t})
                                    }
                                };
                                let extreme = |v: Option<f64>, e: &Value| match v {
                                    None => json!({"sg": 0, "i": 0, "p": "zero", "v": 0}),
                                    Some(f) if f == number(e) => e.clone(),
                                    Some(f) => json!(f),
                                };
                                let got = json!({
                                    "c": p.count, "z": p.zero_count,
                                    "scale": if p.count as u64 == p.zero_count && e["scale"] == 99 { json!(99) } else { json!(p.scale) },
                                    "pos": buckets(&p.positive_bucket), "neg": buckets(&p.negative_bucket),
                                    "fits": p.positive_bucket.counts.len() <= size && p.negative_bucket.counts.len() <= size && p.zero_threshold == 0.0,
                                    "mn": extreme(p.min.map(|v| v as f64), &e["mn"]), "mx": extreme(p.max.map(|v| v as f64), &e["mx"]),
                                    "s": close(p.sum as f64),
                                });
                                let k = if pts.contains_key(&k) { format!("{k} twice") } else { k };
                                pts.insert(k, got);
                            }
                        }
                        _ => temp = json!("not an exponential histogram"),
                    }
                };
            }
            match &m.data {
                AggregatedMetrics::F64(d) => data!(d),
                AggregatedMetrics::U64(d) => data!(d),
                AggregatedMetrics::I64(d) => data!(d),
            }
        }
        json!({"pts": obj(pts), "temp": temp})
    }
}
/// TLC writes a function with an empty domain as an empty list.
fn obj(m: Map<String, Value>) -> Value {
    if m.is_empty() {
        json!([])
    } else {
        Value::Object(m)
    }
}
fn buckets(b: &ExponentialBucket) -> Value {
    let mut m = Map::new();
    for (i, c) in b.counts.iter().enumerate() {
        if *c > 0 {
            m.insert((b.offset as i64 + i as i64).to_string(), json!(c));
        }
    }
    obj(m)
}
fn number(v: &Value) -> f64 {
    let sg = v["sg"].as_i64().unwrap() as f64;
    match s(v, "p") {
        "zero" => 0.0,
        "negzero" => -0.0,
        "nan" => f64::NAN,
        "inf" => f64::INFINITY,
        "-inf" => f64::NEG_INFINITY,
        "mid" => sg * ((v["i"].as_i64().unwrap() as f64 + 0.5) / 1048576.0).exp2(),
        "pow" => {
            let k = v["v"].as_i64().unwrap();
            sg * if k < -1022 { f64::from_bits(1u64 << (k + 1074)) } else { f64::from_bits(((k + 1023) as u64) << 52) }
        }
        "int" => sg * v["v"].as_i64().unwrap() as f64,
        o => panic!("harness: value {o}"),
    }
}
impl Sut for ExpoSut {
    fn step(&mut self, st: &Value) -> Value {
        match s(st, "op") {
            "e_init" => {
                self.setup = st["setup"].clone();
                let (size, max, mm) = (n(&self.setup, "size") as u32, self.setup["max"].as_i64().unwrap() as i8, b(&self.setup, "mm"));
                let mut pb = SdkMeterProvider::builder().with_view(move |_: &Instrument| {
                    Some(Stream::new().aggregation(Aggregation::Base2ExponentialHistogram {
                        max_size: size,
                        max_scale: max,
                        record_min_max: mm,
                    }))
                });
                for r in ["cum", "delta"] {
                    let rd = Rdr(Arc::new(ManualReader::builder().with_temporality(pref(r)).build()));
                    self.readers.push(rd.clone());
                    self.rms.push(ResourceMetrics {
                        resource: opentelemetry_sdk::Resource::builder_empty().build(),
                        scope_metrics: vec![],
                    });
                    pb = pb.with_reader(rd);
                }
                let p = pb.build();
                let m = p.meter("m");
                self.h = Some(match (s(&self.setup, "kind"), s(&self.setup, "num")) {
                    ("hist", "f64") => H::Hf(m.f64_histogram("h").build()),
                    ("hist", "u64") => H::Hu(m.u64_histogram("h").build()),
                    ("updown", "i64") => H::Ui(m.i64_up_down_counter("h").build()),
                    ("gauge", "i64") => H::Gi(m.i64_gauge("h").build()),
                    ("counter", "f64") => H::Cf(m.f64_counter("h").build()),
                    o => panic!("harness: instrument {o:?}"),
                });
                self.provider = Some(p);
                json!({"ok": true})
            }
            "e_rec" => {
                let a: Vec<KeyValue> = if s(st, "a").is_empty() { vec![] } else { vec![KeyValue::new("a", 1i64)] };
                let f = number(&st["v"]);
                match self.h.as_ref().unwrap() {
                    H::Cf(x) => x.add(f, &a),
                    H::Hf(x) => x.record(f, &a),
                    H::Hu(x) => x.record(f as u64, &a),
                    H::Ui(x) => x.add(f as i64, &a),
                    H::Gi(x) => x.record(f as i64, &a),
                }
                json!({"ok": true})
            }
            "e_collect" => self.collect(st),
            o => panic!("harness: op {o}"),
        }
    }
}
