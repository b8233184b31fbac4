//! M01, M03, M04, M06, M09 under concurrency: threads record, create instruments and collect
//! while a schedule decides who goes on; the trace is judged by spec/MeterTrace.tla.
use crate::m_metrics::{attr, pref, set_name, Rdr};
use crate::sched::{self, Rng, Sched};
use opentelemetry::metrics::{Counter, Gauge, Histogram, Meter, MeterProvider, UpDownCounter};
use opentelemetry::KeyValue;
use opentelemetry_sdk::metrics::data::{AggregatedMetrics, MetricData, ResourceMetrics};
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{Aggregation, Instrument, ManualReader, SdkMeterProvider, Stream};
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering};
use std::sync::{Arc, Barrier, Mutex};
use std::time::Duration;

#[derive(Clone)]
enum H {
    Cu(Counter<u64>),
    Cf(Counter<f64>),
    Ui(UpDownCounter<i64>),
    Uf(UpDownCounter<f64>),
    Gu(Gauge<u64>),
    Gi(Gauge<i64>),
    Gf(Gauge<f64>),
    Hu(Histogram<u64>),
    Hf(Histogram<f64>),
}
struct Inst {
    name: String,
    kind: String,
    limit: usize,
    next: AtomicUsize,
    /// the value of each measurement, by its number
    vals: Mutex<Vec<f64>>,
}
struct Run {
    log: Mutex<Vec<Value>>,
    insts: Vec<Inst>,
    provider: SdkMeterProvider,
    shared: Vec<H>,
    fresh: bool,
    calls: AtomicUsize,
    readers: Vec<(Rdr, Mutex<ResourceMetrics>, bool)>,
}
const BOUNDS: [f64; 6] = [1.0, 2.0, 7.0, 64.0, 1000.0, 1e7];

fn make(m: &Meter, i: &Inst, variant: usize) -> H {
    // names differing only by case are one instrument
    let name = if variant % 2 == 1 { i.name.to_uppercase() } else { i.name.clone() };
    macro_rules! b {
        ($b:expr) => {
            if i.limit > 0 { $b.with_cardinality_limit(i.limit).build() } else { $b.build() }
        };
    }
    match i.kind.as_str() {
        "cu" => H::Cu(b!(m.u64_counter(name))),
        "cf" => H::Cf(b!(m.f64_counter(name))),
        "ui" => H::Ui(b!(m.i64_up_down_counter(name))),
        "uf" => H::Uf(b!(m.f64_up_down_counter(name))),
        "gu" => H::Gu(b!(m.u64_gauge(name))),
        "gi" => H::Gi(b!(m.i64_gauge(name))),
        "gf" => H::Gf(b!(m.f64_gauge(name))),
        "hu" | "eu" => H::Hu(b!(m.u64_histogram(name).with_boundaries(BOUNDS.to_vec()))),
        "hf" | "ef" => H::Hf(b!(m.f64_histogram(name).with_boundaries(BOUNDS.to_vec()))),
        o => panic!("harness: kind {o}"),
    }
}
fn gauge(k: &str) -> bool {
    k.starts_with('g')
}
fn value(kind: &str, k: usize) -> f64 {
    match kind {
        "gi" | "gf" if k % 2 == 1 => -(k as f64 + 1.0),
        "gu" | "gi" | "gf" => k as f64 + 1.0,
        "ui" | "uf" if k % 2 == 1 => -((1u64 << k) as f64),
        _ => (1u64 << k) as f64,
    }
}
/// The measurements a sum is made of (None: of no set of them).
fn decode(i: &Inst, sum: f64) -> Option<Vec<usize>> {
    let vals = i.vals.lock().unwrap().clone();
    let neg: i128 = vals.iter().filter(|v| **v < 0.0).map(|v| -*v as i128).sum();
    if sum.fract() != 0.0 || sum.abs() > 1e17 {
        return None;
    }
    let mut rest = sum as i128 + neg;
    let mut out = vec![];
    for (k, v) in vals.iter().enumerate() {
        let bit = rest & (1i128 << k) != 0;
        if bit {
            rest &= !(1i128 << k);
        }
        if bit == (*v > 0.0) {
            out.push(k);
        }
    }
    (rest == 0).then_some(out)
}
const GROW: usize = 1000;

impl Run {
    fn ev(&self, v: Value) {
        self.log.lock().unwrap().push(v);
    }
    fn rec(&self, ii: usize, h: &H, set: &str) {
        let i = &self.insts[ii];
        let c = self.calls.fetch_add(1, Ordering::SeqCst);
        let mut toks: Vec<&str> = set.split(';').filter(|t| !t.is_empty()).collect();
        if c % 3 == 1 {
            toks.reverse(); // the order of the attributes does not matter
        }
        let a: Vec<KeyValue> = toks.iter().map(|t| attr(t, c % 2 == 0)).collect();
        let (m, v) = {
            let mut vals = i.vals.lock().unwrap();
            let k = i.next.fetch_add(1, Ordering::SeqCst);
            assert!(k < 48, "harness: too many measurements");
            let v = value(&i.kind, k);
            vals.push(v);
            (ii * GROW + k, v)
        };
        self.ev(json!({"e": "rec", "m": m, "i": i.name, "s": set_name(&{ let mut s = a.clone(); s.sort_by(|x, y| x.key.cmp(&y.key)); s })}));
        match h {
            H::Cu(x) => x.add(v as u64, &a),
            H::Cf(x) => x.add(v, &a),
            H::Ui(x) => x.add(v as i64, &a),
            H::Uf(x) => x.add(v, &a),
            H::Gu(x) => x.record(v as u64, &a),
            H::Gi(x) => x.record(v as i64, &a),
            H::Gf(x) => x.record(v, &a),
            H::Hu(x) => x.record(v as u64, &a),
            H::Hf(x) => x.record(v, &a),
        }
        self.ev(json!({"e": "recd", "m": m}));
    }
    fn collect(&self, r: usize) {
        let (rd, rm, reuse) = &self.readers[r];
        let mut fresh = ResourceMetrics { resource: opentelemetry_sdk::Resource::builder_empty().build(), scope_metrics: vec![] };
        let mut kept = rm.lock().unwrap();
        let rm = if *reuse { &mut *kept } else { &mut fresh };
        self.ev(json!({"e": "col", "r": format!("r{r}")}));
        let res = rd.collect(rm);
        let mut bad: Vec<String> = vec![];
        let mut out: Vec<Value> = vec![];
        if let Err(e) = res {
            bad.push(format!("{e:?}"));
        }
        let mut names: Vec<String> = vec![];
        for sm in &rm.scope_metrics {
            for m in &sm.metrics {
                let name = m.name.to_lowercase();
                let Some((ii, i)) = self.insts.iter().enumerate().find(|x| x.1.name == name) else {
                    bad.push(format!("unknown metric {name}"));
                    continue;
                };
                if names.contains(&name) {
                    bad.push(format!("metric {name} twice"));
                }
                names.push(name.clone());
                let mut line = |set: &[KeyValue], ids: Option<Vec<usize>>, what: String| {
                    let mut a = set.to_vec();
                    a.sort_by(|x, y| x.key.cmp(&y.key));
                    match ids {
                        Some(ids) => out.push(json!({"i": i.name, "s": set_name(&a),
                            "m": ids.iter().map(|k| ii * GROW + k).collect::<Vec<_>>()})),
                        None => bad.push(what),
                    }
                };
                macro_rules! data {
                    ($d:expr) => {
                        match $d {
                            MetricData::Sum(x) if !gauge(&i.kind) => {
                                for p in &x.data_points {
                                    line(&p.attributes, decode(i, p.value as f64), format!("sum {}", p.value));
                                }
                            }
                            MetricData::Gauge(x) if gauge(&i.kind) => {
                                for p in &x.data_points {
                                    let k = i.vals.lock().unwrap().iter().position(|v| *v == p.value as f64);
                                    line(&p.attributes, k.map(|k| vec![k]), format!("gauge {}", p.value));
                                }
                            }
                            MetricData::Histogram(x) => {
                                for p in &x.data_points {
                                    let mut ids = decode(i, p.sum as f64);
                                    let mut why = format!("histogram {p:?}");
                                    if let Some(v) = &ids {
                                        let vs: Vec<f64> = v.iter().map(|k| value(&i.kind, *k)).collect();
                                        let mut b = vec![0u64; BOUNDS.len() + 1];
                                        for f in &vs {
                                            b[BOUNDS.iter().position(|u| f <= u).unwrap_or(BOUNDS.len())] += 1;
                                        }
                                        let mn = vs.iter().copied().fold(f64::INFINITY, f64::min);
                                        let mx = vs.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                                        if p.count as usize != vs.len() || p.bucket_counts != b
                                            || (!vs.is_empty() && (p.min.map(|v| v as f64) != Some(mn) || p.max.map(|v| v as f64) != Some(mx)))
                                        {
                                            why = format!("histogram inconsistent {p:?}");
                                            ids = None;
                                        }
                                    }
                                    line(&p.attributes, ids, why);
                                }
                            }
                            MetricData::ExponentialHistogram(x) => {
                                for p in &x.data_points {
                                    let mut ids = decode(i, p.sum as f64);
                                    if let Some(v) = &ids {
                                        let vs: Vec<f64> = v.iter().map(|k| value(&i.kind, *k)).collect();
                                        let mn = vs.iter().copied().fold(f64::INFINITY, f64::min);
                                        let mx = vs.iter().copied().fold(f64::NEG_INFINITY, f64::max);
                                        let n: u64 = p.positive_bucket.counts.iter().sum::<u64>() + p.zero_count;
                                        if p.count as usize != vs.len() || n as usize != vs.len()
                                            || (!vs.is_empty() && (p.min.map(|v| v as f64) != Some(mn) || p.max.map(|v| v as f64) != Some(mx)))
                                        {
                                            ids = None;
                                        }
                                    }
                                    line(&p.attributes, ids, format!("exponential histogram {p:?}"));
                                }
                            }
                            _ => bad.push(format!("kind of data of {name}")),
                        }
                    };
                }
                match &m.data {
                    AggregatedMetrics::F64(d) => data!(d),
                    AggregatedMetrics::U64(d) => data!(d),
                    AggregatedMetrics::I64(d) => data!(d),
                }
            }
        }
        self.ev(json!({"e": "cold", "r": format!("r{r}"), "out": out, "bad": bad}));
    }
}

fn run_scenario(c: &Value) -> Value {
    let mut pb = SdkMeterProvider::builder();
    let mut readers = vec![];
    let mut rdrs = serde_json::Map::new();
    for (k, r) in c["readers"].as_array().unwrap().iter().enumerate() {
        let rd = Rdr(Arc::new(ManualReader::builder().with_temporality(pref(r["pref"].as_str().unwrap())).build()));
        pb = pb.with_reader(rd.clone());
        let rm = ResourceMetrics { resource: opentelemetry_sdk::Resource::builder_empty().build(), scope_metrics: vec![] };
        readers.push((rd, Mutex::new(rm), r["reuse"] == true));
        rdrs.insert(format!("r{k}"), r["temp"].clone());
    }
    let mut insts = vec![];
    let mut cfg = serde_json::Map::new();
    for (k, i) in c["insts"].as_array().unwrap().iter().enumerate() {
        let kind = i["kind"].as_str().unwrap().to_string();
        let name = format!("i{k}{}", &kind[..1]);
        let limit = i["limit"].as_u64().unwrap_or(0) as usize;
        cfg.insert(name.clone(), json!({"gauge": gauge(&kind), "limit": if limit == 0 { 2000 } else { limit }}));
        insts.push(Inst { name, kind, limit, next: AtomicUsize::new(0), vals: Mutex::new(vec![]) });
    }
    for r in rdrs.values_mut() {
        // the reader's temporality is given by kind; the trace wants it by instrument
        let by: serde_json::Map<String, Value> =
            insts.iter().map(|i| (i.name.clone(), r[&i.kind[..1]].clone())).collect();
        *r = Value::Object(by);
    }
    let expo: HashMap<String, usize> = insts.iter().filter(|i| i.kind.starts_with('e')).map(|i| (i.name.clone(), i.limit)).collect();
    if !expo.is_empty() {
        pb = pb.with_view(move |i: &Instrument| {
            let l = *expo.get(&i.name.to_lowercase())?;
            let s = Stream::new().name(i.name.clone()).aggregation(Aggregation::Base2ExponentialHistogram { max_size: 8, max_scale: 20, record_min_max: true });
            Some(if l > 0 { s.cardinality_limit(l) } else { s })
        });
    }
    let provider = pb.build();
    let fresh = c["fresh"] == true;
    let meter = provider.meter("m");
    let shared = if fresh { vec![] } else { insts.iter().map(|i| make(&meter, i, 0)).collect() };
    let run = Arc::new(Run {
        log: Mutex::new(vec![]),
        insts,
        provider,
        shared,
        fresh,
        calls: AtomicUsize::new(c["seed"].as_u64().unwrap_or(0) as usize % 6),
        readers,
    });
    run.ev(json!({"e": "cfg", "insts": cfg, "rdrs": rdrs}));
    let controlled = c["free"] != true;
    let s = controlled.then(Sched::install);
    let progs: Vec<(String, Vec<Value>)> =
        c["prog"].as_object().unwrap().iter().map(|(k, v)| (k.clone(), v.as_array().unwrap().clone())).collect();
    let names: Vec<String> = progs.iter().map(|p| p.0.clone()).collect();
    if let Some(s) = &s {
        names.iter().for_each(|n| s.announce(n));
    }
    let barrier = Arc::new(Barrier::new(names.len()));
    let panicked = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    for (t, (name, ops)) in progs.into_iter().enumerate() {
        let (run, s, barrier, panicked) = (run.clone(), s.clone(), barrier.clone(), panicked.clone());
        hs.push(std::thread::spawn(move || {
            match &s {
                Some(s) => s.enter(&name),
                None => {
                    barrier.wait();
                }
            }
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                let mut own: HashMap<usize, H> = HashMap::new();
                for op in &ops {
                    match op[0].as_str().unwrap() {
                        "rec" => {
                            let i = op[1].as_u64().unwrap() as usize;
                            if run.fresh {
                                if !own.contains_key(&i) {
                                    let m = run.provider.meter("m");
                                    own.insert(i, make(&m, &run.insts[i], t));
                                }
                                run.rec(i, &own[&i], op[2].as_str().unwrap());
                            } else {
                                run.rec(i, &run.shared[i], op[2].as_str().unwrap());
                            }
                        }
                        "col" => run.collect(op[1].as_u64().unwrap() as usize),
                        o => panic!("harness: op {o}"),
                    }
                    sched::point("next");
                }
            }));
            if r.is_err() {
                panicked.store(true, Ordering::SeqCst);
            }
            if let Some(s) = &s {
                s.done();
            }
        }));
    }
    let mut ok = true;
    if let Some(s) = &s {
        let plan: Vec<String> =
            c["sched"].as_array().map(|a| a.iter().map(|x| x.as_str().unwrap().to_string()).collect()).unwrap_or_default();
        let mut rng = Rng(c["seed"].as_u64().unwrap_or(1));
        ok = s.run(&names, &plan, &mut rng, Duration::from_secs(15), &|| ());
        s.free();
    }
    if !ok {
        run.ev(json!({"e": "hang"}));
    } else {
        hs.into_iter().for_each(|h| h.join().unwrap());
        if panicked.load(Ordering::SeqCst) {
            run.ev(json!({"e": "panic"}));
        }
        // everything is reported in the end, and a second time only what is cumulative
        for _ in 0..2 {
            for r in 0..run.readers.len() {
                run.collect(r);
            }
        }
        run.ev(json!({"e": "end"}));
    }
    Sched::uninstall();
    let l = run.log.lock().unwrap().clone();
    Value::Array(l)
}

pub fn record(args: &Value) -> Vec<Value> {
    let text = std::fs::read_to_string(args["file"].as_str().unwrap()).unwrap();
    crate::m_proc::until_hung(text.lines().map(|l| run_scenario(&serde_json::from_str(l).unwrap())))
}
