//! R01: building resources, and handing them to exporters.
use crate::common::*;
use crate::m_metrics::Rdr;
use crate::m_proc::{HRt, Run};
use opentelemetry::logs::{LogRecord as _, Logger, LoggerProvider};
use opentelemetry::metrics::MeterProvider;
use opentelemetry::trace::{Span as _, Tracer, TracerProvider};
use opentelemetry::KeyValue;
use opentelemetry_sdk::error::OTelSdkResult;
use opentelemetry_sdk::logs::{self, LogBatch, LogExporter, SdkLoggerProvider};
use opentelemetry_sdk::metrics::data::ResourceMetrics;
use opentelemetry_sdk::metrics::exporter::PushMetricExporter;
use opentelemetry_sdk::metrics::reader::MetricReader;
use opentelemetry_sdk::metrics::{ManualReader, PeriodicReader, SdkMeterProvider, Temporality};
use opentelemetry_sdk::resource::{EnvResourceDetector, ResourceDetector, SdkProvidedResourceDetector, TelemetryResourceDetector};
use opentelemetry_sdk::trace::{self, SdkTracerProvider, SpanData, SpanExporter};
use opentelemetry_sdk::Resource;
use serde_json::{json, Value};
use std::sync::{Arc, Mutex, MutexGuard};
use std::time::Duration;

static ENV: Mutex<()> = Mutex::new(());
/// The environment belongs to the process: one behaviour at a time.
pub fn lock_env() -> MutexGuard<'static, ()> {
    ENV.lock().unwrap_or_else(|p| p.into_inner())
}
pub fn set_env(k: &str, v: Option<&str>) {
    match v {
        Some(v) => std::env::set_var(k, v),
        None => std::env::remove_var(k),
    }
}

const KEYS: [&str; 6] = ["a", "b", "service.name", "telemetry.sdk.name", "telemetry.sdk.language", "telemetry.sdk.version"];
fn obs(r: &Resource) -> Value {
    let mut m = serde_json::Map::new();
    for k in KEYS {
        let v = match r.get(&k.into()) {
            None => "-".to_string(),
            Some(v) if k.ends_with("version") && v.as_str().starts_with(|c: char| c.is_ascii_digit()) => "VERSION".into(),
            Some(v) => v.as_str().to_string(),
        };
        m.insert(k.into(), json!(v));
    }
    let listed = r.iter().count();
    let known = KEYS.iter().filter(|k| r.iter().any(|(x, _)| x.as_str() == **k)).count();
    if listed != known || r.len() != known || r.is_empty() != (known == 0) || m.values().filter(|v| *v != "-").count() != known {
        return json!(format!("iter and get disagree: {r:?}"));
    }
    if r.schema_url() == Some("") {
        return json!("empty schema URL");
    }
    json!({"attrs": m, "url": r.schema_url().unwrap_or("")})
}
fn kvs(v: &Value) -> Vec<KeyValue> {
    v.as_array().unwrap().iter().map(|x| KeyValue::new(s(x, "k").to_string(), s(x, "v").to_string())).collect()
}
struct Own(Vec<KeyValue>, String);
impl ResourceDetector for Own {
    fn detect(&self) -> Resource {
        let b = Resource::builder_empty();
        if self.1.is_empty() {
            b.with_attributes(self.0.clone()).build()
        } else {
            b.with_schema_url(self.0.clone(), self.1.clone()).build()
        }
    }
}
fn detector(v: &Value) -> Box<dyn ResourceDetector> {
    match s(v, "d") {
        "own" => Box::new(Own(kvs(&v["kvs"]), s(v, "url").to_string())),
        "env" => Box::new(EnvResourceDetector::new()),
        "sdk" => Box::new(SdkProvidedResourceDetector),
        "telemetry" => Box::new(TelemetryResourceDetector),
        o => panic!("harness: detector {o}"),
    }
}

/// Remembers the resource it has when it first exports.
#[derive(Debug, Clone, Default)]
struct Exp(Arc<Mutex<(Option<Value>, Option<Value>)>>);
impl Exp {
    fn set(&self, r: &Resource) {
        self.0.lock().unwrap().0 = Some(obs(r));
    }
    fn exported(&self) {
        let mut g = self.0.lock().unwrap();
        if g.1.is_none() {
            g.1 = Some(g.0.clone().unwrap_or(json!("no resource at the first export")));
        }
    }
    fn seen(&self) -> Value {
        self.0.lock().unwrap().1.clone().unwrap_or(json!("nothing was exported"))
    }
}
impl SpanExporter for Exp {
    async fn export(&self, _b: Vec<SpanData>) -> OTelSdkResult {
        self.exported();
        Ok(())
    }
    fn set_resource(&mut self, r: &Resource) {
        self.set(r);
    }
}
impl LogExporter for Exp {
    async fn export(&self, _b: LogBatch<'_>) -> OTelSdkResult {
        self.exported();
        Ok(())
    }
    fn set_resource(&mut self, r: &Resource) {
        self.set(r);
    }
}
impl PushMetricExporter for Exp {
    async fn export(&self, m: &mut ResourceMetrics) -> OTelSdkResult {
        self.set(&m.resource);
        self.exported();
        Ok(())
    }
    fn force_flush(&self) -> OTelSdkResult {
        Ok(())
    }
    fn shutdown_with_timeout(&self, _t: Duration) -> OTelSdkResult {
        Ok(())
    }
    fn temporality(&self) -> Temporality {
        Temporality::Cumulative
    }
}

fn provide(rs: &[Resource]) -> Value {
    use opentelemetry_sdk::logs::log_processor_with_async_runtime::BatchLogProcessor as ALog;
    use opentelemetry_sdk::trace::span_processor_with_async_runtime::BatchSpanProcessor as ASpan;
    let run = Arc::new(Run::default());
    let e: Vec<Exp> = (0..7).map(|_| Exp::default()).collect();
    let mut tb = SdkTracerProvider::builder()
        .with_simple_exporter(e[0].clone())
        .with_span_processor(trace::BatchSpanProcessor::builder(e[1].clone()).build())
        .with_span_processor(ASpan::builder(e[2].clone(), HRt { run: run.clone() }).build());
    let mut lb = SdkLoggerProvider::builder()
        .with_simple_exporter(e[3].clone())
        .with_log_processor(logs::BatchLogProcessor::builder(e[4].clone()).build())
        .with_log_processor(ALog::builder(e[5].clone(), HRt { run: run.clone() }).build());
    let rd = Rdr(Arc::new(ManualReader::builder().build()));
    let mut mb = SdkMeterProvider::builder()
        .with_reader(Rdr(rd.0.clone()))
        .with_reader(PeriodicReader::builder(e[6].clone()).with_interval(Duration::from_secs(3600)).build());
    for r in rs {
        tb = tb.with_resource(r.clone());
        lb = lb.with_resource(r.clone());
        mb = mb.with_resource(r.clone());
    }
    let (tp, lp, mp) = (tb.build(), lb.build(), mb.build());
    tp.tracer("t").start("s").end();
    let l = lp.logger("l");
    let mut rec = l.create_log_record();
    rec.set_body("x".into());
    l.emit(rec);
    mp.meter("m").u64_counter("c").build().add(1, &[]);
    let mut rm = ResourceMetrics { resource: Resource::builder_empty().build(), scope_metrics: vec![] };
    rd.collect(&mut rm).unwrap();
    let flushed = [tp.force_flush().is_ok(), lp.force_flush().is_ok(), mp.force_flush().is_ok()];
    let down = [tp.shutdown().is_ok(), lp.shutdown().is_ok(), mp.shutdown().is_ok()];
    if flushed != [true; 3] || down != [true; 3] {
        return json!(format!("flush {flushed:?} shutdown {down:?}"));
    }
    json!({"simple": e[0].seen(), "batch": e[1].seen(), "abatch": e[2].seen(), "logs": e[3].seen(), "logbatch": e[4].seen(),
           "alogbatch": e[5].seen(), "periodic": e[6].seen(), "reader": obs(&rm.resource)})
}

#[derive(Default)]
pub struct ResSut {
    ops: Vec<Value>,
    _env: Option<MutexGuard<'static, ()>>,
}
impl ResSut {
    fn built(&self) -> Resource {
        let mut it = self.ops.iter();
        let mut b = match s(it.next().unwrap(), "mode") {
            "default" => Resource::builder(),
            _ => Resource::builder_empty(),
        };
        for o in it {
            b = match s(o, "op") {
                "attrs" => match kvs(&o["kvs"]) {
                    v if v.len() == 1 => b.with_attribute(v[0].clone()),
                    v => b.with_attributes(v),
                },
                "service" => b.with_service_name(s(o, "v").to_string()),
                "schema" => b.with_schema_url(kvs(&o["kvs"]), s(o, "url").to_string()),
                "detect" => match arr(o, "ds") {
                    d if d.len() == 1 => b.with_detector(detector(&d[0])),
                    d => b.with_detectors(&d.iter().map(detector).collect::<Vec<_>>()),
                },
                x => panic!("harness: {x}"),
            };
        }
        b.build()
    }
}
impl Sut for ResSut {
    fn step(&mut self, st: &Value) -> Value {
        match s(st, "op") {
            "init" => {
                self._env = Some(lock_env());
                set_env("OTEL_SERVICE_NAME", Some(s(st, "sn")).filter(|v| *v != "-"));
                let ra: Vec<&str> = arr(st, "ra").iter().map(|x| x.as_str().unwrap()).collect();
                set_env("OTEL_RESOURCE_ATTRIBUTES", Some(ra.join(",").as_str()).filter(|_| !ra.is_empty()));
            }
            "provide" => {
                let mut rs = vec![self.built()];
                rs.extend(arr(st, "second").iter().map(|d| detector(d).detect()));
                return provide(&rs);
            }
            "provide_default" => return provide(&[]),
            _ => {}
        }
        self.ops.push(st.clone());
        obs(&self.built())
    }
    fn finish(&mut self) -> Option<String> {
        set_env("OTEL_SERVICE_NAME", None);
        set_env("OTEL_RESOURCE_ATTRIBUTES", None);
        None
    }
}
