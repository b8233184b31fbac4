//! Z01: the Zipkin exporter, over an HTTP client that records what it is given.
use crate::common::*;
use crate::m_otlp::{now, scope, span, Client};
use crate::m_resource::{lock_env, set_env};
use opentelemetry::KeyValue;
use opentelemetry_sdk::trace::SpanExporter;
use opentelemetry_sdk::Resource;
use opentelemetry_zipkin::ZipkinExporter;
use serde_json::{json, Value};

const ENDPOINT: &str = "OTEL_EXPORTER_ZIPKIN_ENDPOINT";

#[derive(Default)]
pub struct ZipkinSut {
    client: Client,
    exporter: Option<ZipkinExporter>,
}

/// The leaves of a JSON value, as the specification writes them.
fn leaves(path: &str, v: &Value, out: &mut Vec<String>) {
    let at = |k: &str| if path.is_empty() { k.to_string() } else { format!("{path}.{k}") };
    match v {
        Value::Object(m) => m.iter().for_each(|(k, x)| leaves(&at(k), x, out)),
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| leaves(&at(&(i + 1).to_string()), x, out)),
        Value::String(x) => out.push(format!("{path}=s:{x}")),
        Value::Number(x) => out.push(format!("{path}=n:{x}")),
        Value::Bool(x) => out.push(format!("{path}=b:{x}")),
        Value::Null => out.push(format!("{path}=null")),
    }
}
fn spans(body: &[u8]) -> Result<Vec<Vec<String>>, String> {
    let v: Value = serde_json::from_slice(body).map_err(|e| e.to_string())?;
    Ok(v.as_array().ok_or("not a list")?.iter().map(|x| {
        let mut l = vec![];
        leaves("", x, &mut l);
        l.sort();
        l
    }).collect())
}

impl Sut for ZipkinSut {
    fn step(&mut self, st: &Value) -> Value {
        match s(st, "op") {
            "zk_build" => {
                let _g = lock_env();
                let set = |x: &'static str| (s(st, x) != "<unset>").then(|| s(st, x));
                set_env(ENDPOINT, set("env"));
                let mut b = ZipkinExporter::builder();
                if let Some(c) = set("code") {
                    b = b.with_collector_endpoint(c);
                }
                if !s(st, "addr").is_empty() {
                    b = b.with_service_address(s(st, "addr").parse().expect("harness: address"));
                }
                if st["client"] == json!(true) {
                    b = b.with_http_client(self.client.clone());
                }
                self.exporter = b.build().ok();
                set_env(ENDPOINT, None);
                json!({"built": self.exporter.is_some()})
            }
            "zk_resource" => {
                let mut r = Resource::builder_empty().with_attribute(KeyValue::new("host.name", "h"));
                if s(st, "service") != "<unset>" {
                    r = r.with_attribute(KeyValue::new("service.name", s(st, "service").to_string()));
                }
                self.exporter.as_mut().expect("harness: no exporter").set_resource(&r.build());
                json!({"ok": true})
            }
            "zk_export" => {
                let batch = arr(st, "items").iter().map(|i| span(scope(&i["sc"]), &i["x"])).collect();
                self.client.answer(s(st, "answer"));
                let r = now(self.exporter.as_ref().expect("harness: no exporter").export(batch));
                let sent = self.client.take();
                let Some(q) = sent.last() else { return json!({"sent": 0}) };
                let want: Vec<Vec<String>> = arr(st, "want").iter().map(|w| {
                    let mut l: Vec<String> = w.as_array().unwrap().iter().map(|x| x.as_str().unwrap().to_string()).collect();
                    l.sort();
                    l
                }).collect();
                let got = spans(q.body());
                json!({
                    "ok": r.is_ok(),
                    "sent": sent.len(),
                    "method": q.method().as_str(),
                    "url": q.uri().to_string(),
                    "ctype": q.headers().get("content-type").and_then(|v| v.to_str().ok()),
                    "spans": if got.as_ref() == Ok(&want) { json!("as wanted") } else { json!(format!("{got:?}")) },
                })
            }
            o => panic!("harness: op {o}"),
        }
    }
}
