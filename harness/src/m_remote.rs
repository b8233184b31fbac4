//! T07: the Jaeger remote sampler, over a client that answers as told, a runtime whose task the
//! harness polls and whose delays it ends, and a clock the harness sets.
use crate::common::*;
use crate::m_otlp::Client;
use opentelemetry::trace::{SpanContext, SpanId, SpanKind, SamplingDecision, TraceContextExt, TraceFlags, TraceId, TraceState};
use opentelemetry::{Context, KeyValue};
use opentelemetry_http::{Bytes, Request};
use opentelemetry_sdk::runtime::{Runtime, RuntimeChannel, Tokio};
use opentelemetry_sdk::trace::{Sampler, ShouldSample};
use serde_json::{json, Value};
use std::fmt::Debug;
use std::future::Future;
use std::pin::Pin;
use std::str::FromStr;
use std::sync::{Arc, Mutex};
use std::task::{Context as TaskCx, Poll, Waker};
use std::time::{Duration, SystemTime};

type Task = Pin<Box<dyn Future<Output = ()> + Send>>;
#[derive(Default)]
struct Shared {
    task: Option<Task>,
    /// The delays asked for, and how many of them are over.
    delays: Vec<Duration>,
    over: usize,
}
#[derive(Clone, Default)]
struct Rt(Arc<Mutex<Shared>>);
struct Delay(Rt, usize);
impl Future for Delay {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut TaskCx<'_>) -> Poll<()> {
        if self.0 .0.lock().unwrap().over > self.1 { Poll::Ready(()) } else { Poll::Pending }
    }
}
impl Runtime for Rt {
    fn spawn<F: Future<Output = ()> + Send + 'static>(&self, f: F) {
        self.0.lock().unwrap().task = Some(Box::pin(f));
    }
    fn delay(&self, d: Duration) -> impl Future<Output = ()> + Send + 'static {
        let mut g = self.0.lock().unwrap();
        g.delays.push(d);
        Delay(self.clone(), g.delays.len() - 1)
    }
}
impl RuntimeChannel for Rt {
    type Receiver<T: Debug + Send> = <Tokio as RuntimeChannel>::Receiver<T>;
    type Sender<T: Debug + Send> = <Tokio as RuntimeChannel>::Sender<T>;
    fn batch_message_channel<T: Debug + Send>(&self, capacity: usize) -> (Self::Sender<T>, Self::Receiver<T>) {
        Tokio.batch_message_channel(capacity)
    }
}
impl Rt {
    /// Lets the task run until it waits; false once it has ended.
    fn run(&self) -> bool {
        let Some(mut t) = self.0.lock().unwrap().task.take() else { return false };
        match t.as_mut().poll(&mut TaskCx::from_waker(Waker::noop())) {
            Poll::Ready(()) => false,
            Poll::Pending => {
                self.0.lock().unwrap().task = Some(t);
                true
            }
        }
    }
}

#[derive(Default)]
pub struct RemoteSut {
    rt: Rt,
    client: Client,
    samplers: Vec<Sampler>,
}
impl Drop for RemoteSut {
    fn drop(&mut self) {
        opentelemetry::time::VERIF_NOW.set(None);
    }
}

/// A parent, its trace state a name for it.
fn parent(kind: &str) -> Option<Context> {
    let sc = |flags, remote, state: &str| {
        SpanContext::new(TraceId::from(7u128), SpanId::from(9u64), flags, remote, TraceState::from_str(state).unwrap())
    };
    match kind {
        "none" => None,
        "empty" => Some(Context::new()),
        "sampled" => Some(Context::new().with_remote_span_context(sc(TraceFlags::SAMPLED, false, "p=1"))),
        "unsampled" => Some(Context::new().with_remote_span_context(sc(TraceFlags::default(), true, "p=2"))),
        x => panic!("harness: parent {x}"),
    }
}

impl Sut for RemoteSut {
    fn step(&mut self, st: &Value) -> Value {
        match s(st, "op") {
            "jr_build" => {
                let default = match s(st, "default") {
                    "on" => Sampler::AlwaysOn,
                    "off" => Sampler::AlwaysOff,
                    "half" => Sampler::TraceIdRatioBased(0.5),
                    "parent" => Sampler::ParentBased(Box::new(Sampler::AlwaysOff)),
                    x => panic!("harness: default {x}"),
                };
                let mut bld = Sampler::jaeger_remote(self.rt.clone(), self.client.clone(), default, s(st, "service"))
                    .with_update_interval(Duration::from_millis(n(st, "interval") as u64));
                if s(st, "endpoint") != "<unset>" {
                    bld = bld.with_endpoint(s(st, "endpoint"));
                }
                if n(st, "bucket") >= 0 {
                    bld = bld.with_leaky_bucket_size(n(st, "bucket") as f64);
                }
                let built = bld.build();
                let ok = built.is_ok();
                if let Ok(x) = built {
                    self.samplers = vec![x];
                    self.rt.run();
                }
                json!({"built": ok, "sent": self.client.take().len()})
            }
            // the clock of the machine, in quarters of a second
            "jr_clock" => {
                opentelemetry::time::VERIF_NOW.set(Some(SystemTime::UNIX_EPOCH + Duration::from_millis(1_000_000 + 250 * n(st, "at") as u64)));
                json!({"ok": true})
            }
            "jr_clone" => {
                let x = self.samplers[0].clone();
                self.samplers.push(x);
                json!({"ok": true})
            }
            "jr_drop" => {
                self.samplers.remove(0);
                // what is told to stop is woken
                self.rt.run();
                json!({"ok": true})
            }
            // the interval is over
            "jr_due" => {
                self.rt.0.lock().unwrap().over += 1;
                let alive = self.rt.run();
                let sent = self.client.take();
                let delays = self.rt.0.lock().unwrap().delays.clone();
                let get = |r: &Request<Bytes>| r.method() == "GET" && r.body().is_empty();
                json!({"sent": sent.iter().map(|r| r.uri().to_string()).collect::<Vec<_>>(),
                       "get": sent.iter().all(get), "fetching": alive,
                       "interval": delays.last().unwrap().as_millis() as u64})
            }
            "jr_answer" => {
                self.client.answer_with(s(st, "status"), s(st, "body"));
                let alive = self.rt.run();
                json!({"sent": self.client.take().len(), "fetching": alive})
            }
            "jr_sample" => {
                let tid = TraceId::from_hex(s(st, "tid")).expect("harness: trace id");
                let root: &Sampler = self.samplers.last().expect("harness: no sampler");
                let parent_based;
                let sampler = if st["wrap"] == json!(true) {
                    parent_based = Sampler::ParentBased(Box::new(root.clone()));
                    &parent_based
                } else {
                    root
                };
                let p = parent(s(st, "parent"));
                let r = sampler.should_sample(p.as_ref(), tid, s(st, "name"), &SpanKind::Internal, &[KeyValue::new("k", 1)], &[]);
                json!({"sampled": r.decision == SamplingDecision::RecordAndSample, "dropped": r.decision == SamplingDecision::Drop,
                       "state": r.trace_state.header(), "attrs": r.attributes.len()})
            }
            x => panic!("harness: op {x}"),
        }
    }
}
