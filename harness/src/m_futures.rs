//! X03: futures, streams and sinks bound to a context.
use crate::common::*;
use futures_util::{Sink, Stream};
use opentelemetry::context::{FutureExt, WithContext};
use opentelemetry::{Context, ContextGuard};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context as TaskContext, Poll, Waker};

struct Id(i64);
fn cur_id() -> i64 {
    Context::current().get::<Id>().map(|i| i.0).unwrap_or(0)
}
fn cx(id: i64) -> Context {
    if id == 0 {
        Context::new()
    } else {
        Context::new().with_value(Id(id))
    }
}

/// What the innermost future does when it is polled: record the current context, poll the
/// rest of the chain, record it again, and answer as the mode says.
struct Plan {
    chain: Vec<i64>,
    mode: String,
    obs: Vec<i64>,
    futs: Arc<Mutex<HashMap<i64, Fut>>>,
}
thread_local! {
    static PLAN: RefCell<Option<Plan>> = const { RefCell::new(None) };
}
fn act() -> Poll<()> {
    let c = cur_id();
    PLAN.with(|p| p.borrow_mut().as_mut().unwrap().obs.push(c));
    poll_next_in_chain();
    let mode = PLAN.with(|p| p.borrow().as_ref().unwrap().mode.clone());
    if mode == "panic" {
        std::panic::resume_unwind(Box::new("planned"));
    }
    let c = cur_id();
    PLAN.with(|p| p.borrow_mut().as_mut().unwrap().obs.push(c));
    if mode == "ready" {
        Poll::Ready(())
    } else {
        Poll::Pending
    }
}
fn poll_next_in_chain() {
    let next = PLAN.with(|p| {
        let mut p = p.borrow_mut();
        let p = p.as_mut().unwrap();
        if p.chain.is_empty() {
            None
        } else {
            Some((p.chain.remove(0), p.futs.clone()))
        }
    });
    if let Some((f, futs)) = next {
        let mut fut = futs.lock().unwrap().remove(&f).expect("harness: future");
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| fut.poll()));
        futs.lock().unwrap().insert(f, fut);
        if let Err(e) = r {
            std::panic::resume_unwind(e);
        }
    }
}

struct Leaf;
impl Future for Leaf {
    type Output = ();
    fn poll(self: Pin<&mut Self>, _: &mut TaskContext<'_>) -> Poll<()> {
        act()
    }
}
impl Stream for Leaf {
    type Item = ();
    fn poll_next(self: Pin<&mut Self>, _: &mut TaskContext<'_>) -> Poll<Option<()>> {
        act().map(|_| None)
    }
}
impl Sink<()> for Leaf {
    type Error = ();
    fn poll_ready(self: Pin<&mut Self>, _: &mut TaskContext<'_>) -> Poll<Result<(), ()>> {
        act().map(Ok)
    }
    fn start_send(self: Pin<&mut Self>, _: ()) -> Result<(), ()> {
        let _ = act();
        Ok(())
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut TaskContext<'_>) -> Poll<Result<(), ()>> {
        act().map(Ok)
    }
    fn poll_close(self: Pin<&mut Self>, _: &mut TaskContext<'_>) -> Poll<Result<(), ()>> {
        act().map(Ok)
    }
}

enum Bound {
    One(Pin<Box<WithContext<Leaf>>>),
    Two(Pin<Box<WithContext<WithContext<Leaf>>>>),
}
struct Fut {
    kind: String,
    b: Option<Bound>,
}
fn poll_kind<T>(f: Pin<&mut T>, kind: &str)
where
    T: Future<Output = ()> + Stream<Item = ()> + Sink<(), Error = ()>,
{
    let mut tc = TaskContext::from_waker(Waker::noop());
    match kind {
        "future" => {
            let _ = f.poll(&mut tc);
        }
        "stream" => {
            let _ = f.poll_next(&mut tc);
        }
        "sink_ready" => {
            let _ = f.poll_ready(&mut tc);
        }
        "sink_send" => {
            let _ = f.start_send(());
        }
        "sink_flush" => {
            let _ = f.poll_flush(&mut tc);
        }
        "sink_close" => {
            let _ = f.poll_close(&mut tc);
        }
        k => panic!("harness: kind {k}"),
    }
}
impl Fut {
    fn poll(&mut self) {
        match self.b.as_mut().unwrap() {
            Bound::One(f) => poll_kind(f.as_mut(), &self.kind),
            Bound::Two(f) => poll_kind(f.as_mut(), &self.kind),
        }
    }
}

pub struct FutSut {
    actors: HashMap<i64, Actor<Vec<ContextGuard>>>,
    n: i64,
    futs: Arc<Mutex<HashMap<i64, Fut>>>,
}
impl FutSut {
    pub fn new() -> Self {
        FutSut { actors: HashMap::new(), n: 0, futs: Default::default() }
    }
    fn cur(&self) -> Value {
        json!((1..=self.n).map(|t| self.actors[&t].call(|_| cur_id())).collect::<Vec<_>>())
    }
}
impl Sut for FutSut {
    fn step(&mut self, st: &Value) -> Value {
        let mut obs: Vec<i64> = vec![];
        if s(st, "op") == "init" {
            self.n = n(st, "threads");
            for t in 1..=self.n {
                self.actors.insert(t, Actor::new(Vec::new));
            }
            return self.cur();
        }
        let a = &self.actors[&n(st, "t")];
        let futs = self.futs.clone();
        match s(st, "op") {
            "attach" => {
                let c = n(st, "cx");
                a.call(move |g| g.push(cx(c).attach()));
            }
            "detach" => a.call(|g| drop(g.pop())),
            "bind" => {
                let (f, kind, cur, c) = (n(st, "f"), s(st, "kind").to_string(), s(st, "how") == "current", n(st, "cx"));
                a.call(move |_| {
                    let b = if cur { Leaf.with_current_context() } else { Leaf.with_context(cx(c)) };
                    futs.lock().unwrap().insert(f, Fut { kind, b: Some(Bound::One(Box::pin(b))) });
                });
            }
            "rebind" => {
                let (f, c) = (n(st, "f"), n(st, "cx"));
                a.call(move |_| {
                    let mut m = futs.lock().unwrap();
                    let fu = m.get_mut(&f).unwrap();
                    if let Some(Bound::One(b)) = fu.b.take() {
                        let inner: WithContext<Leaf> = *Pin::into_inner(b);
                        fu.b = Some(Bound::Two(Box::pin(inner.with_context(cx(c)))));
                    }
                });
            }
            "poll" => {
                let chain: Vec<i64> = arr(st, "chain").iter().map(|v| v.as_i64().unwrap()).collect();
                let mode = s(st, "mode").to_string();
                obs = a.call(move |_| {
                    PLAN.with(|p| *p.borrow_mut() = Some(Plan { chain, mode, obs: vec![], futs }));
                    let _ = std::panic::catch_unwind(poll_next_in_chain);
                    PLAN.with(|p| p.borrow_mut().take().unwrap().obs)
                });
            }
            "drop" => {
                let f = n(st, "f");
                a.call(move |_| drop(futs.lock().unwrap().remove(&f)));
            }
            o => panic!("harness: {o}"),
        }
        json!({"cur": self.cur(), "obs": obs})
    }
}
