//! X01: the context stack.
use crate::common::*;
use opentelemetry::{Context, ContextGuard};
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Debug, PartialEq)]
struct Id(i64);

/// User code running when a context is released (in practice: a span ended by the release,
/// whose processor asks for the current context).
struct DropProbe;
impl Drop for DropProbe {
    fn drop(&mut self) {
        let _ = Context::current();
        let _g = Context::new().attach();
    }
}

fn cur_id() -> i64 {
    let a = Context::current().get::<Id>().map(|i| i.0).unwrap_or(0);
    let b = Context::map_current(|c| c.get::<Id>().map(|i| i.0).unwrap_or(0));
    if a == b {
        a
    } else {
        -1000
    }
}

#[derive(Default)]
struct TState {
    guards: HashMap<i64, ContextGuard>,
    fill: Vec<ContextGuard>,
}
pub struct StackSut {
    actors: HashMap<i64, Actor<TState>>,
    nthreads: i64,
    fill: i64,
}
impl StackSut {
    pub fn new() -> Self {
        StackSut { actors: HashMap::new(), nthreads: 2, fill: 0 }
    }
    fn actor(&mut self, t: i64) -> &Actor<TState> {
        self.actors.entry(t).or_insert_with(|| Actor::new(TState::default))
    }
    fn obs(&mut self) -> Value {
        let v: Vec<i64> = (1..=self.nthreads).map(|t| self.actor(t).call(|_| cur_id())).collect();
        json!(v)
    }
}
impl Sut for StackSut {
    fn step(&mut self, st: &Value) -> Value {
        match s(st, "op") {
            // prepare every thread; `fill` contexts are attached below the modelled ones
            "init" => {
                self.nthreads = n(st, "threads");
                let fill = n(st, "fill");
                self.fill = fill;
                for t in 1..=self.nthreads {
                    self.actor(t).call(move |ts| {
                        for _ in 0..fill {
                            ts.fill.push(Context::new().attach());
                        }
                    });
                }
            }
            "attach" => {
                let (g, cx) = (n(st, "g"), n(st, "cx"));
                let probe = self.fill == 0;
                self.actor(n(st, "t")).call(move |ts| {
                    let mut c = Context::new().with_value(Id(cx));
                    if probe {
                        c = c.with_value(DropProbe);
                    }
                    ts.guards.insert(g, c.attach());
                });
            }
            "attach_current" => {
                let g = n(st, "g");
                self.actor(n(st, "t")).call(move |ts| {
                    ts.guards.insert(g, Context::current().attach());
                });
            }
            "detach" => {
                let g = n(st, "g");
                self.actor(n(st, "t")).call(move |ts| {
                    drop(ts.guards.remove(&g));
                });
            }
            o => panic!("harness: op {o}"),
        }
        self.obs()
    }
    fn finish(&mut self) -> Option<String> {
        // drop what is left, oldest first, then the fill newest first: base context again
        for t in 1..=self.nthreads {
            let left = self.actor(t).call(move |ts| {
                let mut ks: Vec<i64> = ts.guards.keys().copied().collect();
                ks.sort();
                for k in ks {
                    ts.guards.remove(&k);
                }
                while let Some(g) = ts.fill.pop() {
                    drop(g);
                }
                (cur_id(), Context::current().has_active_span())
            });
            if left != (0, false) {
                return Some(format!("thread {t}: after all guards dropped the current context is {left:?}"));
            }
        }
        None
    }
}
use opentelemetry::trace::TraceContextExt;
