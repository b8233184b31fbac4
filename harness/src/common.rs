use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::HashMap;
use std::sync::atomic::{AtomicUsize, Ordering};
use std::sync::{mpsc, Arc, Mutex};
use std::time::{Duration, Instant};

/// The system under test behind one specification: performs one step of a behaviour on the
/// real code and returns what is observable afterwards.
pub trait Sut {
    fn step(&mut self, step: &Value) -> Value;
    /// Runs after the last step (clean up; may return extra failures).
    fn finish(&mut self) -> Option<String> {
        None
    }
}

thread_local! {
    static LAST_PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}
static PANICS: Mutex<Vec<String>> = Mutex::new(Vec::new());

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = Some(msg.clone()));
        if let Ok(mut v) = PANICS.lock() {
            if v.len() < 100 {
                v.push(msg);
            }
        }
    }));
}
/// Panics seen on any thread since the last call.
#[allow(dead_code)]
pub fn take_panics() -> Vec<String> {
    std::mem::take(&mut *PANICS.lock().unwrap())
}
pub fn take_last_panic() -> Option<String> {
    LAST_PANIC.with(|p| p.borrow_mut().take())
}

fn run_one(sut: &mut dyn Sut, steps: &[Value]) -> Result<usize, Value> {
    for (i, s) in steps.iter().enumerate() {
        let got = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut.step(s)));
        match got {
            Err(_) => {
                return Err(json!({"step": i, "op": s, "panic": take_last_panic()}));
            }
            Ok(got) => {
                if let Some(exp) = s.get("exp") {
                    if *exp != got {
                        return Err(json!({"step": i, "op": s, "exp": exp, "got": got}));
                    }
                }
            }
        }
    }
    let fin = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| sut.finish()));
    match fin {
        Err(_) => Err(json!({"step": steps.len(), "op": "finish", "panic": take_last_panic()})),
        Ok(Some(m)) => Err(json!({"step": steps.len(), "op": "finish", "got": m})),
        Ok(None) => Ok(steps.len()),
    }
}

pub fn run_parallel(
    behaviours: Vec<Value>,
    jobs: usize,
    module: String,
    make: fn(&str, &Value) -> Box<dyn Sut>,
) -> Value {
    let total = behaviours.len();
    let behaviours = Arc::new(behaviours);
    let next = Arc::new(AtomicUsize::new(0));
    let running: Arc<Mutex<HashMap<usize, Instant>>> = Arc::new(Mutex::new(HashMap::new()));
    let (tx, rx) = mpsc::channel();
    for _ in 0..jobs.min(total.max(1)) {
        let (behaviours, next, running, tx, module) = (
            behaviours.clone(),
            next.clone(),
            running.clone(),
            tx.clone(),
            module.clone(),
        );
        std::thread::spawn(move || loop {
            let i = next.fetch_add(1, Ordering::SeqCst);
            if i >= behaviours.len() {
                break;
            }
            running.lock().unwrap().insert(i, Instant::now());
            let (b2, m2) = (behaviours.clone(), module.clone());
            // a fresh thread per behaviour: thread-local state starts clean
            let r = std::thread::Builder::new()
                .stack_size(8 << 20)
                .spawn(move || {
                    let empty = vec![];
                    let steps = b2[i].as_array().unwrap_or(&empty);
                    let mut sut = make(&m2, steps.first().unwrap_or(&Value::Null));
                    run_one(sut.as_mut(), steps)
                })
                .unwrap()
                .join()
                .unwrap_or_else(|_| Err(json!({"panic": "behaviour thread died"})));
            running.lock().unwrap().remove(&i);
            if tx.send((i, r)).is_err() {
                break;
            }
        });
    }
    drop(tx);
    let hang_s: u64 = std::env::var("VH_HANG_S").ok().and_then(|s| s.parse().ok()).unwrap_or(60);
    let (mut done, mut steps) = (0usize, 0usize);
    let mut failures: Vec<Value> = vec![];
    let mut nfail = 0usize;
    loop {
        match rx.recv_timeout(Duration::from_secs(1)) {
            Ok((i, Ok(n))) => {
                done += 1;
                steps += n;
                let _ = i;
            }
            Ok((i, Err(f))) => {
                done += 1;
                nfail += 1;
                if failures.len() < 50 {
                    failures.push(json!({"i": i, "why": f, "behaviour": behaviours[i]}));
                }
            }
            Err(mpsc::RecvTimeoutError::Timeout) => {
                let r = running.lock().unwrap();
                let stuck: Vec<usize> = r
                    .iter()
                    .filter(|(_, t)| t.elapsed() > Duration::from_secs(hang_s))
                    .map(|(i, _)| *i)
                    .collect();
                if !stuck.is_empty() {
                    for i in stuck {
                        nfail += 1;
                        failures.push(json!({"i": i, "why": {"hang": format!("no answer within {hang_s} s")}, "behaviour": behaviours[i]}));
                    }
                    break;
                }
            }
            Err(mpsc::RecvTimeoutError::Disconnected) => break,
        }
    }
    json!({"total": total, "done": done, "steps": steps, "nfail": nfail, "failures": failures})
}

// ---- small helpers -------------------------------------------------------------------
pub fn s<'a>(v: &'a Value, k: &str) -> &'a str {
    v.get(k).and_then(|x| x.as_str()).unwrap_or_else(|| panic!("harness: no string {k} in {v}"))
}
pub fn n(v: &Value, k: &str) -> i64 {
    v.get(k).and_then(|x| x.as_i64()).unwrap_or_else(|| panic!("harness: no int {k} in {v}"))
}
#[allow(dead_code)]
pub fn b(v: &Value, k: &str) -> bool {
    v.get(k).and_then(|x| x.as_bool()).unwrap_or_else(|| panic!("harness: no bool {k} in {v}"))
}
#[allow(dead_code)]
pub fn arr<'a>(v: &'a Value, k: &str) -> &'a Vec<Value> {
    v.get(k).and_then(|x| x.as_array()).unwrap_or_else(|| panic!("harness: no array {k} in {v}"))
}

/// A thread that runs closures one at a time, owning a state that never leaves it
/// (context guards are not Send).
pub struct Actor<S: 'static> {
    tx: mpsc::Sender<Box<dyn FnOnce(&mut S) + Send>>,
    join: Option<std::thread::JoinHandle<()>>,
}
impl<S: 'static> Actor<S> {
    pub fn new(init: impl FnOnce() -> S + Send + 'static) -> Self {
        let (tx, rx) = mpsc::channel::<Box<dyn FnOnce(&mut S) + Send>>();
        let join = std::thread::spawn(move || {
            let mut st = init();
            while let Ok(f) = rx.recv() {
                f(&mut st);
            }
        });
        Actor { tx, join: Some(join) }
    }
    /// Runs f on the actor's thread; a panic there is re-raised here.
    pub fn call<R: Send + 'static>(&self, f: impl FnOnce(&mut S) -> R + Send + 'static) -> R {
        let (rtx, rrx) = mpsc::channel();
        self.tx
            .send(Box::new(move |st| {
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(st)));
                let _ = rtx.send(r.map_err(|_| take_last_panic().unwrap_or_default()));
            }))
            .expect("actor alive");
        match rrx.recv().expect("actor answers") {
            Ok(r) => r,
            Err(m) => panic!("{m}"),
        }
    }
}
impl<S: 'static> Drop for Actor<S> {
    fn drop(&mut self) {
        let (tx, _) = mpsc::channel();
        self.tx = tx;
        if let Some(j) = self.join.take() {
            let _ = j.join();
        }
    }
}
