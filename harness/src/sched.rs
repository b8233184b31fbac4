//! A cooperative scheduler over real threads: every thread of a run stops at the schedule
//! points (in the SDK with `--cfg otel_verif`, in the exporters and between the operations of
//! a program) and goes on when the schedule says so. A point whose name ends in `?` is
//! followed by an operation that may block.
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::sync::{Arc, Condvar, Mutex, Once};
use std::time::{Duration, Instant};

#[derive(Clone, Copy, PartialEq, Debug)]
enum St {
    Running,
    Parked,
    Blocking,
    Done,
}

struct Inner {
    free: bool,
    th: BTreeMap<String, St>,
    pending_block: BTreeMap<String, bool>,
    workers: usize,
    granted: Option<String>,
    steps: usize,
}

pub struct Sched {
    m: Mutex<Inner>,
    cv: Condvar,
    epoch: u64,
}

static CURRENT: Mutex<Option<Arc<Sched>>> = Mutex::new(None);
static INIT: Once = Once::new();
static EPOCH: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(1);

thread_local! {
    static ME: RefCell<(u64, String)> = const { RefCell::new((0, String::new())) };
}

/// A schedule point of the harness itself (or, through the hook, of the SDK).
pub fn point(name: &str) {
    let s = CURRENT.lock().unwrap().clone();
    if let Some(s) = s {
        s.at(name);
    }
}

impl Sched {
    pub fn install() -> Arc<Sched> {
        INIT.call_once(|| opentelemetry_sdk::verif::set_hook(point));
        let s = Arc::new(Sched {
            m: Mutex::new(Inner {
                free: false,
                th: BTreeMap::new(),
                pending_block: BTreeMap::new(),
                workers: 0,
                granted: None,
                steps: 0,
            }),
            cv: Condvar::new(),
            epoch: EPOCH.fetch_add(1, std::sync::atomic::Ordering::SeqCst),
        });
        *CURRENT.lock().unwrap() = Some(s.clone());
        s
    }
    pub fn uninstall() {
        *CURRENT.lock().unwrap() = None;
    }
    /// The calling thread is not scheduled (it sets the run up).
    pub fn exempt() {
        ME.with(|m| *m.borrow_mut() = (u64::MAX, String::new()));
    }
    /// Announces a thread of the program (before it is spawned).
    pub fn announce(&self, name: &str) {
        self.m.lock().unwrap().th.insert(name.to_string(), St::Running);
    }
    /// The calling thread is the announced thread `name`.
    pub fn enter(&self, name: &str) {
        ME.with(|m| *m.borrow_mut() = (self.epoch, name.to_string()));
        self.at("start");
    }
    pub fn done(&self) {
        let me = ME.with(|m| m.borrow().1.clone());
        self.m.lock().unwrap().th.insert(me, St::Done);
        self.cv.notify_all();
    }
    pub fn free(&self) {
        self.m.lock().unwrap().free = true;
        self.cv.notify_all();
    }

    fn at(&self, name: &str) {
        let (ep, mut me) = ME.with(|m| m.borrow().clone());
        if ep != 0 && ep != self.epoch {
            return; // a thread left over from an earlier run
        }
        let mut g = self.m.lock().unwrap();
        if ep == 0 {
            // a thread the SDK spawned
            g.workers += 1;
            me = if g.workers == 1 { "w".to_string() } else { format!("w{}", g.workers) };
            ME.with(|m| *m.borrow_mut() = (self.epoch, me.clone()));
        }
        if g.free {
            return;
        }
        g.th.insert(me.clone(), St::Parked);
        self.cv.notify_all();
        while !g.free && g.granted.as_deref() != Some(&me) {
            g = self.cv.wait(g).unwrap();
        }
        if g.granted.as_deref() == Some(&me) {
            g.granted = None;
        }
        let st = if name.ends_with('?') { St::Blocking } else { St::Running };
        g.th.insert(me, st);
        self.cv.notify_all();
    }

    /// Waits until no thread is running (at most `ms`: a thread may be stuck on a lock).
    fn settle(&self, us: u64) {
        let end = Instant::now() + Duration::from_micros(us);
        let mut g = self.m.lock().unwrap();
        loop {
            if g.free || !g.th.values().any(|s| *s == St::Running) {
                return;
            }
            let now = Instant::now();
            if now >= end {
                // stuck: treat as blocking from now on
                for s in g.th.values_mut() {
                    if *s == St::Running {
                        *s = St::Blocking;
                    }
                }
                return;
            }
            g = self.cv.wait_timeout(g, end - now).unwrap().0;
        }
    }
    fn parked(&self) -> Vec<String> {
        let g = self.m.lock().unwrap();
        g.th.iter().filter(|(_, s)| **s == St::Parked).map(|(k, _)| k.clone()).collect()
    }
    fn blocking(&self) -> bool {
        self.m.lock().unwrap().th.values().any(|s| *s == St::Blocking)
    }
    /// Lets `who` take one step, if it can.
    pub fn step(&self, who: &str) -> bool {
        self.settle(3000);
        if self.blocking() {
            std::thread::sleep(Duration::from_micros(20));
        }
        let mut g = self.m.lock().unwrap();
        if g.th.get(who) != Some(&St::Parked) {
            return false;
        }
        g.granted = Some(who.to_string());
        g.steps += 1;
        self.cv.notify_all();
        while !g.free && g.granted.is_some() {
            g = self.cv.wait(g).unwrap();
        }
        drop(g);
        self.settle(3000);
        true
    }
    fn program_done(&self, progs: &[String]) -> bool {
        let g = self.m.lock().unwrap();
        progs.iter().all(|p| g.th.get(p) == Some(&St::Done))
    }
    /// Runs the schedule, then a random one, until the program threads are done. Returns
    /// false if they do not finish.
    pub fn run(
        &self,
        progs: &[String],
        sched: &[String],
        rng: &mut Rng,
        hang: Duration,
        on_stall: &dyn Fn(),
    ) -> bool {
        for w in sched {
            if self.program_done(progs) {
                return true;
            }
            self.step(w);
        }
        let mut last = Instant::now();
        let bias = rng.below(4);
        let mut cur: Option<String> = None;
        let starve: Option<String> = if rng.below(3) == 0 {
            let v = self.parked();
            if v.is_empty() { None } else { Some(v[rng.below(v.len() as u64) as usize].clone()) }
        } else {
            None
        };
        loop {
            if self.program_done(progs) {
                return true;
            }
            self.settle(3000);
            let mut v = self.parked();
            if v.is_empty() {
                let g = self.m.lock().unwrap();
                if !g.th.values().any(|s| *s == St::Parked) {
                    drop(self.cv.wait_timeout(g, Duration::from_millis(20)).unwrap());
                }
                if last.elapsed() > Duration::from_millis(40) {
                    on_stall();
                }
                if last.elapsed() > hang {
                    return false;
                }
                continue;
            }
            if v.len() > 1 {
                if let Some(s) = &starve {
                    if self.m.lock().unwrap().steps < 400 {
                        v.retain(|x| x != s);
                    }
                }
            }
            let pick = match &cur {
                Some(c) if v.contains(c) && rng.below(4) < bias => c.clone(),
                _ => v[rng.below(v.len() as u64) as usize].clone(),
            };
            if self.step(&pick) {
                last = Instant::now();
            }
            if self.m.lock().unwrap().steps > 20_000 {
                return false; // a call that goes round and round
            }
            cur = Some(pick);
        }
    }
}

/// A small deterministic generator (splitmix64).
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: u64) -> u64 {
        self.next() % n
    }
}
