//! Self-test of the exploration engine: toy programs with known verdicts and known numbers of
//! schedules. A check whose engine fails it reports an engine error instead of a verdict.

use std::rc::Rc;
use std::sync::Arc;
use std::time::{Duration, Instant};

use loom::explore::{Config, Report, Scenario, explore_all};
use loom::sched;
use loom::sync::atomic::{AtomicUsize, Ordering::*};

use crate::common::{Val, begin};

fn run(name: &str, bound: u32, sleep: bool, f: impl Fn() + 'static) -> Report {
    let mut c = Config::new(name, bound);
    c.hb = true;
    c.sleep = sleep;
    let s = vec![Scenario { cfg: c, split: 1, body: Rc::new(f) }];
    explore_all(&s, 1, Instant::now() + Duration::from_secs(60), |_| true).remove(0)
}

fn lost_update() {
    begin();
    let x = Arc::new(AtomicUsize::new(0));
    let y = x.clone();
    let h = loom::thread::spawn(move || {
        let v = y.load(Acquire);
        y.store(v + 1, Release);
    });
    let v = x.load(Acquire);
    x.store(v + 1, Release);
    h.join().unwrap();
    if x.load(Acquire) != 2 {
        sched::fail("lost-update", "lost");
    }
}

/// Two threads performing `n` stores each to distinct or shared variables.
fn stores(n: usize, shared: bool) {
    begin();
    let x: Arc<Vec<AtomicUsize>> = Arc::new((0..2).map(|_| AtomicUsize::new(0)).collect());
    let y = x.clone();
    let h = loom::thread::spawn(move || {
        for i in 0..n {
            y[0].store(10 + i, Release);
        }
    });
    for i in 0..n {
        x[usize::from(!shared)].store(20 + i, Release);
    }
    h.join().unwrap();
    let (a, b) = (x[0].load(Acquire), x[1].load(Acquire));
    sched::outcome(|| format!("{a} {b}"));
}

/// Store buffering with fetch_add: four interleavings, three outcomes.
fn sb() {
    begin();
    let x: Arc<Vec<AtomicUsize>> = Arc::new((0..2).map(|_| AtomicUsize::new(0)).collect());
    let y = x.clone();
    let h = loom::thread::spawn(move || {
        y[0].store(1, SeqCst);
        y[1].load(SeqCst)
    });
    x[1].store(1, SeqCst);
    let a = x[0].load(SeqCst);
    let b = h.join().unwrap();
    sched::outcome(|| format!("{a}{b}"));
}

fn deadlock() {
    begin();
    let x = Arc::new(AtomicUsize::new(0));
    let y = x.clone();
    let t = loom::thread::current();
    let h = loom::thread::spawn(move || {
        // A lost wakeup: the flag is tested only once.
        if y.load(Acquire) == 1 {
            t.unpark();
        }
    });
    x.store(1, Release);
    loom::thread::park();
    h.join().unwrap();
}

fn livelock() {
    begin();
    let x = Arc::new(AtomicUsize::new(0));
    let y = x.clone();
    let h = loom::thread::spawn(move || while y.load(Acquire) == 0 {
        loom::hint::spin_loop();
    });
    h.join().unwrap();
    x.store(1, Release);
}

fn publish(relaxed: bool) {
    begin();
    let cell: Arc<(AtomicUsize, std::cell::UnsafeCell<Option<Val>>)> =
        Arc::new((AtomicUsize::new(0), std::cell::UnsafeCell::new(None)));
    let p = Arc::as_ptr(&cell) as usize;
    let keep = cell.clone();
    let h = loom::thread::spawn(move || {
        let c = unsafe { &*(p as *const (AtomicUsize, std::cell::UnsafeCell<Option<Val>>)) };
        unsafe { *c.1.get() = Some(Val::new(1)) };
        c.0.store(1, if relaxed { Relaxed } else { Release });
    });
    if keep.0.load(Acquire) == 1 {
        unsafe { (*keep.1.get()).as_ref().unwrap().rd() };
    }
    h.join().unwrap();
}

/// Returns the list of failed self-tests.
pub fn all() -> Vec<String> {
    let mut bad = Vec::new();
    let mut want = |name: &str, r: &Report, ok: bool| {
        if !ok || r.engine_error.is_some() {
            let v = r.violation.as_ref().map(|v| v.kind.clone());
            bad.push(format!(
                "{name}: executions {} outcomes {} violation {v:?} error {:?}",
                r.executions,
                r.outcomes.len(),
                r.engine_error
            ));
        }
    };
    let kind = |r: &Report| r.violation.as_ref().map(|v| v.kind.clone()).unwrap_or_default();
    let r = run("lost0", 0, true, lost_update);
    want("lost update is invisible without preemptions", &r, kind(&r).is_empty());
    let r = run("lost1", 1, true, lost_update);
    want("lost update at bound 1", &r, kind(&r) == "lost-update");
    let r = run("dl", 1, true, deadlock);
    want("lost wakeup", &r, kind(&r) == "deadlock");
    let r = run("ll", 1, true, livelock);
    want("livelock", &r, kind(&r) == "livelock" || kind(&r) == "deadlock");
    let r = run("pub", 2, true, || publish(false));
    want("release publication", &r, kind(&r).is_empty());
    let r = run("pubr", 2, true, || publish(true));
    want("relaxed publication", &r, kind(&r) == "data-race");
    for n in 1..=3 {
        for shared in [false, true] {
            let a = run("st", 99, true, move || stores(n, shared));
            let b = run("st", 99, false, move || stores(n, shared));
            want("sleep sets keep all outcomes", &a, a.outcomes.keys().eq(b.outcomes.keys()) && kind(&a).is_empty());
            want("sleep sets do not add executions", &a, a.executions <= b.executions);
            // All interleavings of 2 x n stores.
            let c = [0, 2, 6, 20][n];
            want("number of interleavings", &b, b.executions + b.pruned >= c);
            if shared {
                want("conflicting stores are all explored", &a, a.executions >= c);
            } else {
                want("independent stores are explored once", &a, a.executions <= 2);
            }
        }
    }
    let r = run("sb", 99, true, sb);
    want("store buffering outcomes", &r, r.outcomes.len() == 3);
    bad
}
