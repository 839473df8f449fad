//! A panic in user code, or a failing allocation, at every point of every operation.

use std::collections::BTreeMap;
use std::panic::{AssertUnwindSafe, catch_unwind};

use crate::base::*;
use crate::fam::*;
use crate::hash::*;
use crate::model::Op::*;
use crate::model::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Mode {
    Panic,
    Alloc,
}

/// What became of an operation with a fault at point `n`.
pub enum Got<R> {
    /// The fault point was not reached.
    Clean(R),
    /// The operation completed in spite of the fault.
    Survived(R),
    Unwound,
}

/// Runs an operation with a fault at its `n`-th point, from 1.
pub fn faulted<R>(mode: Mode, n: u64, f: impl FnOnce() -> R) -> Got<R> {
    g().ticks = 0;
    g().fired = false;
    let r = match mode {
        Mode::Panic => {
            g().panic_at = n;
            let r = catch_unwind(AssertUnwindSafe(f));
            g().panic_at = 0;
            r
        }
        Mode::Alloc => catch_unwind(AssertUnwindSafe(|| with_alloc_fault(n as i64 - 1, f))),
    };
    let fired = match mode {
        Mode::Panic => g().fired,
        Mode::Alloc => FAILED.swap(false, std::sync::atomic::Ordering::Relaxed),
    };
    match r {
        Ok(r) if !fired => Got::Clean(r),
        Ok(r) => {
            if mode == Mode::Panic {
                viol("swallowed", || "a panic in user code did not propagate".into());
            }
            Got::Survived(r)
        }
        Err(e) => {
            if e.is::<Stuck>() || (mode == Mode::Panic && !e.is::<Injected>()) || !fired {
                if !e.is::<Stuck>() {
                    let m = last_panic().lock().unwrap().clone();
                    viol("panic", || format!("unexpected panic: {m}"));
                }
            }
            Got::Unwound
        }
    }
}

/// Compares what is there with the states before and after, key by key; returns what is there.
fn settle<S: Sut>(c: &S, before: &Model, after: &Model, st: &mut Stat) -> Model {
    let mut m = before.clone();
    m.cap = c.cap();
    m.clock = after.clock + 1;
    let mut d = Vec::new();
    c.dump(&mut d);
    let mut now: BTreeMap<u32, (u32, u32)> = BTreeMap::new();
    for (k, t, v) in d {
        if now.insert(k, (t, v)).is_some() {
            viol("duplicate", || format!("{k:#x} is there twice after the interruption"));
        }
    }
    let keys: Vec<u32> = before.m.keys().chain(after.m.keys()).chain(now.keys()).copied().collect();
    let mut evicted = 0;
    let (mut eb, mut ea) = (true, true);
    for k in keys {
        let x = before.m.get(&k).map(|e| (e.tag, e.v));
        let y = after.m.get(&k).map(|e| (e.tag, e.v));
        let z = now.get(&k).copied();
        eb &= x == z;
        ea &= y == z;
        if z != x && z != y {
            if z.is_none() && after.may_evict.contains(&k) && before.m.contains_key(&k) {
                evicted += 1;
            } else {
                viol("neither", || format!("{k:#x} holds {z:x?} after the interruption; before the operation {x:x?}, after it {y:x?}"));
            }
        }
    }
    // Counted twice: the key is in both models.
    if evicted > 2 {
        viol("neither", || "more than one entry was evicted".into());
    }
    st.before += u64::from(eb);
    st.after += u64::from(ea && !eb);
    m.m = now
        .into_iter()
        .map(|(k, (tag, v))| {
            let e = before.m.get(&k).or(after.m.get(&k)).copied().unwrap_or(E { tag, v, stamp: 0, tracked: false });
            (k, E { tag, v, ..e })
        })
        .collect();
    m.lenient = true;
    m
}

/// Uses the container in every way that a damaged one would not survive.
fn use_it<S: Sut>(c: &S, m: &mut Model, keys: &[u32], variant: u64) {
    BUF.with_borrow_mut(|b| full_check(c, m, keys, b));
    // Takes every lock; what is left locked shows as a future that stays pending.
    for k in keys {
        step(c, m, RemIf(*k, false), true);
    }
    step(c, m, Iter, true);
    if g().viol.is_some() {
        return;
    }
    for k in keys {
        step(c, m, Ins(*k), false);
    }
    step(c, m, Blk(700, if S::KIND == Kind::Cache { 20 } else { 70 }), false);
    BUF.with_borrow_mut(|b| full_check(c, m, keys, b));
    step(c, m, RetOdd, false);
    match variant % 3 {
        0 => step(c, m, RetNone, false),
        1 => step(c, m, Clear, true),
        _ => {
            let ks: Vec<u32> = m.m.keys().copied().collect();
            for k in ks {
                step(c, m, Rem(k), false);
            }
        }
    }
    step(c, m, Ins(keys[0]), true);
    BUF.with_borrow_mut(|b| full_check(c, m, keys, b));
}

/// Operations to prepare the state, then operations with a fault.
pub struct Fault<S: Sut> {
    pub name: String,
    pub mode: Mode,
    pub st: State,
    pub pre: Vec<(Op, u32)>,
    pub model: Model,
    pub prefix: Vec<Alpha>,
    pub target: Alpha,
    /// Whether the same fault also hits the retry of the operation.
    pub twice: bool,
    pub _p: std::marker::PhantomData<S>,
}
impl<S: Sut> Fault<S> {
    pub fn new(name: String, mode: Mode, st: &State, prefix: Vec<Alpha>, target: Alpha, twice: bool) -> Self {
        let (pre, model) = prepare::<S>(st);
        Fault { name, mode, st: st.clone(), pre, model, prefix, target, twice, _p: std::marker::PhantomData }
    }
    fn ops(&self, mut i: u64) -> (Vec<(Op, bool)>, (Op, bool)) {
        let t = self.target[(i % self.target.len() as u64) as usize];
        i /= self.target.len() as u64;
        let mut v = Vec::with_capacity(4);
        for a in self.prefix.iter().rev() {
            v.push(a[(i % a.len() as u64) as usize]);
            i /= a.len() as u64;
        }
        v.reverse();
        (v, t)
    }
}

impl<S: Sut> Family for Fault<S> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        self.prefix.iter().map(|a| a.len() as u64).product::<u64>() * self.target.len() as u64
    }
    fn describe(&self, i: u64) -> String {
        let (p, t) = self.ops(i);
        format!("state {}, then {p:x?}, then {t:x?} with a {:?} fault at each point", self.st.name, self.mode)
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let (prefix, (op, asy)) = self.ops(i);
        let mut n = 0;
        let mut more = true;
        while more && g().viol.is_none() {
            n += 1;
            more = false;
            if n > 1 {
                begin_case();
            }
            st.runs += 1;
            st.ops += prefix.len() as u64 + 1;
            let mut h = 0;
            accounted(|| {
                let mut m = self.model.clone();
                let c: S = build(&self.st, &self.pre);
                for (op, a) in &prefix {
                    step(&c, &mut m, *op, *a);
                }
                g().known.clear();
                for _ in 0..if self.twice { 2 } else { 1 } {
                    let before = m.clone();
                    let tag = g().tag + 1;
                    g().seen.clear();
                    g().evicted = None;
                    let r = faulted(self.mode, n, || c.exec(op, asy, before.val()));
                    let ev = g().evicted.take();
                    let mut after = before.clone();
                    after.lenient = true;
                    match r {
                        Got::Unwound => {
                            st.faults += 1;
                            more = true;
                            let cap = after.cap;
                            let _ = after.apply(op, tag, cap);
                            m = settle(&c, &before, &after, st);
                        }
                        Got::Clean(o) | Got::Survived(o) => {
                            if matches!(r, Got::Survived(_)) {
                                st.faults += 1;
                                st.after += 1;
                                more = true;
                            }
                            g().evicted = ev;
                            let (e, _) = after.apply(op, tag, c.cap());
                            if e != o {
                                viol("wrong-result", || format!("{op:?} returned {:x?} instead of {:x?}", &o.v[..o.n], &e.v[..e.n]));
                            }
                            m = after;
                        }
                    }
                    if g().viol.is_some() {
                        break;
                    }
                    g().seen.clear();
                }
                g().known.clear();
                m.lenient = true;
                h = model_hash(&m, &self.st.name);
                if g().viol.is_none() {
                    let keys: Vec<u32> = self.st.present.iter().chain(&self.st.absent).copied().collect();
                    use_it(&c, &mut m, &keys, n);
                }
                if g().viol.is_some() {
                    // It may be locked or corrupt.
                    std::mem::forget(c);
                } else {
                    drop(c);
                }
            });
            if let Some((_, m)) = g().viol.as_mut() {
                *m = format!("fault at point {n}: {m}");
            }
            st.state(h);
            if n > 20_000 {
                viol("endless", || "the fault points do not end".into());
            }
        }
    }
}
