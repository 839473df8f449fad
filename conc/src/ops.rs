//! Operations of model threads, executed on the real containers and recorded as events.

use loom::arena;
use loom::sched;
use scc::{HashCache, HashIndex, HashMap, TreeIndex};
use sdd::Guard;

use crate::common::*;

#[derive(Clone, Debug)]
pub enum Op {
    Ins(u32, u32),
    Ups(u32, u32),
    Rem(u32),
    /// Removes if the value equals.
    RemIf(u32, u32),
    Read(u32),
    Has(u32),
    Upd(u32, u32),
    Get(u32),
    GetMut(u32, u32),
    GetRem(u32),
    /// Entry API: insert if vacant.
    OrIns(u32, u32),
    /// Entry API: insert or overwrite.
    EntIns(u32, u32),
    AndMod(u32, u32),
    TryEnt(u32, u32),
    Replace(u32, u32),
    /// Visits every entry.
    Scan,
    /// Removes `key` (or everything) while iterating.
    ScanRem(u32),
    /// Retains everything but `key` (or nothing).
    RetainNot(u32),
    Clear,
    Len,
    /// Walks all entries through `OccupiedEntry::next`.
    Walk,
    /// Walks all entries, removing `key` on the way.
    WalkRem(u32),
    Any(u32),
    Reserve(usize),
    /// Lock-free read that keeps using the reference.
    Hold(u32),
    /// Entry update of `HashIndex`.
    Update(u32, u32),
    Range(u32, u32),
    RemRange(u32, u32),
    /// Two operations polled by one task.
    Both(Box<Op>, Box<Op>),
    /// Polls the asynchronous operation a bounded number of times, then drops it.
    Cancel(Box<Op>),
    /// Holds the entry across a scheduling point by yielding to other threads.
    GetYield(u32),
    /// Holds the entry until another thread executes `Signal`.
    HoldUntil(u32),
    Signal,
    /// `capacity_range` stays meaningful.
    CapRange,
}

pub trait Cont: Sized + 'static {
    const NAME: &'static str;
    const ORDERED: bool;
    fn make(cap: usize) -> Self;
    fn exec(&self, op: &Op, asy: bool);
    /// Quiescent read.
    fn peek_final(&self, k: u32) -> Option<u32>;
    fn scan_final(&self) -> Vec<(u32, u32)>;
    fn len_final(&self) -> usize;
    fn cap_final(&self) -> usize;
    /// A measure of the structure.
    fn shape(&self) -> usize;
}

fn opt(v: Option<u32>) -> Pre {
    match v {
        Some(v) => Pre::Is(v),
        None => Pre::None,
    }
}

/// The keys the scenario knows about.
static mut KEYS: Vec<u32> = Vec::new();
#[allow(static_mut_refs)]
pub fn keys() -> &'static Vec<u32> {
    unsafe { &KEYS }
}
#[allow(static_mut_refs)]
pub fn set_keys(k: Vec<u32>) {
    unsafe { KEYS = k }
}

struct Seen(Vec<(u32, u32)>);
impl Seen {
    fn new() -> Self {
        Seen(Vec::with_capacity(64))
    }
    fn add(&mut self, k: u32, v: u32) {
        self.0.push((k, v));
    }
}

pub fn op_keys(op: &Op) -> Vec<u32> {
    use Op::*;
    match op {
        Ins(k, _) | Ups(k, _) | Rem(k) | RemIf(k, _) | Read(k) | Has(k) | Upd(k, _) | Get(k)
        | GetMut(k, _) | GetRem(k) | OrIns(k, _) | EntIns(k, _) | AndMod(k, _) | TryEnt(k, _)
        | Replace(k, _) | Hold(k) | Update(k, _) | GetYield(k) | HoldUntil(k) | Any(k) => vec![*k],
        ScanRem(k) | RetainNot(k) | WalkRem(k) => {
            if *k == ALL { vec![] } else { vec![*k] }
        }
        Range(..) | RemRange(..) | Scan | Clear | Len | Walk | Reserve(_) | Signal | CapRange => vec![],
        Both(a, b) => {
            let mut v = op_keys(a);
            v.extend(op_keys(b));
            v
        }
        Cancel(a) => op_keys(a),
    }
}

pub type Hm = HashMap<Key, Val, Bh>;
pub type Hi = HashIndex<Key, Val, Bh>;
pub type Hc = HashCache<Key, Val, Bh>;
pub type Ti = TreeIndex<Key, Val>;


/// Picks the synchronous or the asynchronous call.
macro_rules! sa {
    ($asy:expr, $s:expr, $a:expr) => {
        if $asy { $a.await } else { $s }
    };
}

fn set_if(o: Option<u32>, v: u32) -> Post {
    if o.is_some() { Post::Set(v) } else { Post::Same }
}

fn removed(name: &'static str, k: u32, t0: u64, r: Option<(Key, Val)>) {
    let r = r.map(|(kk, vv)| (kk.get(), vv.own()));
    let t1 = op_end();
    if let Some((kk, _)) = r {
        if kk != k {
            sched::fail("wrong-return", "a removal returned a different key");
        }
    }
    let r = r.map(|x| x.1);
    ev(name, k, t0, t1, opt(r), if r.is_some() { Post::Del } else { Post::Same });
}

fn remif(k: u32, w: u32, t0: u64, saw: Option<u32>, r: Option<(Key, Val)>) {
    let r = r.map(|(kk, vv)| (kk.get(), vv.own()));
    let t1 = op_end();
    if r.is_some() != (saw == Some(w)) || r.is_some_and(|r| r != (k, w)) {
        sched::fail("wrong-return", "remove_if result disagrees with its condition");
    }
    ev("remove_if", k, t0, t1, opt(saw), if r.is_some() { Post::Del } else { Post::Same });
}

fn inserted(name: &'static str, k: u32, v: u32, t0: u64, r: Result<(), (Key, Val)>) {
    match r {
        Ok(()) => {
            let t1 = op_end();
            ev(name, k, t0, t1, Pre::None, Post::Set(v));
        }
        Err((kk, vv)) => {
            if kk.get() != k || vv.own() != v {
                sched::fail("wrong-return", "a failed insertion returned a different pair");
            }
            drop(kk);
            let t1 = op_end();
            ev(name, k, t0, t1, Pre::Some, Post::Same);
        }
    }
}

fn or_inserted(k: u32, v: u32, t0: u64, called: bool, r: u32) {
    let t1 = op_end();
    if called {
        if r != v {
            sched::fail("wrong-return", "or_insert returned an entry with a different value");
        }
        ev("or_insert", k, t0, t1, Pre::None, Post::Set(v));
    } else {
        ev("or_insert", k, t0, t1, Pre::Is(r), Post::Same);
    }
}

fn retained(k: u32, t0: u64, seen: &[(u32, u32)]) {
    let t1 = op_end();
    for &(kk, v) in seen {
        let del = k == ALL || kk == k;
        ev("retain", kk, t0, t1, Pre::Is(v), if del { Post::Del } else { Post::Same });
    }
    for &kk in keys() {
        if !seen.iter().any(|s| s.0 == kk) {
            ev("retain", kk, t0, t1, Pre::None, Post::Same);
        }
    }
}

fn cleared(t0: u64) {
    let t1 = op_end();
    for &kk in keys() {
        ev("clear", kk, t0, t1, Pre::Any, Post::Del);
    }
}

/// A traversal that was not cut short and removed the keys in `gone`.
fn walked(name: &'static str, t0: u64, seen: &[(u32, u32)], gone: &[(u32, u32)]) {
    let t1 = op_end();
    for &(k, v) in seen {
        if gone.contains(&(k, v)) {
            ev(name, k, t0, t1, Pre::Is(v), Post::Del);
        } else {
            ev(name, k, t0, t1, Pre::Is(v), Post::Same);
        }
    }
    for &k in keys() {
        if !seen.iter().any(|s| s.0 == k) {
            ev(name, k, t0, t1, Pre::None, Post::Same);
        }
    }
}

/// Events of an operation that was abandoned before completion.
fn cancelled(op: &Op, t0: u64) {
    use Op::*;
    let t1 = op_end();
    match *op {
        Ins(k, v) => ev_m("cancelled insert", k, t0, t1, Pre::None, Post::Set(v), true),
        Ups(k, v) | EntIns(k, v) | AndMod(k, v) => {
            ev_m("cancelled upsert", k, t0, t1, Pre::Any, Post::Set(v), true)
        }
        OrIns(k, v) => ev_m("cancelled or_insert", k, t0, t1, Pre::None, Post::Set(v), true),
        Rem(k) | GetRem(k) => ev_m("cancelled remove", k, t0, t1, Pre::Some, Post::Del, true),
        RemIf(k, w) => ev_m("cancelled remove_if", k, t0, t1, Pre::Is(w), Post::Del, true),
        Upd(k, v) | GetMut(k, v) | Update(k, v) => {
            ev_m("cancelled update", k, t0, t1, Pre::Some, Post::Set(v), true)
        }
        Clear | RetainNot(ALL) | RemRange(..) => {
            for &k in keys() {
                let inside = match *op {
                    RemRange(a, b) => k >= a && k < b,
                    _ => true,
                };
                if inside {
                    ev_m("cancelled clear", k, t0, t1, Pre::Any, Post::Del, true);
                }
            }
        }
        RetainNot(k) | ScanRem(k) | WalkRem(k) => {
            ev_m("cancelled retain", k, t0, t1, Pre::Some, Post::Del, true)
        }
        _ => (),
    }
}

macro_rules! combos {
    ($m:expr, $op:expr, $exec:ident, $asy:expr) => {
        match $op {
            Op::Both(a, b) => {
                join2($exec($m, a, true), $exec($m, b, true));
                return;
            }
            Op::Cancel(a) => {
                let t0 = op_begin("cancel", ALL);
                let n = 1 + sched::choose(3, 0);
                if poll_n($exec($m, a, true), n).is_none() {
                    cancelled(a, t0);
                    note("cancelled");
                }
                return;
            }
            o => block_on($exec($m, o, $asy)),
        }
    };
}

// ---- HashMap ----

async fn hm_exec(m: &Hm, op: &Op, asy: bool) {
    use Op::*;
    match *op {
        Ins(k, v) => {
            let t0 = op_begin("insert", k);
            let (a, b) = (Key::new(k), Val::new(v));
            let r = sa!(asy, m.insert_sync(a, b), m.insert_async(a, b));
            inserted("insert", k, v, t0, r);
        }
        Ups(k, v) => {
            let t0 = op_begin("upsert", k);
            let (a, b) = (Key::new(k), Val::new(v));
            let r = sa!(asy, m.upsert_sync(a, b), m.upsert_async(a, b)).map(Val::own);
            let t1 = op_end();
            ev("upsert", k, t0, t1, opt(r), Post::Set(v));
        }
        Rem(k) => {
            let t0 = op_begin("remove", k);
            let r = sa!(asy, m.remove_sync(&Q(k)), m.remove_async(&Q(k)));
            removed("remove", k, t0, r);
        }
        RemIf(k, w) => {
            let t0 = op_begin("remove_if", k);
            let mut saw = None;
            let f = |x: &mut Val| {
                saw = Some(x.rd());
                saw == Some(w)
            };
            let r = sa!(asy, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f));
            remif(k, w, t0, saw, r);
        }
        Read(k) => {
            let t0 = op_begin("read", k);
            let f = |kk: &Key, x: &Val| {
                if kk.get() != k {
                    sched::fail("wrong-return", "read visited a different key");
                }
                x.rd()
            };
            let r = sa!(asy, m.read_sync(&Q(k), f), m.read_async(&Q(k), f));
            let t1 = op_end();
            ev("read", k, t0, t1, opt(r), Post::Same);
        }
        Has(k) => {
            let t0 = op_begin("contains", k);
            let r = sa!(asy, m.contains_sync(&Q(k)), m.contains_async(&Q(k)));
            let t1 = op_end();
            ev("contains", k, t0, t1, if r { Pre::Some } else { Pre::None }, Post::Same);
        }
        Upd(k, v) => {
            let t0 = op_begin("update", k);
            let f = |_: &Key, x: &mut Val| x.wr(v);
            let r = sa!(asy, m.update_sync(&Q(k), f), m.update_async(&Q(k), f));
            let t1 = op_end();
            ev("update", k, t0, t1, opt(r), set_if(r, v));
        }
        Get(k) => {
            let t0 = op_begin("get", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|e| e.get().rd());
            let t1 = op_end();
            ev("get", k, t0, t1, opt(r), Post::Same);
        }
        Signal => signal(),
        CapRange => {
            op_begin("capacity_range", ALL);
            let r = m.capacity_range();
            let c = m.capacity();
            op_end();
            cap_range(r, c);
        }
        GetYield(k) | HoldUntil(k) => {
            let t0 = op_begin("get+hold", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|mut e| {
                let a = e.get_mut().wr(90);
                if matches!(op, HoldUntil(_)) {
                    wait_flag();
                }
                sched::yield_now();
                if e.get_mut().wr(91) != 90 {
                    sched::fail("exclusion", "a locked entry changed under its holder");
                }
                a
            });
            let t1 = op_end();
            ev("get+hold", k, t0, t1, opt(r), set_if(r, 91));
        }
        GetMut(k, v) => {
            let t0 = op_begin("get_mut", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|mut e| e.get_mut().wr(v));
            let t1 = op_end();
            ev("get_mut", k, t0, t1, opt(r), set_if(r, v));
        }
        GetRem(k) => {
            let t0 = op_begin("get+remove", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|e| e.remove_entry());
            removed("get+remove", k, t0, r);
        }
        OrIns(k, v) => {
            let t0 = op_begin("or_insert", k);
            let mut called = false;
            let e = sa!(asy, m.entry_sync(Key::new(k)), m.entry_async(Key::new(k)));
            let o = e.or_insert_with(|| {
                called = true;
                Val::new(v)
            });
            let r = o.get().rd();
            drop(o);
            or_inserted(k, v, t0, called, r);
        }
        EntIns(k, v) | TryEnt(k, v) => {
            let t0 = op_begin("entry_insert", k);
            let e = if matches!(op, TryEnt(..)) {
                match m.try_entry(Key::new(k)) {
                    Some(e) => e,
                    None => {
                        op_end();
                        note("try_entry=None");
                        return;
                    }
                }
            } else {
                sa!(asy, m.entry_sync(Key::new(k)), m.entry_async(Key::new(k)))
            };
            let old = match e {
                scc::hash_map::Entry::Occupied(mut o) => {
                    if o.key().get() != k {
                        sched::fail("wrong-return", "entry holds a different key");
                    }
                    Some(o.insert(Val::new(v)).own())
                }
                scc::hash_map::Entry::Vacant(x) => {
                    let o = x.insert_entry(Val::new(v));
                    if o.get().rd() != v || o.key().get() != k {
                        sched::fail("wrong-return", "a fresh entry holds a different value");
                    }
                    None
                }
            };
            let t1 = op_end();
            ev("entry_insert", k, t0, t1, opt(old), Post::Set(v));
        }
        AndMod(k, v) => {
            let t0 = op_begin("and_modify", k);
            let mut old = None;
            let e = sa!(asy, m.entry_sync(Key::new(k)), m.entry_async(Key::new(k)));
            drop(e.and_modify(|x| old = Some(x.wr(v))).or_insert_with(|| Val::new(v)));
            let t1 = op_end();
            ev("and_modify", k, t0, t1, opt(old), Post::Set(v));
        }
        Replace(k, v) => {
            let t0 = op_begin("replace", k);
            let r = sa!(asy, m.replace_sync(Key::new(k)), m.replace_async(Key::new(k)));
            match r {
                scc::hash_map::ReplaceResult::Replaced(e, kk) => {
                    let x = e.get().rd();
                    if kk.get() != k {
                        sched::fail("wrong-return", "replace returned a different key");
                    }
                    drop(e);
                    let t1 = op_end();
                    ev("replace", k, t0, t1, Pre::Is(x), Post::Same);
                }
                scc::hash_map::ReplaceResult::NotReplaced(x) => {
                    drop(x.insert_entry(Val::new(v)));
                    let t1 = op_end();
                    ev("replace", k, t0, t1, Pre::None, Post::Set(v));
                }
            }
        }
        Scan => {
            let t0 = op_begin("scan", ALL);
            let mut seen = Seen::new();
            let f = |k: &Key, v: &Val| {
                seen.add(k.get(), v.rd());
                true
            };
            sa!(asy, m.iter_sync(f), m.iter_async(f));
            walked("scan", t0, &seen.0, &[]);
        }
        ScanRem(k) => {
            let t0 = op_begin("iter_mut", k);
            let mut seen = Seen::new();
            let mut gone = Seen::new();
            let f = |e: scc::hash_map::ConsumableEntry<'_, Key, Val>| {
                let (kk, v) = (e.0.get(), e.1.rd());
                seen.add(kk, v);
                if k == ALL || kk == k {
                    let (a, b) = e.consume();
                    if a.get() != kk || b.own() != v {
                        sched::fail("wrong-return", "consume returned a different entry");
                    }
                    gone.add(kk, v);
                }
                true
            };
            sa!(asy, m.iter_mut_sync(f), m.iter_mut_async(f));
            walked("iter_mut", t0, &seen.0, &gone.0);
        }
        RetainNot(k) => {
            let t0 = op_begin("retain", k);
            let mut seen = Seen::new();
            let f = |kk: &Key, x: &mut Val| {
                seen.add(kk.get(), x.rd());
                k != ALL && kk.k != k
            };
            sa!(asy, m.retain_sync(f), m.retain_async(f));
            retained(k, t0, &seen.0);
        }
        Clear => {
            let t0 = op_begin("clear", ALL);
            sa!(asy, m.clear_sync(), m.clear_async());
            cleared(t0);
        }
        Walk | WalkRem(_) => {
            let rk = if let WalkRem(k) = *op { Some(k) } else { None };
            let t0 = op_begin("walk", ALL);
            let mut seen = Seen::new();
            let mut gone = Seen::new();
            let mut cur = sa!(asy, m.begin_sync(), m.begin_async());
            while let Some(mut e) = cur {
                let (k, v) = (e.key().get(), e.get_mut().rd());
                seen.add(k, v);
                if rk.is_some_and(|r| r == ALL || r == k) {
                    gone.add(k, v);
                    let ((a, b), n) = sa!(asy, e.remove_and_sync(), e.remove_and_async());
                    if a.get() != k || b.own() != v {
                        sched::fail("wrong-return", "remove_and returned a different entry");
                    }
                    cur = n;
                } else {
                    cur = sa!(asy, e.next_sync(), e.next_async());
                }
            }
            walked("walk", t0, &seen.0, &gone.0);
        }
        Any(k) => {
            let t0 = op_begin("any", k);
            let f = |kk: &Key, _: &Val| kk.get() == k;
            let r = sa!(asy, m.any_sync(f), m.any_async(f));
            let r = r.map(|e| e.get().rd());
            let t1 = op_end();
            ev("any", k, t0, t1, opt(r), Post::Same);
        }
        Len => {
            op_begin("len", ALL);
            let n = m.len();
            op_end();
            len_bounds(n);
        }
        Reserve(n) => {
            op_begin("reserve", ALL);
            let r = m.reserve(n);
            op_end();
            let idle = sched::others_idle();
            let c = m.capacity();
            op_begin("reserve drop", ALL);
            if let Some(r) = &r {
                let a = r.additional_capacity();
                if a != n {
                    sched::fail("capacity", "a reservation reports a different additional capacity");
                }
                // A resize that was in progress may still complete.
                if idle && c >= a && m.capacity() < a {
                    sched::fail("capacity", "the container shrank below a live reservation");
                }
            }
            drop(r);
            op_end();
        }
        _ => unreachable!("{op:?}"),
    }
}

fn note(x: &'static str) {
    let r = reg();
    arena::off(|| r.notes.push(format!("{}{x} ", sched::current_id())));
}

static FLAG: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn flag_reset() {
    FLAG.store(false, std::sync::atomic::Ordering::Relaxed);
}
/// Waits for the signal while holding a lock.
fn wait_flag() {
    while !FLAG.load(std::sync::atomic::Ordering::Relaxed) {
        sched::yield_now();
    }
}
fn signal() {
    op_begin("signal", ALL);
    sched::quiet(sched::ADDR_HIST, true);
    FLAG.store(true, std::sync::atomic::Ordering::Relaxed);
    op_end();
}
fn cap_range(r: std::ops::RangeInclusive<usize>, cap: usize) {
    if r.start() > r.end() || *r.start() > 1 << 40 {
        let m = arena::off(|| format!("capacity_range() = {r:?}"));
        sched::fail("capacity", &m);
    }
    if cap > *r.end() {
        sched::fail("capacity", "the capacity exceeds the maximum capacity");
    }
}

/// `len` is only an estimate under concurrency, except that it cannot be absurd.
fn len_bounds(n: usize) {
    if n > 4096 {
        sched::fail("len", "the number of entries underflowed");
    }
}

impl Cont for Hm {
    const NAME: &'static str = "hashmap";
    const ORDERED: bool = false;
    fn make(cap: usize) -> Self {
        HashMap::with_capacity_and_hasher(cap, Bh)
    }
    fn exec(&self, op: &Op, asy: bool) {
        combos!(self, op, hm_exec, asy)
    }
    fn peek_final(&self, k: u32) -> Option<u32> {
        self.read_sync(&Q(k), |_, v| v.raw())
    }
    fn scan_final(&self) -> Vec<(u32, u32)> {
        let mut s = Vec::new();
        self.iter_sync(|k, v| {
            s.push((k.get(), v.raw()));
            true
        });
        s
    }
    fn len_final(&self) -> usize {
        self.len()
    }
    fn cap_final(&self) -> usize {
        self.capacity()
    }
    fn shape(&self) -> usize {
        self.capacity()
    }
}

// ---- HashIndex ----

async fn hi_exec(m: &Hi, op: &Op, asy: bool) {
    use Op::*;
    match *op {
        Ins(k, v) => {
            let t0 = op_begin("insert", k);
            let (a, b) = (Key::new(k), Val::new(v));
            let r = sa!(asy, m.insert_sync(a, b), m.insert_async(a, b));
            inserted("insert", k, v, t0, r);
        }
        Rem(k) => {
            let t0 = op_begin("remove", k);
            let r = sa!(asy, m.remove_sync(&Q(k)), m.remove_async(&Q(k)));
            let t1 = op_end();
            let (a, b) = if r { (Pre::Some, Post::Del) } else { (Pre::None, Post::Same) };
            ev("remove", k, t0, t1, a, b);
        }
        RemIf(k, w) => {
            let t0 = op_begin("remove_if", k);
            let mut saw = None;
            let f = |x: &Val| {
                saw = Some(x.rd());
                saw == Some(w)
            };
            let r = sa!(asy, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f));
            let t1 = op_end();
            if r != (saw == Some(w)) {
                sched::fail("wrong-return", "remove_if result disagrees with its condition");
            }
            ev("remove_if", k, t0, t1, opt(saw), if r { Post::Del } else { Post::Same });
        }
        Read(k) => {
            let t0 = op_begin("peek", k);
            let r = m.peek_with(&Q(k), |kk, x| {
                if kk.get() != k {
                    sched::fail("wrong-return", "peek visited a different key");
                }
                x.rd()
            });
            let t1 = op_end();
            ev("peek", k, t0, t1, opt(r), Post::Same);
        }
        Hold(k) => {
            let t0 = op_begin("peek+hold", k);
            let g = Guard::new();
            let r = m.peek(&Q(k), &g);
            let a = r.map(Val::rd);
            let t1 = op_end();
            sched::yield_now();
            if let (Some(x), Some(a)) = (r, a) {
                if x.rd() != a {
                    sched::fail("torn-read", "a value changed under a guard");
                }
            }
            drop(g);
            ev("peek+hold", k, t0, t1, opt(a), Post::Same);
        }
        Has(k) => {
            let t0 = op_begin("contains", k);
            let r = m.contains(&Q(k));
            let t1 = op_end();
            ev("contains", k, t0, t1, if r { Pre::Some } else { Pre::None }, Post::Same);
        }
        Signal => signal(),
        CapRange => {
            op_begin("capacity_range", ALL);
            let r = m.capacity_range();
            let c = m.capacity();
            op_end();
            cap_range(r, c);
        }
        Get(k) | GetYield(k) | HoldUntil(k) => {
            let t0 = op_begin("get", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|e| {
                let a = e.get().rd();
                if matches!(op, HoldUntil(_)) {
                    wait_flag();
                }
                if !matches!(op, Get(_)) {
                    sched::yield_now();
                    e.get().rd();
                }
                a
            });
            let t1 = op_end();
            ev("get", k, t0, t1, opt(r), Post::Same);
        }
        Update(k, v) | Upd(k, v) => {
            let t0 = op_begin("update", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|mut e| {
                let a = e.get().rd();
                e.update(Val::new(v));
                if e.get().rd() != v {
                    sched::fail("wrong-return", "an updated entry holds a different value");
                }
                a
            });
            let t1 = op_end();
            ev("update", k, t0, t1, opt(r), set_if(r, v));
        }
        GetRem(k) => {
            let t0 = op_begin("get+remove", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|e| {
                let a = e.get().rd();
                e.remove_entry();
                a
            });
            let t1 = op_end();
            ev("get+remove", k, t0, t1, opt(r), if r.is_some() { Post::Del } else { Post::Same });
        }
        OrIns(k, v) => {
            let t0 = op_begin("or_insert", k);
            let mut called = false;
            let e = sa!(asy, m.entry_sync(Key::new(k)), m.entry_async(Key::new(k)));
            let o = e.or_insert_with(|| {
                called = true;
                Val::new(v)
            });
            let r = o.get().rd();
            drop(o);
            or_inserted(k, v, t0, called, r);
        }
        EntIns(k, v) | TryEnt(k, v) => {
            let t0 = op_begin("entry_insert", k);
            let e = if matches!(op, TryEnt(..)) {
                match m.try_entry(Key::new(k)) {
                    Some(e) => e,
                    None => {
                        op_end();
                        note("try_entry=None");
                        return;
                    }
                }
            } else {
                sa!(asy, m.entry_sync(Key::new(k)), m.entry_async(Key::new(k)))
            };
            let old = match e {
                scc::hash_index::Entry::Occupied(mut o) => {
                    let a = o.get().rd();
                    o.update(Val::new(v));
                    Some(a)
                }
                scc::hash_index::Entry::Vacant(x) => {
                    drop(x.insert_entry(Val::new(v)));
                    None
                }
            };
            let t1 = op_end();
            ev("entry_insert", k, t0, t1, opt(old), Post::Set(v));
        }
        Scan => {
            let t0 = op_begin("iter", ALL);
            let mut seen = Seen::new();
            let g = Guard::new();
            for (k, v) in m.iter(&g) {
                seen.add(k.get(), v.rd());
            }
            drop(g);
            walked("iter", t0, &seen.0, &[]);
        }
        Range(..) => {
            // The locking iteration.
            let t0 = op_begin("iter_sync", ALL);
            let mut seen = Seen::new();
            let f = |k: &Key, v: &Val| {
                seen.add(k.get(), v.rd());
                true
            };
            sa!(asy, m.iter_sync(f), m.iter_async(f));
            walked("iter_sync", t0, &seen.0, &[]);
        }
        RetainNot(k) => {
            let t0 = op_begin("retain", k);
            let mut seen = Seen::new();
            let f = |kk: &Key, x: &Val| {
                seen.add(kk.get(), x.rd());
                k != ALL && kk.k != k
            };
            sa!(asy, m.retain_sync(f), m.retain_async(f));
            retained(k, t0, &seen.0);
        }
        Clear => {
            let t0 = op_begin("clear", ALL);
            sa!(asy, m.clear_sync(), m.clear_async());
            cleared(t0);
        }
        Walk | WalkRem(_) => {
            let rk = if let WalkRem(k) = *op { Some(k) } else { None };
            let t0 = op_begin("walk", ALL);
            let mut seen = Seen::new();
            let mut gone = Seen::new();
            let mut cur = sa!(asy, m.begin_sync(), m.begin_async());
            while let Some(e) = cur {
                let (k, v) = (e.key().get(), e.get().rd());
                seen.add(k, v);
                if rk.is_some_and(|r| r == ALL || r == k) {
                    gone.add(k, v);
                    cur = sa!(asy, e.remove_and_sync(), e.remove_and_async());
                } else {
                    cur = sa!(asy, e.next_sync(), e.next_async());
                }
            }
            walked("walk", t0, &seen.0, &gone.0);
        }
        Any(k) => {
            let t0 = op_begin("any", k);
            let f = |kk: &Key, _: &Val| kk.get() == k;
            let r = sa!(asy, m.any_sync(f), m.any_async(f));
            let r = r.map(|e| e.get().rd());
            let t1 = op_end();
            ev("any", k, t0, t1, opt(r), Post::Same);
        }
        Len => {
            op_begin("len", ALL);
            let n = m.len();
            op_end();
            len_bounds(n);
        }
        Reserve(n) => {
            op_begin("reserve", ALL);
            let r = m.reserve(n);
            op_end();
            let idle = sched::others_idle();
            let c = m.capacity();
            op_begin("reserve drop", ALL);
            if let Some(r) = &r {
                let a = r.additional_capacity();
                if a != n {
                    sched::fail("capacity", "a reservation reports a different additional capacity");
                }
                // A resize that was in progress may still complete.
                if idle && c >= a && m.capacity() < a {
                    sched::fail("capacity", "the container shrank below a live reservation");
                }
            }
            drop(r);
            op_end();
        }
        _ => unreachable!("{op:?}"),
    }
}

impl Cont for Hi {
    const NAME: &'static str = "hashindex";
    const ORDERED: bool = false;
    fn make(cap: usize) -> Self {
        HashIndex::with_capacity_and_hasher(cap, Bh)
    }
    fn exec(&self, op: &Op, asy: bool) {
        combos!(self, op, hi_exec, asy)
    }
    fn peek_final(&self, k: u32) -> Option<u32> {
        self.peek_with(&Q(k), |_, v| v.raw())
    }
    fn scan_final(&self) -> Vec<(u32, u32)> {
        let mut s = Vec::new();
        let g = Guard::new();
        for (k, v) in self.iter(&g) {
            s.push((k.get(), v.raw()));
        }
        s
    }
    fn len_final(&self) -> usize {
        self.len()
    }
    fn cap_final(&self) -> usize {
        self.capacity()
    }
    fn shape(&self) -> usize {
        self.capacity()
    }
}

// ---- HashCache ----

fn evicted(t0: u64, t1: u64, e: Option<(u32, u32)>) {
    if let Some((k, v)) = e {
        ev("evicted", k, t0, t1, Pre::Is(v), Post::Del);
    }
}

async fn hc_exec(m: &Hc, op: &Op, asy: bool) {
    use Op::*;
    match *op {
        Ins(k, v) => {
            let t0 = op_begin("put", k);
            let (a, b) = (Key::new(k), Val::new(v));
            let r = sa!(asy, m.put_sync(a, b), m.put_async(a, b));
            match r {
                Ok(e) => {
                    let e = e.map(|(a, b)| (a.get(), b.own()));
                    let t1 = op_end();
                    evicted(t0, t1, e);
                    ev("put", k, t0, t1, Pre::None, Post::Set(v));
                }
                Err((kk, vv)) => {
                    if kk.get() != k || vv.own() != v {
                        sched::fail("wrong-return", "a failed put returned a different pair");
                    }
                    drop(kk);
                    let t1 = op_end();
                    ev("put", k, t0, t1, Pre::Some, Post::Same);
                }
            }
        }
        Rem(k) => {
            let t0 = op_begin("remove", k);
            let r = sa!(asy, m.remove_sync(&Q(k)), m.remove_async(&Q(k)));
            removed("remove", k, t0, r);
        }
        RemIf(k, w) => {
            let t0 = op_begin("remove_if", k);
            let mut saw = None;
            let f = |x: &mut Val| {
                saw = Some(x.rd());
                saw == Some(w)
            };
            let r = sa!(asy, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f));
            remif(k, w, t0, saw, r);
        }
        Read(k) => {
            let t0 = op_begin("read", k);
            let f = |_: &Key, x: &Val| x.rd();
            let r = sa!(asy, m.read_sync(&Q(k), f), m.read_async(&Q(k), f));
            let t1 = op_end();
            ev("read", k, t0, t1, opt(r), Post::Same);
        }
        Has(k) => {
            let t0 = op_begin("contains", k);
            let r = sa!(asy, m.contains_sync(&Q(k)), m.contains_async(&Q(k)));
            let t1 = op_end();
            ev("contains", k, t0, t1, if r { Pre::Some } else { Pre::None }, Post::Same);
        }
        Get(k) => {
            let t0 = op_begin("get", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|e| e.get().rd());
            let t1 = op_end();
            ev("get", k, t0, t1, opt(r), Post::Same);
        }
        Signal => signal(),
        CapRange => {
            op_begin("capacity_range", ALL);
            let r = m.capacity_range();
            let c = m.capacity();
            op_end();
            cap_range(r, c);
        }
        GetYield(k) | HoldUntil(k) => {
            let t0 = op_begin("get+hold", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|mut e| {
                let a = e.get_mut().wr(90);
                if matches!(op, HoldUntil(_)) {
                    wait_flag();
                }
                sched::yield_now();
                if e.get_mut().wr(91) != 90 {
                    sched::fail("exclusion", "a locked entry changed under its holder");
                }
                a
            });
            let t1 = op_end();
            ev("get+hold", k, t0, t1, opt(r), set_if(r, 91));
        }
        GetMut(k, v) | Upd(k, v) => {
            let t0 = op_begin("get_mut", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|mut e| e.get_mut().wr(v));
            let t1 = op_end();
            ev("get_mut", k, t0, t1, opt(r), set_if(r, v));
        }
        GetRem(k) => {
            let t0 = op_begin("get+remove", k);
            let r = sa!(asy, m.get_sync(&Q(k)), m.get_async(&Q(k)));
            let r = r.map(|e| e.remove_entry());
            removed("get+remove", k, t0, r);
        }
        OrIns(k, v) => {
            let t0 = op_begin("or_put", k);
            let mut called = false;
            let e = sa!(asy, m.entry_sync(Key::new(k)), m.entry_async(Key::new(k)));
            let (x, o) = e.or_put_with(|| {
                called = true;
                Val::new(v)
            });
            let r = o.get().rd();
            drop(o);
            let x = x.map(|(a, b)| (a.get(), b.own()));
            let t1 = op_end();
            evicted(t0, t1, x);
            if called {
                ev("or_put", k, t0, t1, Pre::None, Post::Set(v));
            } else {
                ev("or_put", k, t0, t1, Pre::Is(r), Post::Same);
            }
        }
        EntIns(k, v) | TryEnt(k, v) => {
            let t0 = op_begin("put_entry", k);
            let e = if matches!(op, TryEnt(..)) {
                match m.try_entry(Key::new(k)) {
                    Some(e) => e,
                    None => {
                        op_end();
                        note("try_entry=None");
                        return;
                    }
                }
            } else {
                sa!(asy, m.entry_sync(Key::new(k)), m.entry_async(Key::new(k)))
            };
            let (x, old) = match e {
                scc::hash_cache::Entry::Occupied(mut o) => (None, Some(o.put(Val::new(v)).own())),
                scc::hash_cache::Entry::Vacant(x) => {
                    let (x, o) = x.put_entry(Val::new(v));
                    drop(o);
                    (x.map(|(a, b)| (a.get(), b.own())), None)
                }
            };
            let t1 = op_end();
            evicted(t0, t1, x);
            ev("put_entry", k, t0, t1, opt(old), Post::Set(v));
        }
        Replace(k, v) => {
            let t0 = op_begin("replace", k);
            let r = sa!(asy, m.replace_sync(Key::new(k)), m.replace_async(Key::new(k)));
            match r {
                scc::hash_cache::ReplaceResult::Replaced(e, kk) => {
                    let x = e.get().rd();
                    if kk.get() != k {
                        sched::fail("wrong-return", "replace returned a different key");
                    }
                    drop(e);
                    let t1 = op_end();
                    ev("replace", k, t0, t1, Pre::Is(x), Post::Same);
                }
                scc::hash_cache::ReplaceResult::NotReplaced(x) => {
                    let (x, o) = x.put_entry(Val::new(v));
                    drop(o);
                    let x = x.map(|(a, b)| (a.get(), b.own()));
                    let t1 = op_end();
                    evicted(t0, t1, x);
                    ev("replace", k, t0, t1, Pre::None, Post::Set(v));
                }
            }
        }
        Scan => {
            let t0 = op_begin("scan", ALL);
            let mut seen = Seen::new();
            let f = |k: &Key, v: &Val| {
                seen.add(k.get(), v.rd());
                true
            };
            sa!(asy, m.iter_sync(f), m.iter_async(f));
            walked("scan", t0, &seen.0, &[]);
        }
        ScanRem(k) => {
            let t0 = op_begin("iter_mut", k);
            let mut seen = Seen::new();
            let mut gone = Seen::new();
            let f = |e: scc::hash_cache::ConsumableEntry<'_, Key, Val>| {
                let (kk, v) = (e.0.get(), e.1.rd());
                seen.add(kk, v);
                if k == ALL || kk == k {
                    let (a, b) = e.consume();
                    if a.get() != kk || b.own() != v {
                        sched::fail("wrong-return", "consume returned a different entry");
                    }
                    gone.add(kk, v);
                }
                true
            };
            sa!(asy, m.iter_mut_sync(f), m.iter_mut_async(f));
            walked("iter_mut", t0, &seen.0, &gone.0);
        }
        RetainNot(k) => {
            let t0 = op_begin("retain", k);
            let mut seen = Seen::new();
            let f = |kk: &Key, x: &mut Val| {
                seen.add(kk.get(), x.rd());
                k != ALL && kk.k != k
            };
            sa!(asy, m.retain_sync(f), m.retain_async(f));
            retained(k, t0, &seen.0);
        }
        Clear => {
            let t0 = op_begin("clear", ALL);
            sa!(asy, m.clear_sync(), m.clear_async());
            cleared(t0);
        }
        Len => {
            op_begin("len", ALL);
            let n = m.len();
            op_end();
            len_bounds(n);
        }
        _ => unreachable!("{op:?}"),
    }
}

impl Cont for Hc {
    const NAME: &'static str = "hashcache";
    const ORDERED: bool = false;
    fn make(cap: usize) -> Self {
        HashCache::with_capacity_and_hasher(64, cap.max(64), Bh)
    }
    fn exec(&self, op: &Op, asy: bool) {
        combos!(self, op, hc_exec, asy)
    }
    fn peek_final(&self, k: u32) -> Option<u32> {
        self.read_sync(&Q(k), |_, v| v.raw())
    }
    fn scan_final(&self) -> Vec<(u32, u32)> {
        let mut s = Vec::new();
        self.iter_sync(|k, v| {
            s.push((k.get(), v.raw()));
            true
        });
        s
    }
    fn len_final(&self) -> usize {
        self.len()
    }
    fn cap_final(&self) -> usize {
        self.capacity()
    }
    fn shape(&self) -> usize {
        self.capacity()
    }
}

// ---- TreeIndex ----

fn ordered(seen: &[(u32, u32)]) {
    for w in seen.windows(2) {
        if w[0].0 >= w[1].0 {
            let m = arena::off(|| format!("a scan yielded {:#x} and then {:#x}", w[0].0, w[1].0));
            sched::fail("not-ordered", &m);
        }
    }
}

async fn ti_exec(m: &Ti, op: &Op, asy: bool) {
    use Op::*;
    match *op {
        Ins(k, v) => {
            let t0 = op_begin("insert", k);
            let (a, b) = (Key::new(k), Val::new(v));
            let r = sa!(asy, m.insert_sync(a, b), m.insert_async(a, b));
            inserted("insert", k, v, t0, r);
        }
        Rem(k) => {
            let t0 = op_begin("remove", k);
            let r = sa!(asy, m.remove_sync(&Q(k)), m.remove_async(&Q(k)));
            let t1 = op_end();
            let (a, b) = if r { (Pre::Some, Post::Del) } else { (Pre::None, Post::Same) };
            ev("remove", k, t0, t1, a, b);
        }
        RemIf(k, w) => {
            let t0 = op_begin("remove_if", k);
            let mut saw = None;
            let f = |x: &Val| {
                saw = Some(x.rd());
                saw == Some(w)
            };
            let r = sa!(asy, m.remove_if_sync(&Q(k), f), m.remove_if_async(&Q(k), f));
            let t1 = op_end();
            if r {
                ev("remove_if", k, t0, t1, Pre::Is(w), Post::Del);
            } else {
                ev("remove_if", k, t0, t1, opt(saw.filter(|s| *s != w)), Post::Same);
            }
        }
        Read(k) => {
            let t0 = op_begin("peek", k);
            let r = m.peek_with(&Q(k), |kk, x| {
                if kk.get() != k {
                    sched::fail("wrong-return", "peek visited a different key");
                }
                x.rd()
            });
            let t1 = op_end();
            ev("peek", k, t0, t1, opt(r), Post::Same);
        }
        Hold(k) => {
            let t0 = op_begin("peek+hold", k);
            let g = Guard::new();
            let r = m.peek_entry(&Q(k), &g);
            let a = r.map(|r| r.1.rd());
            let t1 = op_end();
            sched::yield_now();
            if let (Some(x), Some(a)) = (r, a) {
                if x.1.rd() != a || x.0.get() != k {
                    sched::fail("torn-read", "an entry changed under a guard");
                }
            }
            drop(g);
            ev("peek+hold", k, t0, t1, opt(a), Post::Same);
        }
        Has(k) => {
            let t0 = op_begin("contains", k);
            let r = m.contains(&Q(k));
            let t1 = op_end();
            ev("contains", k, t0, t1, if r { Pre::Some } else { Pre::None }, Post::Same);
        }
        Scan => {
            let t0 = op_begin("iter", ALL);
            let mut seen = Seen::new();
            let g = Guard::new();
            for (k, v) in m.iter(&g) {
                seen.add(k.get(), v.rd());
            }
            drop(g);
            ordered(&seen.0);
            walked("iter", t0, &seen.0, &[]);
        }
        Range(a, b) => {
            let t0 = op_begin("range", a);
            let mut seen = Seen::new();
            let g = Guard::new();
            for (k, v) in m.range(Q(a)..Q(b), &g) {
                seen.add(k.get(), v.rd());
            }
            drop(g);
            ordered(&seen.0);
            let t1 = op_end();
            for &(k, v) in &seen.0 {
                if k < a || k >= b {
                    sched::fail("out-of-range", "a range scan yielded a key outside of its bounds");
                }
                ev("range", k, t0, t1, Pre::Is(v), Post::Same);
            }
            for &k in keys() {
                if k >= a && k < b && !seen.0.iter().any(|s| s.0 == k) {
                    ev("range", k, t0, t1, Pre::None, Post::Same);
                }
            }
        }
        RemRange(a, b) => {
            let t0 = op_begin("remove_range", a);
            sa!(asy, m.remove_range_sync(Q(a)..Q(b)), m.remove_range_async(Q(a)..Q(b)));
            let t1 = op_end();
            for &k in keys() {
                if k >= a && k < b {
                    ev("remove_range", k, t0, t1, Pre::Any, Post::Del);
                    // Not atomic: a key inserted again in the meantime may be removed again.
                    ev_m("remove_range", k, t0, t1, Pre::Some, Post::Del, true);
                }
            }
        }
        Clear => {
            let t0 = op_begin("clear", ALL);
            m.clear();
            cleared(t0);
        }
        Len => {
            op_begin("len", ALL);
            let n = m.len();
            op_end();
            len_bounds(n);
        }
        _ => unreachable!("{op:?}"),
    }
}

impl Cont for Ti {
    const NAME: &'static str = "treeindex";
    const ORDERED: bool = true;
    fn make(_: usize) -> Self {
        TreeIndex::new()
    }
    fn exec(&self, op: &Op, asy: bool) {
        combos!(self, op, ti_exec, asy)
    }
    fn peek_final(&self, k: u32) -> Option<u32> {
        self.peek_with(&Q(k), |_, v| v.raw())
    }
    fn scan_final(&self) -> Vec<(u32, u32)> {
        let mut s = Vec::new();
        let g = Guard::new();
        for (k, v) in self.iter(&g) {
            s.push((k.get(), v.raw()));
        }
        s
    }
    fn len_final(&self) -> usize {
        self.len()
    }
    fn cap_final(&self) -> usize {
        usize::MAX
    }
    fn shape(&self) -> usize {
        self.depth()
    }
}
