//! Instrumented keys and values, recorded histories and the linearizability oracle.

use std::cell::Cell;
use std::collections::{BTreeMap, HashSet};
use std::future::Future;
use std::hash::{BuildHasher, Hash, Hasher};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Wake, Waker};

use loom::arena;
use loom::sched;

const ALIVE_V: u32 = 0x5a5a_1234;
const ALIVE_K: u32 = 0x3c3c_4321;
const DEAD: u32 = 0xdead_beef;

/// Per-execution bookkeeping, kept outside of the arena.
pub struct Reg {
    /// Live instances.
    pub live: Vec<bool>,
    pub live_n: i64,
    pub hist: Vec<Ev>,
    pub clones: u64,
    pub deep: bool,
    pub notes: Vec<String>,
    /// Ordinal of operations, for labels.
    pub baseline: i64,
}

static mut REG: Option<Reg> = None;

#[allow(static_mut_refs)]
pub fn reg() -> &'static mut Reg {
    unsafe {
        if REG.is_none() {
            arena::off(|| {
                REG = Some(Reg {
                    live: Vec::with_capacity(1 << 14),
                    live_n: 0,
                    hist: Vec::with_capacity(1024),
                    clones: 0,
                    deep: true,
                    notes: Vec::new(),
                    baseline: 0,
                });
            });
        }
        REG.as_mut().unwrap()
    }
}

/// Saves the registry at a checkpoint.
pub fn install() {
    sched::s().on_save.push(|| {
        let r = reg();
        let (live, live_n, hist, clones, deep, notes, baseline) =
            (r.live.clone(), r.live_n, r.hist.clone(), r.clones, r.deep, r.notes.clone(), r.baseline);
        Box::new(move || {
            let r = reg();
            r.live.clear();
            r.live.extend_from_slice(&live);
            r.live_n = live_n;
            r.hist.clear();
            r.hist.extend_from_slice(&hist);
            r.clones = clones;
            r.deep = deep;
            r.notes.clear();
            r.notes.extend_from_slice(&notes);
            r.baseline = baseline;
        })
    });
}

/// Starts an execution.
pub fn begin() {
    let r = reg();
    r.live.clear();
    r.live_n = 0;
    r.hist.clear();
    r.clones = 0;
    r.deep = true;
    r.notes.clear();
    drop(sdd::Guard::new());
    r.baseline = arena::live();
}

fn new_id() -> u32 {
    let r = reg();
    let id = r.live.len() as u32;
    arena::off(|| r.live.push(true));
    r.live_n += 1;
    id
}

#[cfg_attr(feature = "plain", allow(dead_code))]
fn kill_id(id: u32, what: &str, canary: u32, alive: u32) {
    let r = reg();
    if canary != alive {
        sched::fail(
            if canary == DEAD { "double-drop" } else { "corrupt-drop" },
            &arena::off(|| format!("{what} dropped with canary {canary:#x} (expected a live instance)")),
        );
    }
    if id as usize >= r.live.len() || !r.live[id as usize] {
        sched::fail("double-drop", &arena::off(|| format!("{what} instance {id} dropped twice")));
    }
    r.live[id as usize] = false;
    r.live_n -= 1;
}

/// A value: detects use after drop, duplicate drops, torn or unsynchronized access.
pub struct Val {
    canary: Cell<u32>,
    id: u32,
    v: Cell<u32>,
    /// `> 0`: readers; `-1`: a writer.
    rw: Cell<i32>,
    stamp: Cell<(usize, u32)>,
}
unsafe impl Send for Val {}
unsafe impl Sync for Val {}

impl Val {
    pub fn new(v: u32) -> Self {
        Val {
            canary: Cell::new(ALIVE_V),
            id: new_id(),
            v: Cell::new(v),
            rw: Cell::new(0),
            stamp: Cell::new(sched::hb_stamp()),
        }
    }
    fn check(&self) {
        let c = self.canary.get();
        if c != ALIVE_V {
            sched::fail(
                "use-after-free",
                &arena::off(|| {
                    format!(
                        "a reader saw {} value memory (canary {c:#x})",
                        if c == DEAD { "dropped" } else { "uninitialized or freed" }
                    )
                }),
            );
        }
        if !reg().live.get(self.id as usize).copied().unwrap_or(false) {
            sched::fail("use-after-free", "a reader saw a value whose instance was already dropped");
        }
        if !sched::hb_ordered(self.stamp.get()) {
            sched::fail("data-race", "a value was read without a happens-before edge from its last write");
        }
    }
    /// Shared access.
    pub fn rd(&self) -> u32 {
        self.check();
        if self.rw.get() < 0 {
            sched::fail("exclusion", "shared access to a value while another thread has exclusive access");
        }
        let a = self.v.get();
        if reg().deep {
            self.rw.set(self.rw.get() + 1);
            sched::point(&raw const *self as usize, false);
            self.check();
            self.rw.set(self.rw.get() - 1);
            if self.v.get() != a {
                sched::fail("torn-read", "a value changed while it was being read");
            }
        }
        a
    }
    /// Exclusive access.
    pub fn wr(&mut self, new: u32) -> u32 {
        self.check();
        if self.rw.get() != 0 {
            sched::fail("exclusion", "exclusive access to a value while another thread accesses it");
        }
        let a = self.v.get();
        if reg().deep {
            self.rw.set(-1);
            sched::point(&raw const *self as usize, true);
            self.check();
            self.rw.set(0);
            if self.v.get() != a {
                sched::fail("torn-write", "a value changed under exclusive access");
            }
        }
        self.v.set(new);
        self.stamp.set(sched::hb_stamp());
        a
    }
    /// Consumes an owned value.
    pub fn own(self) -> u32 {
        self.check();
        if self.rw.get() != 0 {
            sched::fail("exclusion", "a value was moved out while it was being accessed");
        }
        self.v.get()
    }
    pub fn raw(&self) -> u32 {
        self.check();
        self.v.get()
    }
}
#[cfg(not(feature = "plain"))]
impl Drop for Val {
    fn drop(&mut self) {
        if self.rw.get() != 0 && self.canary.get() == ALIVE_V {
            sched::fail("exclusion", "a value was dropped while it was being accessed");
        }
        kill_id(self.id, "value", self.canary.get(), ALIVE_V);
        self.canary.set(DEAD);
    }
}
impl Clone for Val {
    fn clone(&self) -> Self {
        self.check();
        reg().clones += 1;
        Val::new(self.v.get())
    }
}
impl PartialEq for Val {
    fn eq(&self, o: &Val) -> bool {
        self.check();
        o.check();
        self.v.get() == o.v.get()
    }
}

/// A key: bits 8..16 select the bucket, bits 0..8 are the partial hash, the rest is ignored by
/// the hash function.
pub struct Key {
    canary: Cell<u32>,
    id: u32,
    pub k: u32,
    stamp: Cell<(usize, u32)>,
}
unsafe impl Send for Key {}
unsafe impl Sync for Key {}
impl Key {
    pub fn new(k: u32) -> Self {
        Key {
            canary: Cell::new(ALIVE_K),
            id: new_id(),
            k,
            stamp: Cell::new(sched::hb_stamp()),
        }
    }
    fn check(&self) {
        let c = self.canary.get();
        if c != ALIVE_K {
            sched::fail(
                "use-after-free",
                &arena::off(|| {
                    format!(
                        "{} key memory was accessed (canary {c:#x})",
                        if c == DEAD { "dropped" } else { "uninitialized or freed" }
                    )
                }),
            );
        }
        if !reg().live.get(self.id as usize).copied().unwrap_or(false) {
            sched::fail("use-after-free", "a key whose instance was already dropped was accessed");
        }
        if !sched::hb_ordered(self.stamp.get()) {
            sched::fail("data-race", "a key was read without a happens-before edge from its creation");
        }
    }
    pub fn get(&self) -> u32 {
        self.check();
        self.k
    }
}
#[cfg(not(feature = "plain"))]
impl Drop for Key {
    fn drop(&mut self) {
        kill_id(self.id, "key", self.canary.get(), ALIVE_K);
        self.canary.set(DEAD);
    }
}
impl Clone for Key {
    fn clone(&self) -> Self {
        self.check();
        reg().clones += 1;
        Key::new(self.k)
    }
}
impl PartialEq for Key {
    fn eq(&self, o: &Key) -> bool {
        self.check();
        o.check();
        self.k == o.k
    }
}
impl Eq for Key {}
impl PartialOrd for Key {
    fn partial_cmp(&self, o: &Key) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Key {
    fn cmp(&self, o: &Key) -> std::cmp::Ordering {
        self.check();
        o.check();
        self.k.cmp(&o.k)
    }
}
impl Hash for Key {
    fn hash<H: Hasher>(&self, h: &mut H) {
        self.check();
        h.write_u32(self.k);
    }
}

/// Lookup key.
#[derive(PartialEq, Eq, PartialOrd, Ord, Clone, Copy)]
pub struct Q(pub u32);
impl Hash for Q {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(self.0);
    }
}
impl scc::Equivalent<Key> for Q {
    fn equivalent(&self, k: &Key) -> bool {
        k.check();
        self.0 == k.k
    }
}
impl scc::Comparable<Key> for Q {
    fn compare(&self, k: &Key) -> std::cmp::Ordering {
        k.check();
        self.0.cmp(&k.k)
    }
}

#[derive(Clone, Default)]
pub struct Bh;
#[derive(Default)]
pub struct Hs(u64);
impl BuildHasher for Bh {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(0)
    }
}
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(u64::from(*x));
        }
    }
    fn write_u32(&mut self, k: u32) {
        self.0 = u64::from((k >> 8) & 0xff) << 56 | u64::from(k & 0xff);
    }
}

// ---- histories ----

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Pre {
    Is(u32),
    Some,
    None,
    Any,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Post {
    Same,
    Set(u32),
    Del,
}
#[derive(Clone, Debug)]
pub struct Ev {
    pub th: usize,
    pub key: u32,
    pub inv: u64,
    pub res: u64,
    pub pre: Pre,
    pub post: Post,
    pub maybe: bool,
    pub name: &'static str,
}

pub fn op_begin(name: &'static str, key: u32) -> u64 {
    sched::op_begin(|| if key == ALL { name.to_string() } else { format!("{name} {key:#x}") })
}
pub const ALL: u32 = u32::MAX;

pub fn op_end() -> u64 {
    sched::op_end(String::new)
}

pub fn ev(name: &'static str, key: u32, inv: u64, res: u64, pre: Pre, post: Post) {
    ev_m(name, key, inv, res, pre, post, false);
}
pub fn ev_m(name: &'static str, key: u32, inv: u64, res: u64, pre: Pre, post: Post, maybe: bool) {
    let th = sched::current_id();
    let r = reg();
    let e = Ev { th, key, inv, res, pre, post, maybe, name };
    arena::off(|| {
        sched::trace_note(|| {
            format!("T{th} observed {name} {key:#x}: {pre:?} -> {post:?}{}", if maybe { " (maybe)" } else { "" })
        });
        r.hist.push(e);
    });
}

/// Checks that the events of one key are explained by a sequential history.
fn lin_key(evs: &[&Ev], init: Option<u32>) -> bool {
    // State after applying a subset, depth first.
    fn step(pre: Pre, post: Post, st: Option<u32>) -> Option<Option<u32>> {
        let ok = match pre {
            Pre::Is(v) => st == Some(v),
            Pre::Some => st.is_some(),
            Pre::None => st.is_none(),
            Pre::Any => true,
        };
        if !ok {
            return None;
        }
        Some(match post {
            Post::Same => st,
            Post::Set(v) => Some(v),
            Post::Del => None,
        })
    }
    fn go(evs: &[&Ev], done: u64, st: Option<u32>, seen: &mut HashSet<(u64, Option<u32>)>) -> bool {
        if done == (1u64 << evs.len()) - 1 {
            return true;
        }
        if !seen.insert((done, st)) {
            return false;
        }
        let mut min_res = u64::MAX;
        for (i, e) in evs.iter().enumerate() {
            if done >> i & 1 == 0 {
                min_res = min_res.min(e.res);
            }
        }
        for (i, e) in evs.iter().enumerate() {
            if done >> i & 1 == 0 && e.inv <= min_res {
                if let Some(n) = step(e.pre, e.post, st) {
                    if go(evs, done | 1 << i, n, seen) {
                        return true;
                    }
                }
                if e.maybe && go(evs, done | 1 << i, st, seen) {
                    return true;
                }
            }
        }
        false
    }
    assert!(evs.len() < 63);
    let mut seen = HashSet::new();
    go(evs, 0, init, &mut seen)
}

/// Checks the recorded history per key; `init` is the initial abstract state.
pub fn check_history(init: &BTreeMap<u32, u32>) {
    let r = reg();
    let err = arena::off(|| {
        let mut all: Vec<&Ev> = r.hist.iter().collect();
        all.sort_by_key(|e| (e.key, e.inv));
        let mut rest = &all[..];
        while let Some(first) = rest.first() {
            let k = first.key;
            let n = rest.iter().take_while(|e| e.key == k).count();
            let (evs, r) = rest.split_at(n);
            rest = r;
            let i = init.get(&k).copied();
            // Fast path: reads only.
            if evs.iter().all(|e| e.post == Post::Same) {
                let ok = evs.iter().all(|e| match e.pre {
                    Pre::Is(v) => i == Some(v),
                    Pre::Some => i.is_some(),
                    Pre::None => i.is_none(),
                    Pre::Any => true,
                });
                if ok {
                    continue;
                }
            } else if lin_key(evs, i) {
                continue;
            }
            // An update of a hash index removes the entry and adds another one: an iterator that
            // overlaps it may have passed the place of the new entry before.
            let strict: Vec<&Ev> = evs
                .iter()
                .copied()
                .filter(|e| {
                    !(e.name == "iter"
                        && e.pre == Pre::None
                        && evs.iter().any(|u| u.name == "update" && u.inv < e.res && e.inv < u.res))
                        // A range is removed by detaching whole nodes: as documented, an iterator
                        // may visit entries that are no longer found "momentarily", and it need
                        // not visit those that are being removed.
                        && !(matches!(e.name, "iter" | "range")
                            && evs.iter().any(|u| {
                                u.name == "remove_range" && u.inv < e.res && e.inv < u.res
                            })
                            && match e.pre {
                                Pre::Is(v) => {
                                    i == Some(v)
                                        || evs.iter().any(|u| u.post == Post::Set(v) && u.inv < e.res)
                                }
                                _ => true,
                            })
                })
                .collect();
            if strict.len() < evs.len() && lin_key(&strict, i) {
                continue;
            }
            let mut m = format!("no sequential order explains the operations on key {k:#x} (initially {i:?}):");
            for e in evs {
                m.push_str(&format!(
                    " [T{} {} {:?}->{:?}{} @{}-{}]",
                    e.th,
                    e.name,
                    e.pre,
                    e.post,
                    if e.maybe { "?" } else { "" },
                    e.inv,
                    e.res
                ));
            }
            return Some(m);
        }
        None
    });
    if let Some(m) = err {
        sched::fail("not-linearizable", &m);
    }
}

/// Records the observable outcome of an execution.
pub fn record_outcome(init: &BTreeMap<u32, u32>) {
    let r = reg();
    sched::outcome(|| {
        let mut v: Vec<&Ev> = r.hist.iter().filter(|e| e.name != "final").collect();
        v.sort_by_key(|e| (e.th, e.inv, e.key));
        let mut o = String::new();
        for e in v {
            o.push_str(&format!("{}{}:{:x}={:?}/{:?} ", e.th, e.name, e.key, e.pre, e.post));
        }
        for n in &r.notes {
            o.push_str(n);
        }
        // What changed.
        for e in r.hist.iter().filter(|e| e.name == "final") {
            match (e.pre, init.get(&e.key)) {
                (Pre::Is(v), i) if i != Some(&v) => o.push_str(&format!("{:x}:{v} ", e.key)),
                (Pre::None, Some(_)) => o.push_str(&format!("{:x}:- ", e.key)),
                _ => (),
            }
        }
        o
    });
}

/// Flushes deferred reclamation.
pub fn quiesce() {
    sched::atomically(|| {
        // A chain of retired blocks is freed link by link: until nothing changes any more.
        let (mut rest, mut last) = (40, arena::live());
        while rest != 0 {
            let g = sdd::Guard::new();
            g.set_has_garbage();
            g.accelerate();
            drop(g);
            rest -= 1;
            if arena::live() != last {
                (rest, last) = (40, arena::live());
            }
        }
    });
}

/// All instances are dropped and all memory is returned.
pub fn check_no_leak() {
    quiesce();
    let r = reg();
    if r.live_n != 0 && cfg!(not(feature = "plain")) {
        let m = arena::off(|| format!("{} key or value instances were never dropped", r.live_n));
        sched::fail("leak", &m);
    }
    let l = arena::live() - r.baseline;
    if l != 0 {
        let m = arena::off(|| format!("{l} allocations were not returned"));
        sched::fail("leak-memory", &m);
    }
}

// ---- a minimal executor ----

struct W(loom::thread::Thread);
impl Wake for W {
    fn wake(self: Arc<Self>) {
        self.0.unpark();
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.0.unpark();
    }
}

pub fn waker() -> Waker {
    Arc::new(W(loom::thread::current())).into()
}

pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    loop {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(r) => return r,
            Poll::Pending => loom::thread::park(),
        }
    }
}

/// Polls at most `n` times, then drops the future: `None` if it was cancelled.
pub fn poll_n<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let r = poll_n_inner(f, n);
    sched::set_phase(0);
    r
}

/// A thread spins while a cancelled future is being dropped: known finding F1 if the thread
/// waits for a poisoned lock to leave its (final) poisoned state.
pub fn spin_probe(phase: u32, addr: usize) {
    const POISONED: usize = 64;
    if phase == 1 && addr > 4096 && addr % 8 == 0 && unsafe { *(addr as *const usize) } == POISONED {
        sched::fail(
            "cancel-after-poison",
            "dropping a pending future whose bucket has been retired spins forever on the poisoned lock of the bucket",
        );
    }
}

fn poll_n_inner<F: Future>(f: F, n: usize) -> Option<F::Output> {
    let mut f = std::pin::pin!(f);
    let w = waker();
    let mut cx = Context::from_waker(&w);
    for i in 0..n {
        match f.as_mut().poll(&mut cx) {
            Poll::Ready(r) => return Some(r),
            Poll::Pending => {
                if i + 1 < n {
                    loom::thread::park();
                }
            }
        }
    }
    sched::set_phase(1);
    None
}

/// Polls two futures in one task until both are done.
pub fn join2<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
    struct J<A: Future, B: Future> {
        a: Pin<Box<A>>,
        b: Pin<Box<B>>,
        ra: Option<A::Output>,
        rb: Option<B::Output>,
    }
    impl<A: Future, B: Future> Unpin for J<A, B> {}
    impl<A: Future, B: Future> Future for J<A, B> {
        type Output = (A::Output, B::Output);
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
            let t = &mut *self;
            if t.ra.is_none() {
                if let Poll::Ready(r) = t.a.as_mut().poll(cx) {
                    t.ra = Some(r);
                }
            }
            if t.rb.is_none() {
                if let Poll::Ready(r) = t.b.as_mut().poll(cx) {
                    t.rb = Some(r);
                }
            }
            if t.ra.is_some() && t.rb.is_some() {
                return Poll::Ready((t.ra.take().unwrap(), t.rb.take().unwrap()));
            }
            Poll::Pending
        }
    }
    block_on(J { a: Box::pin(a), b: Box::pin(b), ra: None, rb: None })
}
