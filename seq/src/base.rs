//! Accounting, fault injection and instrumented keys and values. One thread per process.
#![allow(static_mut_refs)]

use std::alloc::{GlobalAlloc, Layout, System};
use std::future::Future;
use std::hash::{BuildHasher, Hash, Hasher};
use std::pin::pin;
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering::Relaxed};
use std::task::{Context, Poll, Waker};

pub struct A;
pub static LIVE: AtomicI64 = AtomicI64::new(0);
pub static LIVE_BYTES: AtomicI64 = AtomicI64::new(0);
/// Number of the allocation to fail; negative: none.
static FAIL_AT: AtomicI64 = AtomicI64::new(-1);
static COUNTING: AtomicBool = AtomicBool::new(false);
pub static NALLOC: AtomicU64 = AtomicU64::new(0);
pub static FAILED: AtomicBool = AtomicBool::new(false);

fn should_fail() -> bool {
    if COUNTING.load(Relaxed) {
        NALLOC.fetch_add(1, Relaxed);
        let n = FAIL_AT.load(Relaxed);
        if n >= 0 {
            FAIL_AT.store(n - 1, Relaxed);
            if n == 0 {
                FAILED.store(true, Relaxed);
                return true;
            }
        }
    }
    false
}

// ---- freed memory is kept, filled with a pattern, until the end of the case ----
const POISON: u8 = 0xd7;
const QCAP: usize = 1 << 14;
static QUARANTINE: AtomicBool = AtomicBool::new(false);
static mut QUEUE: [(*mut u8, usize, usize); QCAP] = [(std::ptr::null_mut(), 0, 0); QCAP];
static mut QLEN: usize = 0;

unsafe fn quarantine(p: *mut u8, l: Layout) -> bool {
    unsafe {
        // Only memory of the containers is of interest: the nodes are aligned or large.
        if QLEN == QCAP || (l.align() < 64 && l.size() < 48) || l.size() > 1 << 18 {
            return false;
        }
        std::ptr::write_bytes(p, POISON, l.size());
        QUEUE[QLEN] = (p, l.size(), l.align());
        QLEN += 1;
    }
    true
}
/// From now on, freed memory is kept.
pub fn quarantine_on() {
    QUARANTINE.store(true, Relaxed);
}
/// Frees what is kept, and tells whether some of it has been written to.
pub fn quarantine_off() -> bool {
    QUARANTINE.store(false, Relaxed);
    let mut bad = false;
    unsafe {
        for i in 0..QLEN {
            let (p, n, a) = QUEUE[i];
            let words = std::slice::from_raw_parts(p, n);
            // By words, as `System` aligns to 8 at least and sizes are mostly multiples of it.
            let (x, y, z) = words.align_to::<u64>();
            bad |= x.iter().chain(z).any(|b| *b != POISON) || y.iter().fold(0, |m, w| m | (w ^ 0xd7d7_d7d7_d7d7_d7d7)) != 0;
            System.dealloc(p, Layout::from_size_align_unchecked(n, a));
        }
        QLEN = 0;
    }
    bad
}

unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if should_fail() {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
        unsafe { System.alloc(l) }
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if should_fail() {
            return std::ptr::null_mut();
        }
        LIVE.fetch_add(1, Relaxed);
        LIVE_BYTES.fetch_add(l.size() as i64, Relaxed);
        unsafe { System.alloc_zeroed(l) }
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        LIVE.fetch_sub(1, Relaxed);
        LIVE_BYTES.fetch_sub(l.size() as i64, Relaxed);
        if QUARANTINE.load(Relaxed) && unsafe { quarantine(p, l) } {
            return;
        }
        unsafe { System.dealloc(p, l) }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if should_fail() {
            return std::ptr::null_mut();
        }
        LIVE_BYTES.fetch_add(n as i64 - l.size() as i64, Relaxed);
        unsafe { System.realloc(p, l, n) }
    }
}

/// Runs `f` with the `n`-th allocation failing (negative: none).
pub fn with_alloc_fault<R>(n: i64, f: impl FnOnce() -> R) -> R {
    struct Off;
    impl Drop for Off {
        fn drop(&mut self) {
            COUNTING.store(false, Relaxed);
            FAIL_AT.store(-1, Relaxed);
        }
    }
    FAILED.store(false, Relaxed);
    NALLOC.store(0, Relaxed);
    FAIL_AT.store(n, Relaxed);
    let _o = Off;
    COUNTING.store(true, Relaxed);
    f()
}

/// Harness code within an operation: its allocations are neither counted nor failed.
pub fn off<R>(f: impl FnOnce() -> R) -> R {
    struct On(bool, i64, i64);
    impl Drop for On {
        fn drop(&mut self) {
            COUNTING.store(self.0, Relaxed);
            LIVE.store(self.1, Relaxed);
            LIVE_BYTES.store(self.2, Relaxed);
        }
    }
    let _o = On(COUNTING.swap(false, Relaxed), LIVE.load(Relaxed), LIVE_BYTES.load(Relaxed));
    f()
}
/// Unwinds; the allocation of the payload does not fail.
pub fn unwind(x: impl std::any::Any + Send) -> ! {
    struct On(bool);
    impl Drop for On {
        fn drop(&mut self) {
            COUNTING.store(self.0, Relaxed);
        }
    }
    let _o = On(COUNTING.swap(false, Relaxed));
    std::panic::resume_unwind(Box::new(x))
}

pub struct Injected;
/// Payload of the unwinding that an allocation failure causes.
#[allow(dead_code)]
pub struct Oom(pub usize);

pub struct G {
    /// State of each instance: 1: live, 2: dropped.
    pub inst: Vec<u8>,
    pub live_k: i64,
    pub live_v: i64,
    pub viol: Option<(String, String)>,
    pub ticks: u64,
    /// Tick at which user code panics; 0: never.
    pub panic_at: u64,
    pub fired: bool,
    /// Callbacks of the current operation, order-independent digest.
    pub seen: Vec<(u32, u32)>,
    /// Entry evicted by the last operation.
    pub evicted: Option<(u32, u32, u32)>,
    pub tag: u32,
    pub known: Vec<(String, String)>,
    /// Number of entries in another container.
    pub other: i64,
    /// The capacity may still be lower than required.
    pub growing: bool,
}
static mut GS: Option<G> = None;
pub fn g() -> &'static mut G {
    unsafe {
        if GS.is_none() {
            GS = Some(G {
                inst: Vec::with_capacity(1 << 16),
                live_k: 0,
                live_v: 0,
                viol: None,
                ticks: 0,
                panic_at: 0,
                fired: false,
                seen: Vec::with_capacity(1 << 13),
                evicted: None,
                tag: 0,
                known: Vec::new(),
                other: 0,
                growing: false,
            });
        }
        GS.as_mut().unwrap_unchecked()
    }
}
pub fn begin_case() {
    let g = g();
    g.inst.clear();
    g.live_k = 0;
    g.live_v = 0;
    g.viol = None;
    g.ticks = 0;
    g.panic_at = 0;
    g.fired = false;
    g.seen.clear();
    g.evicted = None;
    g.tag = 0;
    g.known.clear();
    g.other = 0;
    g.growing = false;
}
#[cold]
pub fn viol(kind: &str, msg: impl FnOnce() -> String) {
    let g = g();
    if g.viol.is_none() {
        off(|| {
            let mut m = msg();
            if m.len() > 4000 {
                m = m.chars().take(4000).collect::<String>() + "...";
            }
            g.viol = Some((kind.to_string(), m));
        });
    }
}
/// The order of eviction is judged by its own property only.
pub static ORDER_MATTERS: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);
pub fn known(kind: &str, msg: impl FnOnce() -> String) {
    if !ORDER_MATTERS.load(Relaxed) {
        return;
    }
    off(|| g().known.push((kind.to_string(), msg())));
}
/// Called in every piece of user code: panics when told to.
#[inline]
pub fn tick() {
    let g = g();
    g.ticks += 1;
    if g.ticks == g.panic_at {
        g.fired = true;
        unwind(Injected);
    }
}
pub fn see(k: u32, v: u32) {
    off(|| g().seen.push((k, v)));
}

fn new_inst() -> u32 {
    off(|| {
        let g = g();
        g.inst.push(1);
        g.inst.len() as u32 - 1
    })
}
const CK: u32 = 0x3c3c_4321;
const CV: u32 = 0x5a5a_1234;
fn check_inst(what: &str, id: u32, c: u32, alive: u32) {
    if c != alive || g().inst.get(id as usize) != Some(&1) {
        viol("use-after-free", || format!("{what} memory that is not a live instance was accessed (canary {c:#x}, id {id})"));
    }
}
fn kill(what: &str, id: u32, c: u32, alive: u32) -> bool {
    let g = g();
    if c != alive || g.inst.get(id as usize) != Some(&1) {
        viol("bad-drop", || format!("{what} dropped that is not a live instance (canary {c:#x}, id {id})"));
        return false;
    }
    g.inst[id as usize] = 2;
    true
}

/// A key: bits 8..16 select the bucket, bits 0..8 are the partial hash, the rest does not take
/// part in the hash.
pub struct K {
    canary: u32,
    id: u32,
    pub k: u32,
    /// Identity of the instance: not compared.
    pub tag: u32,
}
impl K {
    pub fn new(k: u32) -> K {
        let g = g();
        g.live_k += 1;
        g.tag += 1;
        K { canary: CK, id: new_inst(), k, tag: g.tag }
    }
    pub fn get(&self) -> u32 {
        check_inst("key", self.id, self.canary, CK);
        self.k
    }
    pub fn tag(&self) -> u32 {
        check_inst("key", self.id, self.canary, CK);
        self.tag
    }
}
impl Drop for K {
    fn drop(&mut self) {
        if kill("key", self.id, self.canary, CK) {
            g().live_k -= 1;
        }
        self.canary = 0xdead_beef;
        unsafe { std::ptr::write_volatile(&raw mut self.canary, 0xdead_beef) };
    }
}
impl Clone for K {
    fn clone(&self) -> K {
        tick();
        let g = g();
        g.live_k += 1;
        K { canary: CK, id: new_inst(), k: self.get(), tag: self.tag }
    }
}
impl PartialEq for K {
    fn eq(&self, o: &K) -> bool {
        tick();
        self.get() == o.get()
    }
}
impl Eq for K {}
impl PartialOrd for K {
    fn partial_cmp(&self, o: &K) -> Option<std::cmp::Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for K {
    fn cmp(&self, o: &K) -> std::cmp::Ordering {
        tick();
        self.get().cmp(&o.get())
    }
}
impl Hash for K {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(self.get());
    }
}
impl std::fmt::Debug for K {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        tick();
        write!(f, "K{}", self.get())
    }
}
/// A borrowed key.
#[derive(Clone, Copy, Debug)]
pub struct Q(pub u32);
impl Hash for Q {
    fn hash<H: Hasher>(&self, h: &mut H) {
        h.write_u32(self.0);
    }
}
impl scc::Equivalent<K> for Q {
    fn equivalent(&self, k: &K) -> bool {
        tick();
        self.0 == k.get()
    }
}
impl scc::Comparable<K> for Q {
    fn compare(&self, k: &K) -> std::cmp::Ordering {
        tick();
        self.0.cmp(&k.get())
    }
}

pub struct V {
    canary: u32,
    id: u32,
    v: u32,
}
impl V {
    pub fn new(v: u32) -> V {
        g().live_v += 1;
        V { canary: CV, id: new_inst(), v }
    }
    pub fn get(&self) -> u32 {
        check_inst("value", self.id, self.canary, CV);
        self.v
    }
    pub fn set(&mut self, v: u32) {
        check_inst("value", self.id, self.canary, CV);
        self.v = v;
    }
}
impl Drop for V {
    fn drop(&mut self) {
        if kill("value", self.id, self.canary, CV) {
            g().live_v -= 1;
        }
        unsafe { std::ptr::write_volatile(&raw mut self.canary, 0xdead_beef) };
    }
}
impl Clone for V {
    fn clone(&self) -> V {
        tick();
        V::new(self.get())
    }
}
impl PartialEq for V {
    fn eq(&self, o: &V) -> bool {
        tick();
        self.get() == o.get()
    }
}
impl Eq for V {}
impl Default for V {
    fn default() -> V {
        tick();
        V::new(7)
    }
}
impl std::fmt::Debug for V {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        tick();
        write!(f, "V{}", self.get())
    }
}

#[derive(Clone, Default)]
pub struct Bh;
#[derive(Default)]
pub struct Hs(u64);
impl BuildHasher for Bh {
    type Hasher = Hs;
    fn build_hasher(&self) -> Hs {
        Hs(0)
    }
}
pub fn hash_of(k: u32) -> u64 {
    u64::from((k >> 8) & 0xff) << 56 | u64::from(k & 0xff)
}
impl Hasher for Hs {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(31).wrapping_add(u64::from(*x));
        }
    }
    fn write_u32(&mut self, k: u32) {
        self.0 = hash_of(k);
    }
}
/// A key in the bucket selected by `b` with partial hash `p`.
pub const fn k(b: u32, p: u32) -> u32 {
    b << 8 | p
}

/// Runs a future that never has a reason to wait.
pub fn blk<F: Future>(f: F) -> F::Output {
    let mut f = pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    for _ in 0..64 {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
    viol("stuck", || "a future without anything to wait for stays pending".into());
    unwind(Stuck)
}
pub struct Stuck;

/// Result of an operation.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Obs {
    pub n: usize,
    pub v: [u32; 14],
}
impl Obs {
    pub fn new() -> Obs {
        Obs { n: 0, v: [0; 14] }
    }
    pub fn p(&mut self, x: u32) -> &mut Obs {
        self.v[self.n] = x;
        self.n += 1;
        self
    }
}
pub fn obs(x: &[u32]) -> Obs {
    let mut o = Obs::new();
    for x in x {
        o.p(*x);
    }
    o
}
pub const NONE: u32 = u32::MAX;

/// Lets deferred reclamation run: everything unreachable is freed afterwards.
pub fn pump(done: impl Fn() -> bool) {
    let look = || (g().live_k, g().live_v, LIVE.load(Relaxed));
    let (mut last, mut idle, mut i) = (look(), 0, 0);
    while idle < 400 {
        if i > 8 && done() {
            return;
        }
        let gd = scc::Guard::new();
        gd.accelerate();
        drop(gd);
        if i % 3 == 2 && done() {
            return;
        }
        i += 1;
        idle += 1;
        let now = look();
        if now != last {
            (last, idle) = (now, 0);
        }
    }
}

/// Lets the garbage of the container that was dropped last be reclaimed.
pub fn drain() {
    pump(|| g().live_k == 0 && g().live_v == 0);
}

pub fn mix(mut h: u64, x: u64) -> u64 {
    h ^= x.wrapping_mul(0x9E37_79B9_7F4A_7C15);
    h = h.rotate_left(29).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    h ^ (h >> 32)
}
