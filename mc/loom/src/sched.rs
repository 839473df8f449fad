//! The cooperative scheduler: model threads are coroutines; every visible operation calls
//! [`point`], which may hand over to another model thread according to the schedule being
//! explored.

use std::any::Any;
use std::cell::UnsafeCell;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;
use std::sync::atomic::Ordering;

use crate::arena;

pub const MAX_THREADS: usize = 8;
const STACK_SIZE: usize = 512 << 10;

/// Pseudo addresses of scheduler-level objects.
pub const ADDR_HIST: usize = 1;
pub const ADDR_EPOCH: usize = 2;
const ADDR_TOKEN: usize = 0x100;
const ADDR_FINISH: usize = 0x200;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Ready,
    Parked,
    Join(usize),
    Finished,
}

pub type Vc = [u32; MAX_THREADS];

struct Th {
    sp: *mut u8,
    st: St,
    pend_addr: usize,
    pend_w: bool,
    yielded: bool,
    spins: u32,
    /// Set by the harness; see `set_phase`.
    phase: u32,
    last_addr: usize,
    /// The thread is about to begin an operation.
    idle: bool,
    run: u32,
    token: bool,
    asleep: bool,
    entry: Option<Box<dyn FnOnce()>>,
    vc: Vc,
    acq_pend: Vc,
    rel_fence: Vc,
    token_vc: Vc,
    tls: [usize; 4],
    label: String,
}

/// One recorded decision.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Dec {
    /// Number of options.
    pub n: u16,
    /// The option taken.
    pub chosen: u16,
    /// Cost of taking any option other than `0`.
    pub cost: u8,
    /// Fingerprint of the decision point, to detect divergence during replay.
    pub tag: u32,
    /// The address of the pending operation, hashed; `u32::MAX` for other decisions.
    pub slot: u32,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    Pruned,
    Fail { kind: String, msg: String },
    /// The engine itself misbehaved (divergence, limits).
    Engine(String),
}

pub struct Sched {
    pub active: bool,
    cur: usize,
    ths: Vec<Th>,
    live: usize,
    ctl_sp: *mut u8,
    stacks: Vec<*mut u8>,
    pub decs: Vec<Dec>,
    pub steps: u64,
    pub max_steps: u64,
    /// Steps at which the execution is considered to make no progress: `max_steps` after the checkpoint.
    limit: u64,
    pub end: Option<End>,
    pub seq: u64,
    pub atomic: u32,
    pub sleep_on: bool,
    any_asleep: bool,
    pub hb: bool,
    spin_probe: Option<fn(u32, usize)>,
    pub epoch_points: bool,
    hb_tab: std::collections::HashMap<usize, Vc, std::hash::BuildHasherDefault<Fx>>,
    pub outcome: Vec<String>,
    pub trace: Option<Vec<String>>,
    pub on_start: Vec<fn()>,
    pub on_thread_exit: Vec<fn()>,
    pub switches: u64,
    body: Option<Rc<dyn Fn()>>,
    /// Each returns a closure that restores the state saved.
    pub on_save: Vec<fn() -> Box<dyn Fn()>>,
    /// Executions start from the checkpoint set by the first.
    pub snap_on: bool,
    snap_req: bool,
    snap: Option<Snap>,
    /// Which threads have read (low byte) and written (high byte) which (hashed) address.
    acc: Vec<u16>,
    /// Number of addresses with conflicting accesses.
    pub conflicts: u64,
}

const SLOTS: usize = 1 << 15;

#[inline]
fn slot_of(addr: usize) -> usize {
    (addr.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 40) & (SLOTS - 1)
}

#[inline]
fn conflicting(x: u16) -> bool {
    let w = x >> 8;
    let a = (x | w) & 0xff;
    w != 0 && a & (a - 1) != 0
}

impl Sched {
    /// Records an access: an address accessed by a single thread, or only read, never
    /// needs a preemption.
    #[inline]
    fn access(&mut self, addr: usize, write: bool) {
        let b = 1u16 << self.cur << if write { 8 } else { 0 };
        let x = &mut self.acc[slot_of(addr)];
        if *x & b == 0 {
            let before = conflicting(*x);
            *x |= b;
            if conflicting(*x) && !before {
                self.conflicts += 1;
            }
        }
    }
    /// `true` if a preemption at the decision may matter.
    pub fn matters(&self, d: &Dec) -> bool {
        d.slot == u32::MAX || conflicting(self.acc[d.slot as usize])
    }
    pub fn forget_conflicts(&mut self) {
        self.acc.clear();
        self.acc.resize(SLOTS, 0);
        self.conflicts = 0;
    }
}

/// The state at a checkpoint, reached by the first thread alone.
struct Snap {
    arena: arena::Saved,
    stack: Vec<u8>,
    sp: *mut u8,
    tls: [usize; 4],
    vc: Vc,
    steps: u64,
    seq: u64,
    restore: Vec<Box<dyn Fn()>>,
}

#[derive(Default)]
pub struct Fx(u64);
impl std::hash::Hasher for Fx {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = (self.0.rotate_left(5) ^ u64::from(*x)).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
    }
    fn write_usize(&mut self, x: usize) {
        self.0 = (self.0.rotate_left(5) ^ x as u64).wrapping_mul(0x517c_c1b7_2722_0a95);
    }
}

static mut S: Option<Sched> = None;

#[inline]
pub fn s() -> &'static mut Sched {
    unsafe {
        let p = &raw mut S;
        match (*p).as_mut() {
            Some(x) => x,
            None => {
                *p = Some(Sched::new());
                (*p).as_mut().unwrap()
            }
        }
    }
}

#[inline]
fn active() -> bool {
    unsafe {
        let p = &raw const S;
        match (*p).as_ref() {
            Some(x) => x.active,
            None => false,
        }
    }
}

std::arch::global_asm!(
    ".global mc_switch",
    "mc_switch:",
    "push rbp",
    "push rbx",
    "push r12",
    "push r13",
    "push r14",
    "push r15",
    "mov [rdi], rsp",
    "mov rsp, rsi",
    "pop r15",
    "pop r14",
    "pop r13",
    "pop r12",
    "pop rbx",
    "pop rbp",
    "ret",
    ".global mc_tramp",
    "mc_tramp:",
    "call r12",
    "ud2",
);

unsafe extern "C" {
    fn mc_switch(from: *mut *mut u8, to: *mut u8);
    fn mc_tramp();
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn mprotect(a: *mut u8, l: usize, p: i32) -> i32;
}

extern "C" fn thread_main() {
    let me = s().cur;
    let f = s().ths[me].entry.take();
    if me == 0 {
        let b: *const dyn Fn() = &**s().body.as_ref().unwrap();
        let r = catch_unwind(AssertUnwindSafe(|| unsafe { (*b)() }));
        if let Err(e) = r {
            let msg = panic_msg(&e);
            fail("panic", &msg);
        }
    } else if let Some(f) = f {
        let r = catch_unwind(AssertUnwindSafe(f));
        if let Err(e) = r {
            let msg = panic_msg(&e);
            fail("panic", &msg);
        }
    }
    for f in s().on_thread_exit.clone_off() {
        f();
    }
    // The end of a thread is a visible operation.
    point(ADDR_FINISH + me, true);
    let sc = s();
    sc.ths[me].st = St::Finished;
    sc.live -= 1;
    for t in 0..sc.ths.len() {
        if sc.ths[t].st == St::Join(me) {
            sc.ths[t].st = St::Ready;
            let vc = sc.ths[me].vc;
            join(&mut sc.ths[t].vc, &vc);
        }
    }
    dispatch(Kind::Exit);
    unreachable!();
}

trait CloneOff {
    fn clone_off(&self) -> Self;
}
impl CloneOff for Vec<fn()> {
    fn clone_off(&self) -> Self {
        arena::off(|| self.clone())
    }
}

pub fn panic_msg(e: &Box<dyn Any + Send>) -> String {
    arena::off(|| {
        if let Some(x) = e.downcast_ref::<&str>() {
            (*x).to_string()
        } else if let Some(x) = e.downcast_ref::<String>() {
            x.clone()
        } else {
            "panic".to_string()
        }
    })
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Kind {
    Point,
    Yield,
    Blocked,
    Exit,
}

fn join(a: &mut Vc, b: &Vc) {
    for i in 0..MAX_THREADS {
        a[i] = a[i].max(b[i]);
    }
}

impl Sched {
    fn new() -> Self {
        Sched {
            active: false,
            cur: 0,
            ths: Vec::new(),
            live: 0,
            ctl_sp: std::ptr::null_mut(),
            stacks: Vec::new(),
            decs: Vec::with_capacity(1 << 16),
            steps: 0,
            max_steps: 20_000,
            limit: 20_000,
            spin_probe: None,
            end: None,
            seq: 0,
            atomic: 0,
            sleep_on: true,
            any_asleep: false,
            hb: false,
            epoch_points: false,
            hb_tab: Default::default(),
            outcome: Vec::new(),
            trace: None,
            on_start: Vec::new(),
            on_thread_exit: Vec::new(),
            switches: 0,
            body: None,
            on_save: Vec::new(),
            snap_on: false,
            snap_req: false,
            snap: None,
            acc: vec![0; SLOTS],
            conflicts: 0,
        }
    }

    fn stack(&mut self, i: usize) -> *mut u8 {
        while self.stacks.len() <= i {
            unsafe {
                let p = mmap(std::ptr::null_mut(), STACK_SIZE, 3, 0x22, -1, 0);
                assert!(p as isize != -1);
                mprotect(p, 4096, 0);
                self.stacks.push(p);
            }
        }
        self.stacks[i]
    }

    fn add_thread(&mut self, entry: Box<dyn FnOnce()>) -> usize {
        let id = self.ths.len();
        assert!(id < MAX_THREADS, "too many model threads");
        let base = self.stack(id);
        let sp = unsafe {
            let top = base.add(STACK_SIZE).cast::<usize>();
            // [top-1], [top-2]: padding, [top-3]: return address = tramp, then 6 callee-saved registers.
            let mut p = top.sub(3);
            *p = mc_tramp as *const () as usize;
            // rbp, rbx, r12, r13, r14, r15 in push order.
            for k in 0..6 {
                p = p.sub(1);
                *p = if k == 2 { thread_main as *const () as usize } else { 0 };
            }
            p.cast::<u8>()
        };
        let mut vc = [0; MAX_THREADS];
        if id > 0 {
            vc = self.ths[self.cur].vc;
            let c = self.cur;
            self.ths[c].vc[c] += 1;
        }
        vc[id] += 1;
        self.ths.push(Th {
            sp,
            st: St::Ready,
            pend_addr: 0,
            pend_w: false,
            yielded: false,
            spins: 0,
            phase: 0,
            last_addr: 0,
            idle: true,
            run: 0,
            token: false,
            asleep: false,
            entry: Some(entry),
            vc,
            acq_pend: [0; MAX_THREADS],
            rel_fence: [0; MAX_THREADS],
            token_vc: [0; MAX_THREADS],
            tls: [0; 4],
            label: String::new(),
        });
        self.live += 1;
        id
    }

    /// Records or replays a decision with `n` options.
    fn decide(&mut self, n: usize, cost: u8, tag: u32, slot: u32) -> usize {
        debug_assert!(n > 1);
        let i = self.decs.len();
        if i + 1 >= self.decs.capacity() {
            let m = arena::off(|| "too many decisions in one execution".to_string());
            self.stop(End::Engine(m));
        }
        let chosen = REPLAY.with(|r| {
            let r = unsafe { &*r.get() };
            if let Some(d) = r.get(i) {
                if usize::from(d.n) != n || d.cost != cost || d.tag != tag {
                    arena::off(|| {
                        self.stop(End::Engine(format!(
                            "divergence at decision {i}: expected {d:?}, got n={n} cost={cost} tag={tag}"
                        )))
                    });
                }
                usize::from(d.chosen)
            } else {
                0
            }
        });
        self.decs.push(Dec {
            n: n as u16,
            chosen: chosen as u16,
            cost,
            tag,
            slot,
        });
        chosen
    }

    /// Stops the execution and returns to the controller; never returns.
    fn stop(&mut self, e: End) -> ! {
        if self.end.is_none() {
            self.end = Some(e);
        }
        arena::enable(false);
        unsafe {
            let c = self.cur;
            let ctl = self.ctl_sp;
            mc_switch(&mut self.ths[c].sp, ctl);
        }
        unreachable!()
    }

    fn log(&mut self, m: impl FnOnce() -> String) {
        if self.trace.is_some() {
            arena::off(|| {
                let m = m();
                self.trace.as_mut().unwrap().push(m);
            });
        }
    }
}

thread_local! {
    static REPLAY: UnsafeCell<Vec<Dec>> = const { UnsafeCell::new(Vec::new()) };
}

pub fn set_replay(d: &[Dec]) {
    REPLAY.with(|r| unsafe {
        (*r.get()).clear();
        (*r.get()).extend_from_slice(d);
    });
}

/// Chooses the next thread and switches to it.
fn dispatch(kind: Kind) {
    let sc = s();
    let cur = sc.cur;
    let mut opts = [0usize; MAX_THREADS];
    let mut n = 0;
    let mut cost = 0;
    if kind == Kind::Point {
        opts[0] = cur;
        n = 1;
        cost = 1;
    }
    let mut asleep = false;
    let mut yielded = usize::MAX;
    let nt = sc.ths.len();
    for k in 0..nt {
        if k == cur {
            continue;
        }
        let t = &sc.ths[k];
        if t.st == St::Ready {
            if t.asleep {
                asleep = true;
            } else if t.yielded {
                // Round robin among the yielded.
                if yielded == usize::MAX || (yielded < cur && k > cur) {
                    yielded = k;
                }
            } else {
                opts[n] = k;
                n += 1;
            }
        }
    }
    let next;
    if n == 0 {
        if yielded != usize::MAX {
            next = yielded;
        } else if asleep {
            sc.stop(End::Pruned);
        } else if kind == Kind::Yield {
            next = cur;
        } else if sc.live == 0 {
            sc.stop(End::Done);
        } else {
            let m = arena::off(|| {
                let mut m = String::from("deadlock:");
                for (i, t) in sc.ths.iter().enumerate() {
                    if t.st != St::Finished {
                        m.push_str(&format!(" thread {i} {:?} in `{}`;", t.st, t.label));
                    }
                }
                m
            });
            sc.stop(End::Fail { kind: arena::off(|| "deadlock".into()), msg: m });
        }
    } else if n == 1 {
        next = opts[0];
    } else {
        let tag = (cur as u32) << 8 | (kind as u32) << 4 | u32::from(sc.ths[cur].pend_w);
        let slot = if kind == Kind::Point { slot_of(sc.ths[cur].pend_addr) as u32 } else { u32::MAX };
        let c = sc.decide(n, cost, tag, slot);
        next = opts[c];
        if c != 0 && kind == Kind::Point && sc.sleep_on {
            sc.ths[cur].asleep = true;
            sc.any_asleep = true;
        }
    }
    if next != cur {
        sc.switches += 1;
        sc.ths[next].run = 0;
        sc.ths[next].spins = 0;
        sc.log(|| {
            let sc = s();
            format!(
                "-- switch T{cur}{} -> T{next} (step {})",
                match kind {
                    Kind::Point => " preempted",
                    Kind::Yield => " yields",
                    Kind::Blocked => " blocks",
                    Kind::Exit => " ends",
                },
                sc.steps
            )
        });
        sc.ths[next].yielded = false;
        sc.cur = next;
        arena::select(next);
        unsafe {
            let to = sc.ths[next].sp;
            mc_switch(&mut sc.ths[cur].sp, to);
        }
    } else {
        sc.ths[next].yielded = false;
    }
}

/// Called when the current thread is about to execute a visible operation.
#[inline]
pub fn point(addr: usize, write: bool) {
    if !active() {
        return;
    }
    point_slow(addr, write);
}

#[inline(never)]
fn point_slow(addr: usize, write: bool) {
    let sc = s();
    if sc.live > 1 {
        sc.access(addr, write);
    }
    if sc.atomic != 0 || sc.live <= 1 {
        sc.steps += 1;
        let cur = sc.cur;
        sc.ths[cur].last_addr = addr;
        if sc.live <= 1 && sc.steps > sc.limit + sc.max_steps * 16 {
            let m = arena::off(|| "single thread exceeded the step limit".to_string());
            sc.stop(End::Fail { kind: arena::off(|| "livelock".into()), msg: m });
        }
        if sc.any_asleep {
            wake(addr, write);
        }
        return;
    }
    let cur = sc.cur;
    sc.ths[cur].last_addr = addr;
    if std::thread::panicking() {
        if sc.any_asleep {
            wake(addr, write);
        }
        return;
    }
    sc.steps += 1;
    if sc.steps > sc.limit {
        let m = arena::off(|| {
            let mut m = format!("no progress after {} steps:", sc.steps);
            for (i, t) in sc.ths.iter().enumerate() {
                if t.st != St::Finished {
                    m.push_str(&format!(" thread {i} {:?} in `{}`;", t.st, t.label));
                }
            }
            m
        });
        sc.stop(End::Fail { kind: arena::off(|| "livelock".into()), msg: m });
    }
    let th = &mut sc.ths[cur];
    th.pend_addr = addr;
    th.pend_w = write;
    th.run += 1;
    if th.run > 4000 {
        // Fairness: a thread cannot run forever while others could.
        th.run = 0;
        th.yielded = true;
        dispatch(Kind::Yield);
    } else {
        dispatch(Kind::Point);
    }
    // The operation is executed now.
    let sc = s();
    if sc.any_asleep {
        wake(addr, write);
    }
    if write {
        for (k, t) in sc.ths.iter_mut().enumerate() {
            if k != cur {
                t.yielded = false;
            }
        }
    }
    if sc.trace.is_some() {
        sc.log(|| {
            let sc = s();
            format!(
                "   T{cur} step {} {} {:#x}",
                sc.steps,
                if write { "W" } else { "R" },
                addr & 0xfff_ffff
            )
        });
    }
}

/// Wakes sleeping threads whose pending operation conflicts.
fn wake(addr: usize, write: bool) {
    let sc = s();
    let mut any = false;
    for t in sc.ths.iter_mut() {
        if t.asleep {
            if t.pend_addr == addr && (t.pend_w || write) {
                t.asleep = false;
            } else {
                any = true;
            }
        }
    }
    sc.any_asleep = any;
}

/// Declares an access without a scheduling point.
pub fn quiet(addr: usize, write: bool) {
    if active() && s().live > 1 {
        s().access(addr, write);
    }
    if active() && s().any_asleep {
        wake(addr, write);
    }
}

/// A spin-loop iteration: yields if the thread keeps spinning.
pub fn spin() {
    if !active() {
        return;
    }
    let sc = s();
    if sc.atomic != 0 {
        return;
    }
    let cur = sc.cur;
    sc.steps += 1;
    if sc.ths[cur].phase != 0 && sc.ths[cur].last_addr != 0 {
        if let Some(p) = sc.spin_probe {
            p(sc.ths[cur].phase, sc.ths[cur].last_addr);
        }
    }
    // The first iteration since the thread was scheduled is a no-op; a thread that keeps spinning
    // gives way to the others.
    sc.ths[cur].spins += 1;
    if sc.ths[cur].spins > 1 {
        yield_inner();
    } else if sc.steps > sc.limit {
        point_slow(0, false);
    }
}

pub fn yield_now() {
    if !active() {
        return;
    }
    yield_inner();
}

fn yield_inner() {
    let sc = s();
    if sc.steps > sc.limit {
        point_slow(0, false);
    }
    sc.steps += 1;
    if sc.live <= 1 {
        return;
    }
    let cur = sc.cur;
    sc.ths[cur].yielded = true;
    sc.ths[cur].pend_addr = 0;
    dispatch(Kind::Yield);
}

#[derive(Clone, Debug)]
pub struct Thread {
    id: usize,
}

impl Thread {
    pub fn unpark(&self) {
        if !active() {
            return;
        }
        point(ADDR_TOKEN + self.id, true);
        let sc = s();
        let c = sc.cur;
        let vc = sc.ths[c].vc;
        join(&mut sc.ths[self.id].token_vc, &vc);
        sc.ths[c].vc[c] += 1;
        sc.ths[self.id].token = true;
        if sc.ths[self.id].st == St::Parked {
            sc.ths[self.id].st = St::Ready;
        }
    }
    pub fn id(&self) -> usize {
        self.id
    }
}

pub fn current() -> Thread {
    Thread { id: if active() { s().cur } else { 0 } }
}

pub fn current_id() -> usize {
    if active() { s().cur } else { 0 }
}

pub fn park() {
    if !active() {
        return;
    }
    let cur = s().cur;
    point(ADDR_TOKEN + cur, true);
    let sc = s();
    if !sc.ths[cur].token {
        sc.ths[cur].st = St::Parked;
        dispatch(Kind::Blocked);
    }
    let sc = s();
    sc.ths[cur].token = false;
    let vc = sc.ths[cur].token_vc;
    join(&mut sc.ths[cur].vc, &vc);
}

pub struct JoinHandle<T> {
    id: usize,
    slot: Rc<UnsafeCell<Option<T>>>,
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + 'static,
    T: 'static,
{
    let slot = Rc::new(UnsafeCell::new(None));
    let slot2 = slot.clone();
    let b: Box<dyn FnOnce()> = Box::new(move || {
        let r = f();
        unsafe { *slot2.get() = Some(r) };
    });
    let id = arena::off(|| s().add_thread(b));
    JoinHandle { id, slot }
}

impl<T> JoinHandle<T> {
    pub fn join(self) -> Result<T, Box<dyn Any + Send>> {
        let sc = s();
        let cur = sc.cur;
        point(ADDR_FINISH + self.id, true);
        if sc.ths[self.id].st != St::Finished {
            sc.ths[cur].st = St::Join(self.id);
            dispatch(Kind::Blocked);
        } else {
            let vc = sc.ths[self.id].vc;
            join(&mut sc.ths[cur].vc, &vc);
        }
        let v = unsafe { (*self.slot.get()).take() };
        Ok(v.expect("thread result"))
    }
    pub fn thread(&self) -> Thread {
        Thread { id: self.id }
    }
}

/// Runs one execution of `body` under the schedule set by [`set_replay`].
pub fn run_once(body: &Rc<dyn Fn()>) -> End {
    let sc = s();
    debug_assert!(!sc.active);
    arena::init();
    arena::reset();
    sc.cur = 0;
    sc.ths.clear();
    sc.live = 0;
    sc.decs.clear();
    sc.steps = 0;
    sc.limit = sc.max_steps;
    sc.end = None;
    sc.seq = 0;
    sc.atomic = 0;
    sc.any_asleep = false;
    sc.outcome.clear();
    sc.hb_tab.clear();
    sc.snap_req = false;
    let use_snap = sc.snap_on && sc.trace.is_none();
    if use_snap && sc.snap.is_some() {
        let snap = sc.snap.take().unwrap();
        sc.add_thread(Box::new(|| ()));
        sc.ths[0].entry = None;
        arena::restore(&snap.arena);
        for f in &snap.restore {
            f();
        }
        unsafe {
            std::ptr::copy_nonoverlapping(snap.stack.as_ptr(), snap.sp, snap.stack.len());
        }
        let t = &mut sc.ths[0];
        t.sp = snap.sp;
        t.tls = snap.tls;
        t.vc = snap.vc;
        sc.steps = snap.steps;
        sc.limit = snap.steps + sc.max_steps;
        sc.seq = snap.seq;
        sc.snap = Some(snap);
    } else {
        for f in sc.on_start.clone() {
            f();
        }
        sc.body = Some(body.clone());
        sc.add_thread(Box::new(|| ()));
    }
    sc.active = true;
    arena::enable(true);
    loop {
        unsafe {
            let to = sc.ths[0].sp;
            mc_switch(&mut sc.ctl_sp, to);
        }
        let sc = s();
        if !sc.snap_req {
            break;
        }
        // A checkpoint was reached.
        sc.snap_req = false;
        arena::enable(false);
        let sp = sc.ths[0].sp;
        let top = unsafe { sc.stacks[0].add(STACK_SIZE) };
        let stack = unsafe { std::slice::from_raw_parts(sp, top as usize - sp as usize).to_vec() };
        let restore = sc.on_save.clone().into_iter().map(|f| f()).collect();
        sc.snap = Some(Snap {
            arena: arena::save(),
            stack,
            sp,
            tls: sc.ths[0].tls,
            vc: sc.ths[0].vc,
            steps: sc.steps,
            seq: sc.seq,
            restore,
        });
        arena::enable(true);
    }
    arena::enable(false);
    let sc = s();
    sc.active = false;
    // Entries of never-started threads live in the arena: forget them.
    for t in sc.ths.iter_mut() {
        if let Some(e) = t.entry.take() {
            std::mem::forget(e);
        }
    }
    sc.end.take().unwrap_or(End::Engine("no end recorded".into()))
}

/// Steps that precede the checkpoint.
pub fn snap_steps() -> u64 {
    s().snap.as_ref().map_or(0, |s| s.steps)
}

/// Forgets the checkpoint.
pub fn set_snapshots(on: bool) {
    let sc = s();
    sc.snap_on = on;
    sc.snap = None;
}

// ---- API for harnesses ----

/// Later executions may start from here: called by the first thread before it spawns others and
/// before any decision. Only memory of the arena, the stack of the thread and what is saved by
/// `on_save` is restored.
pub fn checkpoint() {
    let sc = s();
    if active() {
        sc.limit = sc.steps + sc.max_steps;
    }
    if !active() || !sc.snap_on || sc.trace.is_some() || sc.snap.is_some() {
        return;
    }
    if sc.cur != 0 || sc.ths.len() != 1 || !sc.decs.is_empty() || !sc.hb_tab.is_empty() || sc.atomic != 0 {
        return;
    }
    sc.snap_req = true;
    unsafe {
        let ctl = sc.ctl_sp;
        mc_switch(&mut sc.ths[0].sp, ctl);
    }
}

/// Reports a property violation and abandons the execution.
pub fn fail(kind: &str, msg: &str) -> ! {
    if !active() {
        panic!("{kind}: {msg}");
    }
    let e = arena::off(|| End::Fail {
        kind: kind.to_string(),
        msg: msg.to_string(),
    });
    s().stop(e)
}

/// Nondeterministic choice among `0..n`; each non-zero alternative costs `cost` deviations.
pub fn choose(n: usize, cost: u8) -> usize {
    if n <= 1 || !active() {
        return 0;
    }
    let sc = s();
    let c = sc.decide(n, cost, 0x8000_0000 | n as u32, u32::MAX);
    sc.log(|| format!("   choose {c} of {n}"));
    c
}

/// Records an observed outcome of the execution.
pub fn outcome(f: impl FnOnce() -> String) {
    arena::off(|| {
        let o = f();
        s().outcome.push(o);
    });
}

/// Runs `f` without scheduling points.
pub fn atomically<R>(f: impl FnOnce() -> R) -> R {
    s().atomic += 1;
    let r = f();
    s().atomic -= 1;
    r
}

/// No other thread is in the middle of an operation.
pub fn others_idle() -> bool {
    if !active() {
        return true;
    }
    let sc = s();
    // The idle state of the others is what `op_begin` publishes.
    quiet(ADDR_HIST, true);
    sc.ths.iter().enumerate().all(|(i, t)| i == sc.cur || t.idle || matches!(t.st, St::Finished | St::Join(_)))
}

/// Marks what the current thread is doing, for the spin probe.
pub fn set_phase(p: u32) -> u32 {
    if !active() {
        return 0;
    }
    let sc = s();
    let c = sc.cur;
    std::mem::replace(&mut sc.ths[c].phase, p)
}

/// A function called with the phase and the last accessed address of a thread that spins in a
/// non-zero phase; it may report a failure that would otherwise show up as a livelock.
pub fn set_spin_probe(f: fn(u32, usize)) {
    s().spin_probe = Some(f);
}

/// The beginning of an operation: a scheduling point.
pub fn op_begin(label: impl FnOnce() -> String) -> u64 {
    if !active() {
        return 0;
    }
    {
        let sc = s();
        let c = sc.cur;
        sc.ths[c].idle = true;
    }
    point(ADDR_HIST, true);
    let sc = s();
    let c = sc.cur;
    sc.ths[c].idle = false;
    arena::off(|| {
        let l = label();
        sc.log(|| format!("T{c} begins {l}"));
        sc.ths[c].label = l;
        sc.ths[c].spins = 0;
    });
    sc.seq += 1;
    sc.seq
}

/// The end of an operation.
pub fn op_end(label: impl FnOnce() -> String) -> u64 {
    if !active() {
        return 0;
    }
    quiet(ADDR_HIST, true);
    let sc = s();
    let c = sc.cur;
    if sc.trace.is_some() {
        arena::off(|| {
            let l = label();
            sc.log(|| format!("T{c} ends   {l}"));
        });
    }
    sc.seq += 1;
    sc.seq
}

/// Model-thread-local slot.
pub fn tls(slot: usize) -> &'static mut usize {
    let sc = s();
    if !sc.active {
        static mut OUT: [usize; 4] = [0; 4];
        unsafe {
            let p = &raw mut OUT;
            return &mut (*p)[slot];
        }
    }
    let c = sc.cur;
    &mut sc.ths[c].tls[slot]
}

pub fn trace_note(f: impl FnOnce() -> String) {
    if active() {
        s().log(f);
    }
}

pub fn is_active() -> bool {
    active()
}

// ---- happens-before tracking ----

#[inline]
fn hb_on() -> bool {
    active() && s().hb
}

/// Everything that precedes the first spawn is ordered by it.
#[inline]
fn hb_solo() -> bool {
    s().ths.len() == 1
}

pub fn hb_load(addr: usize, o: Ordering) {
    if !hb_on() || hb_solo() {
        return;
    }
    let sc = s();
    let c = sc.cur;
    if let Some(v) = sc.hb_tab.get(&addr) {
        if matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) {
            join(&mut sc.ths[c].vc, v);
        } else {
            join(&mut sc.ths[c].acq_pend, v);
        }
    }
}

pub fn hb_store(addr: usize, o: Ordering) {
    if !hb_on() || hb_solo() {
        return;
    }
    let sc = s();
    let c = sc.cur;
    let v = if matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) {
        sc.ths[c].vc
    } else {
        sc.ths[c].rel_fence
    };
    arena::off(|| sc.hb_tab.insert(addr, v));
    sc.ths[c].vc[c] += 1;
}

pub fn hb_rmw(addr: usize, o: Ordering) {
    if !hb_on() || hb_solo() {
        return;
    }
    let sc = s();
    let c = sc.cur;
    let old = sc.hb_tab.get(&addr).copied().unwrap_or([0; MAX_THREADS]);
    if matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) {
        join(&mut sc.ths[c].vc, &old);
    } else {
        join(&mut sc.ths[c].acq_pend, &old);
    }
    // The release sequence continues.
    let mut v = if matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) {
        sc.ths[c].vc
    } else {
        sc.ths[c].rel_fence
    };
    join(&mut v, &old);
    arena::off(|| sc.hb_tab.insert(addr, v));
    sc.ths[c].vc[c] += 1;
}

pub fn hb_fence(o: Ordering) {
    if !hb_on() || hb_solo() {
        return;
    }
    let sc = s();
    let c = sc.cur;
    if matches!(o, Ordering::Acquire | Ordering::AcqRel | Ordering::SeqCst) {
        let a = sc.ths[c].acq_pend;
        join(&mut sc.ths[c].vc, &a);
    }
    if matches!(o, Ordering::Release | Ordering::AcqRel | Ordering::SeqCst) {
        sc.ths[c].rel_fence = sc.ths[c].vc;
        sc.ths[c].vc[c] += 1;
    }
}

/// The current thread's identity and clock component, to stamp an event.
pub fn hb_stamp() -> (usize, u32) {
    if !hb_on() {
        return (0, 0);
    }
    let sc = s();
    (sc.cur, sc.ths[sc.cur].vc[sc.cur])
}

/// `true` if the stamped event happens before now on the current thread.
pub fn hb_ordered(stamp: (usize, u32)) -> bool {
    if !hb_on() {
        return true;
    }
    let sc = s();
    sc.cur == stamp.0 || sc.ths[sc.cur].vc[stamp.0] >= stamp.1
}
