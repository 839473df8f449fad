//! Families of cases, and the pool of worker processes that runs them.

use std::collections::{BTreeMap, HashSet};
use std::fmt::Write as _;
use std::panic::{AssertUnwindSafe, catch_unwind};
use std::sync::atomic::Ordering::Relaxed;
use std::time::Instant;

use crate::base::*;

#[derive(Default)]
pub struct Stat {
    /// Executions of the container from its creation to its end.
    pub runs: u64,
    /// Operations executed after the initial state was built.
    pub ops: u64,
    /// Faults injected that took effect.
    pub faults: u64,
    /// Interrupted operations that left the state from before / after.
    pub before: u64,
    pub after: u64,
    pub states: HashSet<u64>,
}
impl Stat {
    pub fn state(&mut self, h: u64) {
        if self.states.len() < 4_000_000 {
            self.states.insert(h);
        }
    }
}

pub trait Family {
    fn name(&self) -> String;
    fn count(&self) -> u64;
    fn run(&self, i: u64, st: &mut Stat);
    fn describe(&self, i: u64) -> String;
}

pub struct Outcome {
    pub viol: Option<(String, String)>,
    pub known: Vec<(String, String)>,
}

pub fn last_panic() -> &'static std::sync::Mutex<String> {
    static P: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
    &P
}

/// Makes everything that is allocated only once.
pub fn warm_up() {
    crate::hash::BUF.with_borrow_mut(|b| b.reserve(4096));
    begin_case();
    let m: scc::HashMap<K, V, Bh> = scc::HashMap::with_hasher(Bh);
    let _ = m.insert_sync(K::new(1), V::new(1));
    drop(m);
    pump(|| false);
}

/// Brings the memory reclamation to a state that depends on nothing but `n`.
fn settle(n: u64) {
    let target = (n % 64) as u8;
    for i in 0..160 {
        let g = scc::Guard::new();
        if i < 8 {
            g.set_has_garbage();
        }
        g.accelerate();
        if i >= 12 && u8::from(g.epoch()) == target {
            break;
        }
    }
}

/// Runs one case, with everything it allocates accounted for.
pub fn run_case(f: &dyn Family, i: u64, st: &mut Stat) -> Outcome {
    settle(i);
    begin_case();
    quarantine_on();
    let r = catch_unwind(AssertUnwindSafe(|| f.run(i, st)));
    if quarantine_off() {
        viol("write-after-free", || "memory has been written to after it was freed".into());
    }
    if let Err(e) = r {
        if e.downcast_ref::<Stuck>().is_none() {
            let m = last_panic().lock().unwrap().clone();
            viol("panic", || format!("unexpected panic: {m}"));
        }
    }
    Outcome { viol: g().viol.take(), known: std::mem::take(&mut g().known) }
}

/// Executes `f` and checks that it leaves no instance and no allocation behind.
pub fn accounted(f: impl FnOnce()) {
    let a0 = LIVE.load(Relaxed);
    let b0 = LIVE_BYTES.load(Relaxed);
    f();
    pump(|| g().live_k == 0 && g().live_v == 0 && LIVE.load(Relaxed) <= a0);
    let (lk, lv) = (g().live_k, g().live_v);
    if g().viol.is_some() {
        return;
    }
    if lk != 0 || lv != 0 {
        viol("leak", || format!("{lk} keys and {lv} values were never dropped"));
    }
    let (a1, b1) = (LIVE.load(Relaxed), LIVE_BYTES.load(Relaxed));
    if a1 > a0 {
        viol("leak", || format!("{} allocations ({} bytes) were never freed", a1 - a0, b1 - b0));
    }
}

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn kill(p: i32, s: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
}

/// Runs `f` in a process of its own; returns what became of it if that failed.
pub fn dies(secs: u64, f: impl FnOnce()) -> Option<String> {
    let pid = unsafe { fork() };
    if pid == 0 {
        unsafe { prctl(1, 9, 0, 0, 0) };
        let r = catch_unwind(AssertUnwindSafe(f));
        unsafe { _exit(if r.is_ok() { 0 } else { 77 }) };
    }
    let t0 = Instant::now();
    loop {
        let mut st = 0;
        if unsafe { waitpid(pid, &mut st, 1) } == pid {
            return match st {
                0 => None,
                _ if st >> 8 == 77 => Some("an operation panicked while an initial state was built".into()),
                _ => Some(format!("the process died with wait status {st:#x} while an initial state was built")),
            };
        }
        if t0.elapsed().as_secs() > secs {
            unsafe { kill(pid, 9) };
            unsafe { waitpid(pid, &mut st, 0) };
            return Some("an operation did not end while an initial state was built".into());
        }
        std::thread::sleep(std::time::Duration::from_millis(5));
    }
}
/// The report if the initial states could not be built.
pub fn failed_early(why: &str) -> String {
    format!(
        "{{\"wall_s\":0,\"error\":\"\",\"violations\":[{{\"kind\":\"prepare\",\"case\":\"prepare#0\",\"msg\":{}}}],\"known\":[],\"cases\":1,\"runs\":1,\"ops\":1,\"faults\":0,\"before\":0,\"after\":0,\"states\":1,\"total\":1,\"complete\":false,\"families\":{{}},\"samples\":[]}}\n",
        js(why)
    )
}

pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' => o.push_str("\\n"),
            c if (c as u32) < 32 => {
                let _ = write!(o, "\\u{:04x}", c as u32);
            }
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

const CHUNK: u64 = 32;

struct Part {
    runs: u64,
    ops: u64,
    faults: u64,
    before: u64,
    after: u64,
    cases: u64,
    states: Vec<u64>,
    viol: Vec<(String, u64, String, String)>,
    known: BTreeMap<String, (u64, String)>,
}

/// Shared words: 0: next chunk, 1: stop, 8 + 4w: family, case, number of cases started of worker w.
fn worker(w: usize, fams: &[Box<dyn Family>], offs: &[u64], shm: *mut u64, deadline: Instant, knowns: &[String], path: &str) {
    use std::sync::atomic::AtomicU64;
    let cell = |i: usize| unsafe { &*(shm.add(i) as *const AtomicU64) };
    warm_up();
    let mut st = Stat::default();
    let mut p = Part { runs: 0, ops: 0, faults: 0, before: 0, after: 0, cases: 0, states: vec![], viol: vec![], known: BTreeMap::new() };
    let total = *offs.last().unwrap();
    'all: loop {
        let c = cell(0).fetch_add(CHUNK, Relaxed);
        if c >= total || cell(1).load(Relaxed) != 0 {
            break;
        }
        for x in c..(c + CHUNK).min(total) {
            let f = offs.partition_point(|o| *o <= x) - 1;
            let i = x - offs[f];
            cell(8 + 4 * w).store(f as u64, Relaxed);
            cell(9 + 4 * w).store(i, Relaxed);
            cell(10 + 4 * w).fetch_add(1, Relaxed);
            let o = run_case(&*fams[f], i, &mut st);
            p.cases += 1;
            for (k, m) in o.known {
                if knowns.contains(&k) {
                    let e = p.known.entry(k).or_insert_with(|| (0, format!("{}#{i} {m}", fams[f].name())));
                    e.0 += 1;
                } else if p.viol.is_empty() {
                    p.viol.push((fams[f].name(), i, k, m));
                }
            }
            if let Some((k, m)) = o.viol {
                p.viol.push((fams[f].name(), i, k, m));
            }
            if !p.viol.is_empty() {
                cell(1).store(1, Relaxed);
                break 'all;
            }
            if x % 64 == 0 && Instant::now() > deadline {
                cell(1).store(2, Relaxed);
                break 'all;
            }
        }
    }
    let mut o = format!("C {} {} {} {} {} {}\n", p.cases, st.runs, st.ops, st.faults, st.before, st.after);
    for (f, i, k, m) in p.viol {
        let _ = writeln!(o, "V {f} {i} {k} {}", m.replace('\n', " "));
    }
    for (k, (n, m)) in p.known {
        let _ = writeln!(o, "K {k} {n} {}", m.replace('\n', " "));
    }
    std::fs::write(path, o).unwrap();
    p.states = st.states.into_iter().collect();
    let bytes: Vec<u8> = p.states.iter().flat_map(|x| x.to_le_bytes()).collect();
    std::fs::write(format!("{path}.s"), bytes).unwrap();
}

/// Runs all the cases; returns the report as JSON.
pub fn run_all(fams: Vec<Box<dyn Family>>, deadline: Instant, knowns: &[String], out: &str) -> String {
    let nw: usize = std::env::var("SEQ_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
    let mut offs = vec![0u64];
    for f in &fams {
        offs.push(offs.last().unwrap() + f.count());
    }
    let total = *offs.last().unwrap();
    let t0 = Instant::now();
    let shm = unsafe { mmap(std::ptr::null_mut(), 4096, 3, 0x21, -1, 0) } as *mut u64;
    let cell = |i: usize| unsafe { &*(shm.add(i) as *const std::sync::atomic::AtomicU64) };
    let mut pids = Vec::new();
    for w in 0..nw {
        let pid = unsafe { fork() };
        if pid == 0 {
            unsafe { prctl(1, 9, 0, 0, 0) };
            let r = catch_unwind(AssertUnwindSafe(|| worker(w, &fams, &offs, shm, deadline, knowns, &format!("{out}.w{w}"))));
            unsafe { _exit(if r.is_ok() { 0 } else { 77 }) };
        }
        pids.push((pid, 0u64, Instant::now(), false));
    }
    let mut viols: Vec<(String, u64, String, String)> = Vec::new();
    let mut error = String::new();
    loop {
        let mut running = 0;
        for (w, p) in pids.iter_mut().enumerate() {
            if p.3 {
                continue;
            }
            let mut st = 0;
            let r = unsafe { waitpid(p.0, &mut st, 1) };
            if r == p.0 {
                p.3 = true;
                if st != 0 {
                    let (f, i) = (cell(8 + 4 * w).load(Relaxed) as usize, cell(9 + 4 * w).load(Relaxed));
                    cell(1).store(1, Relaxed);
                    if st & 0x7f == 9 {
                        error = "a worker was killed (out of memory?)".into();
                    } else if st >> 8 == 77 {
                        error = format!("worker panicked: {}", last_panic().lock().unwrap());
                    } else {
                        viols.push((fams[f].name(), i, "crash".into(), format!("the process died with wait status {st:#x}")));
                    }
                }
                continue;
            }
            running += 1;
            let n = cell(10 + 4 * w).load(Relaxed);
            if n != p.1 {
                p.1 = n;
                p.2 = Instant::now();
            } else if p.2.elapsed().as_secs() >= 40 {
                let (f, i) = (cell(8 + 4 * w).load(Relaxed) as usize, cell(9 + 4 * w).load(Relaxed));
                cell(1).store(1, Relaxed);
                viols.push((fams[f].name(), i, "hang".into(), "the case did not end within 40 s".into()));
                unsafe { kill(p.0, 9) };
                unsafe { waitpid(p.0, &mut st, 0) };
                p.3 = true;
            }
        }
        if running == 0 {
            break;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
    let mut c = [0u64; 6];
    let mut states: HashSet<u64> = HashSet::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    for w in 0..nw {
        let path = format!("{out}.w{w}");
        let x = std::fs::read_to_string(&path).unwrap_or_default();
        for l in x.lines() {
            let mut t = l.splitn(2, ' ');
            let (k, rest) = (t.next().unwrap(), t.next().unwrap_or(""));
            match k {
                "C" => rest.split(' ').enumerate().for_each(|(i, v)| c[i] += v.parse::<u64>().unwrap()),
                "V" => {
                    let mut q = rest.splitn(4, ' ');
                    let f = q.next().unwrap().to_string();
                    let i = q.next().unwrap().parse().unwrap();
                    viols.push((f, i, q.next().unwrap().to_string(), q.next().unwrap_or("").to_string()));
                }
                "K" => {
                    let mut q = rest.splitn(3, ' ');
                    let k = q.next().unwrap().to_string();
                    let n: u64 = q.next().unwrap().parse().unwrap();
                    known.entry(k).or_insert_with(|| (0, q.next().unwrap_or("").to_string())).0 += n;
                }
                _ => (),
            }
        }
        for ch in std::fs::read(format!("{path}.s")).unwrap_or_default().chunks_exact(8) {
            states.insert(u64::from_le_bytes(ch.try_into().unwrap()));
        }
        let _ = std::fs::remove_file(&path);
        let _ = std::fs::remove_file(format!("{path}.s"));
    }
    let complete = c[0] == total;
    let vj: Vec<String> = viols
        .iter()
        .map(|(f, i, k, m)| {
            let d = fams.iter().find(|x| x.name() == *f).map_or(String::new(), |x| x.describe(*i));
            format!("{{\"kind\":{},\"case\":{},\"msg\":{}}}", js(k), js(&format!("{f}#{i}")), js(&format!("{m} [{d}]")))
        })
        .collect();
    let kj: Vec<String> = known
        .iter()
        .map(|(k, (n, m))| format!("{{\"kind\":{},\"count\":{n},\"case\":{},\"msg\":{}}}", js(k), js(m.split(' ').next().unwrap()), js(m)))
        .collect();
    let fj: Vec<String> = fams.iter().map(|f| format!("{}:{}", js(&f.name()), f.count())).collect();
    let mut samples = Vec::new();
    for f in fams.iter().step_by((fams.len() / 6).max(1)) {
        let i = f.count() * 2 / 3;
        samples.push(js(&format!("{}#{i}: {}", f.name(), f.describe(i))));
    }
    format!(
        "{{\"wall_s\":{:.3},\"error\":{},\"violations\":[{}],\"known\":[{}],\"cases\":{},\"runs\":{},\"ops\":{},\"faults\":{},\"before\":{},\"after\":{},\"states\":{},\"total\":{total},\"complete\":{complete},\"families\":{{{}}},\"samples\":[{}]}}\n",
        t0.elapsed().as_secs_f64(),
        js(&error),
        vj.join(","),
        kj.join(","),
        c[0],
        c[1],
        c[2],
        c[3],
        c[4],
        c[5],
        states.len(),
        fj.join(","),
        samples.join(",")
    )
}
