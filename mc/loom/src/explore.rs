//! Exhaustive depth-first exploration of schedules, bounded by the number of deviations.

use std::collections::BTreeMap;
use std::rc::Rc;
use std::time::{Duration, Instant};

use crate::sched::{self, Dec, End, s, set_replay};

#[derive(Clone, Debug)]
pub struct Config {
    pub name: String,
    /// Preemption bound.
    pub bound: u32,
    /// First bound to explore; lower bounds were explored by an earlier pass.
    pub start: u32,
    pub max_steps: u64,
    pub hb: bool,
    pub epoch_points: bool,
    pub sleep: bool,
    pub cap: Duration,
    /// Work (in steps) that bounds the iterative deepening; the bound is deterministic.
    pub budget: u64,
    /// Steps after which a job gives up (0: no limit); the limit is deterministic.
    pub step_cap: u64,
    /// Kinds of failures that are known findings: counted, and the exploration goes on.
    pub known: Vec<String>,
}

impl Config {
    pub fn new(name: &str, bound: u32) -> Self {
        Config {
            name: name.to_string(),
            bound,
            start: 0,
            max_steps: 20_000,
            hb: false,
            epoch_points: false,
            sleep: std::env::var("MC_NOSLEEP").is_err(),
            cap: Duration::from_secs(600),
            budget: u64::MAX,
            step_cap: 0,
            known: Vec::new(),
        }
    }
}

#[derive(Clone, Debug)]
pub struct Violation {
    pub kind: String,
    pub msg: String,
    pub choices: Vec<u16>,
    pub trace: Vec<String>,
}

#[derive(Clone, Debug, Default)]
pub struct Report {
    pub name: String,
    pub bound: u32,
    pub executions: u64,
    pub pruned: u64,
    pub steps: u64,
    pub switches: u64,
    pub max_decisions: u64,
    pub outcomes: BTreeMap<u64, (u64, String)>,
    pub violation: Option<Violation>,
    pub engine_error: Option<String>,
    /// Executions that ended with a known finding, per kind, with one schedule.
    pub known: BTreeMap<String, (u64, Vec<u16>)>,
    pub capped: bool,
    pub completed_bound: i64,
    /// No schedule was left out because of the bound.
    pub exhaustive: bool,
    cut: bool,
    /// Steps of all the bounds explored.
    pub work: u64,
    /// Predicted work at the next bound.
    pub next: u64,
    /// Nodes of the exploration tree: scheduling points with alternatives, on distinct prefixes.
    pub nodes: u64,
    pub wall: f64,
}

fn hash_str(x: &str) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325_u64;
    for b in x.bytes() {
        h = (h ^ u64::from(b)).wrapping_mul(0x100_0000_01b3);
    }
    h
}

unsafe extern "C" {
    fn fork() -> i32;
    fn waitpid(pid: i32, st: *mut i32, opt: i32) -> i32;
    fn _exit(c: i32) -> !;
    fn mmap(a: *mut u8, l: usize, p: i32, f: i32, fd: i32, o: i64) -> *mut u8;
    fn munmap(a: *mut u8, l: usize) -> i32;
    fn kill(p: i32, s: i32) -> i32;
    fn prctl(o: i32, a: u64, b: u64, c: u64, d: u64) -> i32;
    fn close(fd: i32) -> i32;
    fn pipe(fds: *mut i32) -> i32;
    fn read(fd: i32, b: *mut u8, n: usize) -> isize;
    fn write(fd: i32, b: *const u8, n: usize) -> isize;
    fn alarm(n: u32) -> u32;
}

const SHM: usize = 1 << 18;

/// Shared memory of a worker: [0]: len, [1]: stop flag (slot 0 only), [2..]: choices.
struct Shm(*mut u32);
impl Shm {
    fn new() -> Self {
        unsafe {
            let p = mmap(std::ptr::null_mut(), SHM * 4, 3, 0x21, -1, 0);
            assert!(p as isize != -1);
            Shm(p.cast())
        }
    }
    fn put(&self, d: &[Dec]) {
        unsafe {
            let n = d.len().min(SHM - 8);
            for (i, x) in d[..n].iter().enumerate() {
                *self.0.add(2 + i) = u32::from(x.chosen);
            }
            self.0.write_volatile(n as u32);
        }
    }
    fn get(&self) -> Vec<u16> {
        unsafe {
            let n = self.0.read_volatile() as usize;
            (0..n).map(|i| *self.0.add(2 + i) as u16).collect()
        }
    }
    fn stop_flag(&self) -> bool {
        unsafe { self.0.add(1).read_volatile() != 0 }
    }
    fn set_stop(&self) {
        unsafe { self.0.add(1).write_volatile(1) }
    }
    fn free(&self) {
        unsafe {
            munmap(self.0.cast(), SHM * 4);
        }
    }
}

fn trim(d: &[Dec]) -> Vec<u16> {
    let mut v: Vec<u16> = d.iter().map(|d| d.chosen).collect();
    while v.last() == Some(&0) {
        v.pop();
    }
    v
}

fn setup(cfg: &Config) {
    let sc = s();
    sc.max_steps = cfg.max_steps;
    sc.hb = cfg.hb;
    sc.epoch_points = cfg.epoch_points;
    sc.sleep_on = cfg.sleep;
}

/// Replays a list of choices, learning the decision metadata as it goes.
pub fn replay(cfg: &Config, body: &Rc<dyn Fn()>, choices: &[u16], trace: bool) -> (End, Vec<Dec>, Vec<String>, Vec<String>) {
    setup(cfg);
    sched::set_snapshots(false);
    // The metadata is unknown: discover it incrementally by running with permissive entries.
    FREE.with(|f| {
        *f.borrow_mut() = Some(choices.to_vec());
    });
    // First learn all decisions by repeated runs with growing prefixes.
    let mut known: Vec<Dec> = Vec::new();
    let mut end;
    loop {
        set_replay(&known);
        s().trace = None;
        end = sched::run_once(body);
        let decs = s().decs.clone();
        // Find the first decision whose choice differs from the request.
        let mut diff = None;
        for i in 0..choices.len() {
            if i >= decs.len() {
                break;
            }
            if decs[i].chosen != choices[i] {
                diff = Some(i);
                break;
            }
        }
        match diff {
            Some(i) => {
                let mut d = decs[..=i].to_vec();
                if choices[i] >= d[i].n {
                    end = End::Engine(format!("replay: choice {i} out of range"));
                    break;
                }
                d[i].chosen = choices[i];
                known = d;
            }
            None => break,
        }
    }
    let mut tr = Vec::new();
    if trace {
        set_replay(&known);
        s().trace = Some(Vec::new());
        let e2 = sched::run_once(body);
        tr = s().trace.take().unwrap_or_default();
        if e2 != end {
            end = End::Engine(format!("nondeterministic replay: {end:?} then {e2:?}"));
        }
    }
    let decs = s().decs.clone();
    let out = s().outcome.clone();
    (end, decs, tr, out)
}

thread_local! {
    static FREE: std::cell::RefCell<Option<Vec<u16>>> = const { std::cell::RefCell::new(None) };
}

/// In-place depth-first search by one worker.
fn dfs(cfg: &Config, bound: u32, id: usize, n: usize, body: &Rc<dyn Fn()>, shm: &Shm, stop: &Shm, deadline: Instant, ran: &mut u64, rep: &mut Report) {
    setup(cfg);
    s().trace = None;
    sched::set_snapshots(std::env::var("MC_NOSNAP").is_err());
    let mut path: Vec<Dec> = Vec::new();
    let matter = matter() && cfg.sleep;
    let mut it = 0u64;
    loop {
        it += 1;
        if it % 64 == 0 && (Instant::now() > deadline || stop.stop_flag()) {
            rep.capped = true;
            return;
        }
        set_replay(&path);
        shm.put(&path);
        if cfg.step_cap > 0 && *ran > cfg.step_cap {
            rep.capped = true;
            return;
        }
        let st0 = s().switches;
        unsafe {
            // A single execution that does not return is killed and reported by the parent.
            if it % 16 == 1 {
                alarm(60);
            }
        }
        let end = sched::run_once(body);
        let sc = s();
        let devs = sc.decs.iter().filter(|d| d.chosen != 0).count();
        let mine = devs >= 2 || id == 0;
        *ran += sc.steps.saturating_sub(sched::snap_steps());
        if mine {
            if end == End::Pruned {
                rep.pruned += 1;
            } else {
                rep.executions += 1;
            }
            rep.steps += sc.steps.saturating_sub(sched::snap_steps());
            rep.nodes += (sc.decs.len() - path.len().min(sc.decs.len())) as u64 + 1;
            rep.switches += sc.switches - st0;
            rep.max_decisions = rep.max_decisions.max(sc.decs.len() as u64);
        }
        match end {
            End::Done => {
                if mine && !sc.outcome.is_empty() {
                    let o = sc.outcome.join("; ");
                    let h = hash_str(&o);
                    if rep.outcomes.len() < 100_000 || rep.outcomes.contains_key(&h) {
                        let e = rep.outcomes.entry(h).or_insert((0, o));
                        e.0 += 1;
                    }
                }
            }
            End::Pruned => (),
            End::Fail { kind, .. } if cfg.known.contains(&kind) => {
                let decs = &sc.decs;
                rep.known.entry(kind).or_insert_with(|| (0, trim(decs))).0 += 1;
            }
            End::Fail { kind, msg } => {
                let choices = trim(&sc.decs);
                let decs = sc.decs.clone();
                // Confirm by replaying twice, without checkpoints.
                sched::set_snapshots(false);
                set_replay(&decs);
                let again = sched::run_once(body);
                let same = matches!(&again, End::Fail { kind: k, msg: m } if *k == kind && *m == msg);
                if !same {
                    rep.engine_error = Some(format!(
                        "failure `{kind}: {msg}` did not reproduce on replay: {again:?}"
                    ));
                    return;
                }
                set_replay(&decs);
                s().trace = Some(Vec::new());
                let _ = sched::run_once(body);
                let trace = s().trace.take().unwrap_or_default();
                rep.violation = Some(Violation { kind, msg, choices, trace });
                return;
            }
            End::Engine(e) => {
                rep.engine_error = Some(e);
                return;
            }
        }
        // Backtrack.
        let decs = s().decs.clone();
        let mut cost = 0u32;
        let mut ndev = 0usize;
        let mut pre: Vec<(u32, usize, u64)> = Vec::with_capacity(decs.len());
        let mut h = 0xcbf2_9ce4_8422_2325_u64;
        for (i, d) in decs.iter().enumerate() {
            pre.push((cost, ndev, h));
            if d.chosen != 0 {
                cost += u32::from(d.cost);
                ndev += 1;
                if ndev <= 2 {
                    h = (h ^ (i as u64 * 31 + u64::from(d.chosen))).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                    h ^= h >> 29;
                }
            }
        }
        let mut next = None;
        'find: for i in (0..decs.len()).rev() {
            let d = decs[i];
            let (c, nd, hh) = pre[i];
            let mut ch = d.chosen + 1;
            while ch < d.n {
                if c + u32::from(d.cost) > bound {
                    rep.cut = true;
                    break;
                }
                if matter && !s().matters(&d) {
                    break;
                }
                if nd + 1 == 2 && n > 1 {
                    let mut h2 = (hh ^ (i as u64 * 31 + u64::from(ch))).wrapping_mul(0x9E37_79B9_7F4A_7C15);
                    h2 ^= h2 >> 29;
                    if (h2 >> 7) as usize % n != id {
                        ch += 1;
                        continue;
                    }
                }
                next = Some((i, ch));
                break 'find;
            }
        }
        match next {
            None => return,
            Some((i, ch)) => {
                path.clear();
                path.extend_from_slice(&decs[..=i]);
                path[i].chosen = ch;
            }
        }
    }
}

fn matter() -> bool {
    std::env::var("MC_NOCONF").is_err()
}

fn ser(r: &Report) -> String {
    let mut o = String::new();
    o.push_str(&format!(
        "C {} {} {} {} {} {} {} {} {} {} {} {}\n",
        r.executions, r.pruned, r.steps, r.switches, r.max_decisions, u8::from(r.capped), r.completed_bound + 1, (r.wall * 1000.0) as u64, u8::from(r.exhaustive), r.work, r.next, r.nodes
    ));
    for (h, (c, t)) in &r.outcomes {
        o.push_str(&format!("O {h} {c} {}\n", t.replace('\n', " ")));
    }
    for (k, (n, c)) in &r.known {
        let c: Vec<String> = c.iter().map(|x| x.to_string()).collect();
        o.push_str(&format!("H {n} {k} {}\n", c.join(",")));
    }
    if let Some(e) = &r.engine_error {
        o.push_str(&format!("E {}\n", e.replace('\n', " ")));
    }
    if let Some(v) = &r.violation {
        o.push_str(&format!("K {}\n", v.kind.replace('\n', " ")));
        o.push_str(&format!("M {}\n", v.msg.replace('\n', " | ")));
        let c: Vec<String> = v.choices.iter().map(|x| x.to_string()).collect();
        o.push_str(&format!("P {}\n", c.join(",")));
        for t in &v.trace {
            o.push_str(&format!("T {}\n", t.replace('\n', " ")));
        }
    }
    o.push_str("Z\n");
    o
}

fn de(x: &str, r: &mut Report) -> bool {
    let mut ok = false;
    let mut v: Option<Violation> = None;
    for l in x.lines() {
        let (k, rest) = (l.get(..1).unwrap_or(""), l.get(2..).unwrap_or(""));
        match k {
            "C" => {
                let f: Vec<u64> = rest.split(' ').filter_map(|x| x.parse().ok()).collect();
                if f.len() == 12 {
                    r.work += f[9];
                    r.next += f[10];
                    r.nodes += f[11];
                    r.exhaustive &= f[8] != 0;
                    r.completed_bound = r.completed_bound.min(f[6] as i64 - 1);
                    r.wall += f[7] as f64 / 1000.0;
                    r.executions += f[0];
                    r.pruned += f[1];
                    r.steps += f[2];
                    r.switches += f[3];
                    r.max_decisions = r.max_decisions.max(f[4]);
                    r.capped |= f[5] != 0;
                }
            }
            "O" => {
                let mut p = rest.splitn(3, ' ');
                let h: u64 = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let c: u64 = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let t = p.next().unwrap_or("").to_string();
                r.outcomes.entry(h).or_insert((0, t)).0 += c;
            }
            "H" => {
                let mut p = rest.splitn(3, ' ');
                let n: u64 = p.next().and_then(|x| x.parse().ok()).unwrap_or(0);
                let k = p.next().unwrap_or("").to_string();
                let c = p.next().unwrap_or("").split(',').filter_map(|x| x.parse().ok()).collect();
                r.known.entry(k).or_insert((0, c)).0 += n;
            }
            "E" => r.engine_error = Some(rest.to_string()),
            "K" => {
                v = Some(Violation {
                    kind: rest.to_string(),
                    msg: String::new(),
                    choices: Vec::new(),
                    trace: Vec::new(),
                })
            }
            "M" => {
                if let Some(v) = v.as_mut() {
                    v.msg = rest.to_string();
                }
            }
            "P" => {
                if let Some(v) = v.as_mut() {
                    v.choices = rest.split(',').filter_map(|x| x.parse().ok()).collect();
                }
            }
            "T" => {
                if let Some(v) = v.as_mut() {
                    v.trace.push(rest.to_string());
                }
            }
            "Z" => ok = true,
            _ => (),
        }
    }
    if let Some(v) = v {
        // Prefer the shortest counterexample.
        if r.violation.as_ref().is_none_or(|o| o.choices.len() > v.choices.len()) {
            r.violation = Some(v);
        }
    }
    ok
}

/// Runs `f` in a forked child and returns its output and wait status.
fn in_child(f: impl FnOnce() -> String) -> (String, i32) {
    unsafe {
        let mut fds = [0i32; 2];
        assert_eq!(pipe(fds.as_mut_ptr()), 0);
        let pid = fork();
        assert!(pid >= 0);
        if pid == 0 {
            prctl(1, 9, 0, 0, 0);
            close(fds[0]);
            let o = f();
            let b = o.as_bytes();
            let mut off = 0;
            while off < b.len() {
                let w = write(fds[1], b.as_ptr().add(off), b.len() - off);
                if w <= 0 {
                    break;
                }
                off += w as usize;
            }
            _exit(0);
        }
        close(fds[1]);
        let mut buf = Vec::new();
        let mut tmp = [0u8; 65536];
        loop {
            let r = read(fds[0], tmp.as_mut_ptr(), tmp.len());
            if r <= 0 {
                break;
            }
            buf.extend_from_slice(&tmp[..r as usize]);
        }
        close(fds[0]);
        let mut st = 0;
        waitpid(pid, &mut st, 0);
        (String::from_utf8_lossy(&buf).to_string(), st)
    }
}

/// A unit of exploration: one scenario, possibly split into several jobs.
pub struct Scenario {
    pub cfg: Config,
    pub split: usize,
    pub body: Rc<dyn Fn()>,
}

struct Job {
    pid: i32,
    fd: i32,
    shm: Shm,
    scn: usize,
    buf: Vec<u8>,
}

fn job_main(cfg: &Config, body: &Rc<dyn Fn()>, id: usize, n: usize, shm: &Shm, stop: &Shm) -> String {
    let t0 = Instant::now();
    let deadline = t0 + cfg.cap;
    let mut total = Report { completed_bound: -1, ..Default::default() };
    let mut prev = 0u64;
    let mut work_all = 0u64;
    let mut ran = 0u64;
    let mut b = cfg.start;
    s().forget_conflicts();
    loop {
        let mut r;
        loop {
            let c0 = s().conflicts;
            r = Report { completed_bound: total.completed_bound, ..Default::default() };
            dfs(cfg, b, id, n, body, shm, stop, deadline, &mut ran, &mut r);
            work_all += r.steps;
            // Preemptions were left out at addresses that were not known to be contended.
            if !matter() || !cfg.sleep || s().conflicts == c0 || r.violation.is_some() || r.engine_error.is_some() || r.capped {
                break;
            }
        }
        let bad = r.violation.is_some() || r.engine_error.is_some();
        let complete = !bad && !r.capped;
        if complete {
            r.completed_bound = i64::from(b);
            r.exhaustive = !r.cut;
        }
        if bad || complete || total.completed_bound < 0 {
            total = r;
        } else {
            // Keep the statistics of the last completed bound, plus what was seen since.
            total.executions = total.executions.max(r.executions);
            for (k, v) in r.known {
                total.known.entry(k).or_insert(v);
            }
            total.pruned = total.pruned.max(r.pruned);
            total.nodes = total.nodes.max(r.nodes);
            total.steps = total.steps.max(r.steps);
            for (k, v) in r.outcomes {
                total.outcomes.entry(k).or_insert(v);
            }
            total.capped = true;
        }
        if bad || total.capped || !total.cut || b >= cfg.bound {
            break;
        }
        // Deterministic prediction of the work at the next bound.
        let work = total.steps.max(1);
        let growth = if b == 0 { 1.0 } else if prev == 0 { 4.0 } else { (work as f64 / prev as f64).max(1.5) };
        let next = work as f64 * growth;
        total.next = next as u64;
        if b >= 1 && next > cfg.budget as f64 {
            break;
        }
        prev = work;
        b += 1;
    }
    total.wall = t0.elapsed().as_secs_f64();
    total.work = work_all;
    ser(&total)
}

/// Explores the scenarios on a pool of `workers` processes. `stop_on` tells whether a violation
/// ends the whole exploration.
pub fn explore_all(
    scns: &[Scenario],
    workers: usize,
    deadline: Instant,
    mut stop_on: impl FnMut(&Report) -> bool,
) -> Vec<Report> {
    let mut reps: Vec<Report> = scns
        .iter()
        .map(|s| Report {
            name: s.cfg.name.clone(),
            bound: s.cfg.bound,
            completed_bound: i64::MAX,
            exhaustive: true,
            ..Default::default()
        })
        .collect();
    let mut crashes: Vec<Option<(Vec<u16>, i32)>> = scns.iter().map(|_| None).collect();
    let mut queue: Vec<(usize, usize)> = Vec::new();
    for (i, s) in scns.iter().enumerate() {
        for id in 0..s.split.max(1) {
            queue.push((i, id));
        }
    }
    queue.reverse();
    let stop = Shm::new();
    let mut jobs: Vec<Job> = Vec::new();
    let mut stopping = false;
    loop {
        while jobs.len() < workers && !queue.is_empty() && !stopping {
            let (i, id) = queue.pop().unwrap();
            if reps[i].violation.is_some() || reps[i].engine_error.is_some() || crashes[i].is_some() {
                continue;
            }
            let now = Instant::now();
            if now >= deadline {
                reps[i].capped = true;
                reps[i].completed_bound = -1;
                continue;
            }
            let shm = Shm::new();
            let mut cfg = scns[i].cfg.clone();
            cfg.cap = cfg.cap.min(deadline - now);
            let n = scns[i].split.max(1);
            unsafe {
                let mut fds = [0i32; 2];
                assert_eq!(pipe(fds.as_mut_ptr()), 0);
                let pid = fork();
                assert!(pid >= 0, "fork failed");
                if pid == 0 {
                    prctl(1, 9, 0, 0, 0);
                    close(fds[0]);
                    for j in &jobs {
                        close(j.fd);
                    }
                    let o = job_main(&cfg, &scns[i].body, id, n, &shm, &stop);
                    let b = o.as_bytes();
                    let mut off = 0;
                    while off < b.len() {
                        let w = write(fds[1], b.as_ptr().add(off), b.len() - off);
                        if w <= 0 {
                            break;
                        }
                        off += w as usize;
                    }
                    _exit(0);
                }
                close(fds[1]);
                jobs.push(Job { pid, fd: fds[0], shm, scn: i, buf: Vec::new() });
            }
        }
        if jobs.is_empty() {
            if queue.is_empty() || stopping {
                break;
            }
            continue;
        }
        let mut pf: Vec<PollFd> = jobs.iter().map(|j| PollFd { fd: j.fd, ev: 1, rev: 0 }).collect();
        unsafe {
            poll(pf.as_mut_ptr(), pf.len() as u64, 1000);
        }
        let mut k = 0;
        for p in pf {
            let mut done = false;
            if p.rev != 0 {
                let mut tmp = [0u8; 65536];
                let r = unsafe { read(jobs[k].fd, tmp.as_mut_ptr(), tmp.len()) };
                if r > 0 {
                    jobs[k].buf.extend_from_slice(&tmp[..r as usize]);
                } else {
                    done = true;
                }
            }
            if !done {
                k += 1;
                continue;
            }
            let j = jobs.remove(k);
            let mut st = 0;
            unsafe {
                close(j.fd);
                waitpid(j.pid, &mut st, 0);
            }
            let txt = String::from_utf8_lossy(&j.buf).to_string();
            let i = j.scn;
            let ok = de(&txt, &mut reps[i]);
            if !ok || st != 0 {
                if st & 0x7f == 9 {
                    reps[i].engine_error = Some("a worker was killed (out of memory?)".into());
                } else {
                    let (choices, st) = (j.shm.get(), st);
                    confirm_crash(&scns[i].cfg, &scns[i].body, choices, st, &mut reps[i]);
                    crashes[i] = None;
                }
            }
            j.shm.free();
            let bad = reps[i].engine_error.is_some()
                || (reps[i].violation.is_some() && stop_on(&reps[i]));
            if bad && !stopping {
                stopping = true;
                stop.set_stop();
            }
        }
    }
    stop.free();
    for r in &mut reps {
        if r.completed_bound == i64::MAX {
            r.completed_bound = -1;
        }
    }
    reps
}

/// Explores the scenarios, then deepens the cheapest of those that are not complete until the
/// total budget (in steps; the allocation is deterministic) is used up.
pub fn explore_deepening(
    mut scns: Vec<Scenario>,
    workers: usize,
    deadline: Instant,
    total: u64,
    stop_on: impl Fn(&Report) -> bool,
) -> Vec<Report> {
    let mut reps = explore_all(&scns, workers, deadline, &stop_on);
    for _ in 0..8 {
        let used: u64 = reps.iter().map(|r| r.work).sum();
        if used >= total || Instant::now() >= deadline {
            break;
        }
        if reps.iter().any(|r| r.engine_error.is_some() || (r.violation.is_some() && stop_on(r))) {
            break;
        }
        let mut cand: Vec<(u64, usize)> = reps
            .iter()
            .enumerate()
            .filter(|(i, r)| {
                !r.exhaustive && !r.capped && r.violation.is_none() && r.completed_bound >= 0 && (r.completed_bound as u32) < scns[*i].cfg.bound
            })
            .map(|(i, r)| (r.next, i))
            .collect();
        cand.sort_unstable();
        let mut left = total - used;
        let mut sel = Vec::new();
        for (c, i) in cand {
            // The prediction may be too low: the cap is four times higher.
            let c = c.max(200_000) * 2;
            if c > left || c > total / 4 {
                break;
            }
            left -= c;
            sel.push(i);
        }
        if sel.is_empty() {
            break;
        }
        let sub: Vec<Scenario> = sel
            .iter()
            .map(|&i| {
                let mut cfg = scns[i].cfg.clone();
                cfg.start = reps[i].completed_bound as u32 + 1;
                cfg.budget = 0;
                let split = if sel.len() < 4 * workers { workers as u32 } else { scns[i].split as u32 };
                cfg.step_cap = 4 * reps[i].next.max(200_000) / u64::from(split) + 200_000;
                Scenario { cfg, split: split as _, body: scns[i].body.clone() }
            })
            .collect();
        let new = explore_all(&sub, workers, deadline, &stop_on);
        for (i, mut r) in sel.into_iter().zip(new) {
            let old = &mut reps[i];
            r.work += old.work;
            r.wall += old.wall;
            if r.violation.is_some() || r.engine_error.is_some() || r.completed_bound > old.completed_bound {
                // The growth is estimated from the two last bounds.
                if r.steps > 0 && old.steps > 0 {
                    let g = (r.steps as f64 / old.steps as f64).max(1.5);
                    r.next = (r.steps as f64 * g) as u64;
                }
                *old = r;
            } else {
                old.work = r.work;
                old.wall = r.wall;
                old.capped = true;
                for (k, v) in r.outcomes {
                    old.outcomes.entry(k).or_insert(v);
                }
                for (k, v) in r.known {
                    old.known.entry(k).or_insert(v);
                }
            }
        }
    }
    scns.clear();
    reps
}

#[repr(C)]
struct PollFd {
    fd: i32,
    ev: i16,
    rev: i16,
}

unsafe extern "C" {
    fn poll(p: *mut PollFd, n: u64, t: i32) -> i32;
}

fn confirm_crash(cfg: &Config, body: &Rc<dyn Fn()>, choices: Vec<u16>, st: i32, r: &mut Report) {
    // The process died while executing the code under test: confirm twice in fresh processes.
    let mut same = true;
    for _ in 0..2 {
        let (_, st2) = in_child(|| {
            unsafe {
                alarm(60);
            }
            let _ = replay(cfg, body, &choices, false);
            String::new()
        });
        same &= st2 & 0x7f == st & 0x7f && st2 != 0;
    }
    if same {
        let sig = st & 0x7f;
        r.violation = Some(Violation {
            kind: if sig == 14 { "hang".into() } else { "crash".into() },
            msg: format!("the process died with signal {sig} while executing this schedule (reproduced twice)"),
            choices,
            trace: Vec::new(),
        });
    } else {
        r.engine_error = Some(format!("worker died with status {st:#x}, not reproducible"));
    }
}

/// Runs `f` in a child process and reports its output and wait status (for replays).
pub fn isolated(f: impl FnOnce() -> String) -> (String, i32) {
    in_child(f)
}

#[allow(dead_code)]
fn unused() {
    unsafe {
        kill(0, 0);
    }
}
