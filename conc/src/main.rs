//! Exhaustive interleaving exploration of the containers.
mod common;
mod ops;
mod scen;
mod selftest;

use std::collections::BTreeMap;
use std::io::Write;
use std::rc::Rc;
use std::time::{Duration, Instant};

use loom::explore::{Config, Report, Scenario, explore_deepening, isolated, replay};
use loom::sched::{self, End};

use common::*;
use ops::*;
use scen::{Kind, Spec};

#[global_allocator]
static A: loom::arena::Arena = loom::arena::Arena;

fn body<C: Cont>(spec: &Spec) {
    begin();
    reg().deep = spec.deep;
    sdd_cadence(spec);
    flag_reset();
    let m = Rc::new(C::make(spec.cap));
    reg().hist.clear();
    for op in &spec.init {
        m.exec(op, false);
    }
    // The abstract initial state, from the sequential history.
    let mut st: BTreeMap<u32, u32> = BTreeMap::new();
    loom::arena::off(|| {
        for e in &reg().hist {
            match e.post {
                Post::Same => (),
                Post::Set(v) => {
                    st.insert(e.key, v);
                }
                Post::Del => {
                    st.remove(&e.key);
                }
            }
        }
    });
    reg().hist.clear();
    reg().notes.clear();
    // Leaked: it has to survive a return to the checkpoint.
    let st: &'static BTreeMap<u32, u32> = loom::arena::off(|| Box::leak(Box::new(st)));
    sched::checkpoint();
    flag_reset();
    sdd_cadence(spec);
    reg().deep = spec.deep;
    let spec_p: &'static Spec = unsafe { &*(spec as *const Spec) };
    let shape = m.shape();
    {
        let mut hs = Vec::with_capacity(spec.threads.len());
        for i in 1..spec.threads.len() {
            let m2 = m.clone();
            hs.push(loom::thread::spawn(move || {
                for (op, asy) in &spec_p.threads[i] {
                    m2.exec(op, *asy);
                }
                drop(m2);
            }));
        }
        for (op, asy) in &spec_p.threads[0] {
            m.exec(op, *asy);
        }
        for h in hs {
            let _ = h.join();
        }
    }
    finish(spec, &*m, st, shape);
    drop(m);
    check_no_leak();
}

fn sdd_cadence(spec: &Spec) {
    sdd::mc_set_cadence(spec.cadence);
}

/// Checks of the quiescent container.
fn finish<C: Cont>(spec: &Spec, m: &C, st: &BTreeMap<u32, u32>, shape: usize) {
    let shape2 = m.shape();
    let fin = op_begin("final", ALL);
    let mut present = 0;
    let mut bad = None;
    let mut scan = m.scan_final();
    if C::ORDERED {
        if scan.windows(2).any(|w| w[0].0 >= w[1].0) {
            sched::fail("not-ordered", "the final scan is not strictly ordered");
        }
    } else {
        scan.sort_unstable();
    }
    let count = |k: u32| {
        let i = scan.partition_point(|s| s.0 < k);
        scan[i..].iter().take_while(|s| s.0 == k).count()
    };
    for &k in keys() {
        let v = m.peek_final(k);
        ev("final", k, fin, fin + 1, v.map_or(Pre::None, Pre::Is), Post::Same);
        if let Some(v) = v {
            present += 1;
            if count(k) != 1 || scan.binary_search(&(k, v)).is_err() {
                bad = Some(k);
            }
        }
    }
    op_end();
    check_history(st);
    if let Some(k) = bad {
        let n = count(k);
        let m = loom::arena::off(|| format!("key {k:#x} is present but a quiescent scan yields it {n} times"));
        sched::fail("scan-mismatch", &m);
    }
    if scan.len() != present {
        let m = loom::arena::off(|| format!("{present} keys are present but a quiescent scan yields {}", scan.len()));
        sched::fail("scan-mismatch", &m);
    }
    if m.len_final() != present {
        let m = loom::arena::off(|| format!("len() = {} but {present} entries are present", m.len_final()));
        sched::fail("len-mismatch", &m);
    }
    if m.cap_final() < present && !spec.overflow {
        sched::fail("capacity", "the capacity is less than the number of entries");
    }
    drop(scan);
    record_outcome(st);
    sched::outcome(|| format!("shape {shape}>{shape2}"));
    // The container still works.
    if let Some(f) = spec.fresh {
        reg().hist.clear();
        m.exec(&Op::Ins(f, 77), false);
        if m.peek_final(f) != Some(77) {
            sched::fail("dead-container", "a fresh insertion after the run is not visible");
        }
        m.exec(&Op::Rem(f), false);
        if m.peek_final(f).is_some() {
            sched::fail("dead-container", "a removal after the run has no effect");
        }
        if reg().hist.iter().any(|e| e.name != "evicted" && e.key == f && e.post == Post::Same) {
            sched::fail("dead-container", "an operation on a fresh key after the run failed");
        }
    }
}

fn run_body(spec: &'static Spec) -> Rc<dyn Fn()> {
    Rc::new(move || {
        loom::arena::off(|| set_keys(spec.keys.clone()));
        match spec.kind {
            Kind::Map => body::<Hm>(spec),
            Kind::Index => body::<Hi>(spec),
            Kind::Cache => body::<Hc>(spec),
            Kind::Tree => body::<Ti>(spec),
        }
    })
}

fn cfg(spec: &Spec, budget: u64, known: &[String]) -> Config {
    let mut c = Config::new(&spec.name, spec.max_bound);
    c.hb = true;
    c.epoch_points = spec.epoch_points;
    c.budget = budget;
    c.known = known.to_vec();
    c
}

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            c if (c as u32) < 32 => o.push(' '),
            c => o.push(c),
        }
    }
    o.push('"');
    o
}

fn emit(r: &Report) -> String {
    let mut o = format!(
        "{{\"name\":{},\"bound\":{},\"completed_bound\":{},\"executions\":{},\"pruned\":{},\"steps\":{},\"switches\":{},\"nodes\":{},\"work\":{},\"max_decisions\":{},\"outcomes\":{},\"exhaustive\":{},\"capped\":{},\"cpu_s\":{:.3}",
        js(&r.name), r.bound, r.completed_bound, r.executions, r.pruned, r.steps, r.switches, r.nodes, r.work, r.max_decisions,
        r.outcomes.len(), r.exhaustive, r.capped, r.wall
    );
    let samples: Vec<String> = r.outcomes.values().take(2).map(|o| js(&o.1)).collect();
    o.push_str(&format!(",\"samples\":[{}]", samples.join(",")));
    let kn: Vec<String> = r
        .known
        .iter()
        .map(|(k, (n, c))| {
            let c: Vec<String> = c.iter().map(|c| c.to_string()).collect();
            format!("{}:{{\"count\":{n},\"choices\":[{}]}}", js(k), c.join(","))
        })
        .collect();
    o.push_str(&format!(",\"known\":{{{}}}", kn.join(",")));
    if let Some(e) = &r.engine_error {
        o.push_str(&format!(",\"engine_error\":{}", js(e)));
    }
    if let Some(v) = &r.violation {
        let ch: Vec<String> = v.choices.iter().map(|c| c.to_string()).collect();
        let tr: Vec<String> = v.trace.iter().map(|t| js(t)).collect();
        o.push_str(&format!(
            ",\"violation\":{{\"kind\":{},\"msg\":{},\"choices\":[{}],\"trace\":[{}]}}",
            js(&v.kind), js(&v.msg), ch.join(","), tr.join(",")
        ));
    }
    o.push('}');
    o
}

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("MC_PANIC").is_ok() {
            loom::arena::off(|| eprintln!("{i}"));
        }
    }));
    sdd::mc_install();
    install();
    sched::set_spin_probe(spin_probe);
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(String::as_str) {
        Some("run") => {
            let prop = &a[2];
            let thorough = a[3] == "thorough";
            let out = &a[4];
            let secs: u64 = a[5].parse().unwrap();
            let known: Vec<String> = a[6..].to_vec();
            let filter = std::env::var("MC_FILTER").unwrap_or_default();
            let specs: &'static Vec<Spec> = Box::leak(Box::new(
                scen::all()
                    .into_iter()
                    .filter(|s| s.props.iter().any(|p| p.0 == prop && (thorough || p.1)) && s.name.contains(&filter))
                    .collect(),
            ));
            let mut order: Vec<&'static Spec> = specs.iter().collect();
            order.sort_by_key(|s| std::cmp::Reverse(s.weight));
            // The work is distributed in proportion to the weights.
            let total: u64 = std::env::var("MC_BUDGET")
                .ok()
                .and_then(|v| v.parse().ok())
                .unwrap_or(if thorough { 40_000_000_000 } else { 1_600_000_000 });
            let sum: u64 = order.iter().map(|s| u64::from(s.weight)).sum();
            let scns: Vec<Scenario> = order
                .iter()
                .map(|&s| {
                    let budget = total / 4 / sum.max(1) * u64::from(s.weight);
                    let split = if order.len() < 64 { 8 } else if thorough { 2 } else { 1 };
                    Scenario { cfg: cfg(s, budget / split as u64, &known), split, body: run_body(s) }
                })
                .collect();
            let workers = std::env::var("MC_WORKERS").ok().and_then(|v| v.parse().ok()).unwrap_or(8);
            let t0 = Instant::now();
            let reps = explore_deepening(scns, workers, t0 + Duration::from_secs(secs), total, |r| {
                r.violation.is_some()
            });
            let mut f = std::fs::File::create(out).unwrap();
            let v: Vec<String> = reps.iter().map(emit).collect();
            writeln!(f, "{{\"prop\":{},\"wall_s\":{:.3},\"scenarios\":[\n{}\n]}}", js(prop), t0.elapsed().as_secs_f64(), v.join(",\n")).unwrap();
        }
        Some("selftest") => {
            let bad = selftest::all();
            for b in &bad {
                println!("SELFTEST-FAIL {b}");
            }
            println!("selftest: {} failed", bad.len());
            std::process::exit(i32::from(!bad.is_empty()));
        }
        Some("list") => {
            for s in scen::all() {
                let p: Vec<String> = s.props.iter().map(|p| format!("{}{}", p.0, if p.1 { "" } else { "t" })).collect();
                println!("{} {}", p.join(","), s.name);
            }
        }
        Some("replay") => {
            // replay <scenario> <choices>
            let spec: &'static Spec =
                Box::leak(Box::new(scen::all().into_iter().find(|s| s.name == a[2]).expect("unknown scenario")));
            let ch: Vec<u16> = a.get(3).map(|c| c.split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default();
            let c = cfg(spec, 0, &[]);
            let b = run_body(spec);
            let (o, st) = isolated(|| {
                let (end, _, tr, out) = replay(&c, &b, &ch, true);
                let mut o = String::new();
                for t in tr {
                    o.push_str(&t);
                    o.push('\n');
                }
                for t in out {
                    o.push_str(&format!("outcome: {t}\n"));
                }
                o.push_str(&format!("end: {end:?}\n"));
                if matches!(end, End::Fail { .. }) { o.push_str("REPLAY-FAIL\n") }
                o
            });
            print!("{o}");
            if st != 0 {
                println!("process status {st:#x}");
            }
            std::process::exit(if st != 0 || o.contains("REPLAY-FAIL") { 1 } else { 0 });
        }
        _ => eprintln!("usage: conc run|list|replay"),
    }
}
