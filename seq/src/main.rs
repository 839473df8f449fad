#![feature(alloc_error_hook)]
//! Exhaustive enumeration of operation sequences and fault points on the real containers.
mod base;
mod caps;
mod copies;
mod fam;
mod fault;
mod hash;
mod iters;
mod model;
mod plan;
mod sut;
mod tree;

use std::time::{Duration, Instant};

#[global_allocator]
static ALLOC: base::A = base::A;

fn main() {
    std::panic::set_hook(Box::new(|i| {
        base::off(|| {
            let m = i.to_string();
            if std::env::var("SEQ_PANIC").is_ok() {
                eprintln!("{m}");
            }
            if let Ok(mut p) = fam::last_panic().lock() {
                *p = m;
            }
        });
    }));
    std::alloc::set_alloc_error_hook(|l| {
        base::unwind(base::Oom(l.size()));
    });
    let a: Vec<String> = std::env::args().collect();
    base::ORDER_MATTERS.store(a.get(2).is_some_and(|p| p == "C06"), std::sync::atomic::Ordering::Relaxed);
    match a.get(1).map(String::as_str) {
        Some("run") => {
            let t0 = Instant::now();
            // The initial states are built in a process of their own first: the code under test may fail there already.
            if let Some(why) = fam::dies(90, || drop(plan::families(&a[2], a[3] == "thorough"))) {
                std::fs::write(&a[4], fam::failed_early(&why)).unwrap();
                return;
            }
            let fams = plan::families(&a[2], a[3] == "thorough");
            let filter = std::env::var("SEQ_FILTER").unwrap_or_default();
            let fams: Vec<_> = fams.into_iter().filter(|f| f.name().contains(&filter)).collect();
            let secs: u64 = a[5].parse().unwrap();
            let o = fam::run_all(fams, t0 + Duration::from_secs(secs), &a[6..].to_vec(), &a[4]);
            std::fs::write(&a[4], o).unwrap();
        }
        Some("count") => {
            let mut t = 0;
            for f in plan::families(&a[2], a[3] == "thorough") {
                println!("{} {}", f.name(), f.count());
                t += f.count();
            }
            println!("total {t}");
        }
        Some("replay") => {
            // replay <property> <family#index> [quick|thorough]
            if let Some(why) = fam::dies(45, || drop((plan::families(&a[2], true), plan::families(&a[2], false)))) {
                println!("REPLAY-FAIL prepare: {why}");
                std::process::exit(1);
            }
            if a[3] == "prepare#0" {
                println!("held");
                return;
            }
            let (f, i) = a[3].rsplit_once('#').unwrap();
            let i: u64 = i.parse().unwrap();
            // Families of the two tiers may share a name, but not their alphabets.
            let thorough = a.get(4).is_some_and(|t| t == "thorough");
            let fam = plan::families(&a[2], thorough)
                .into_iter()
                .chain(plan::families(&a[2], !thorough))
                .find(|x| x.name() == f)
                .expect("unknown family");
            println!("{}", fam.describe(i));
            let mut st = fam::Stat::default();
            unsafe {
                unsafe extern "C" {
                    fn alarm(n: u32) -> u32;
                    fn signal(n: i32, h: extern "C" fn(i32)) -> usize;
                    fn _exit(c: i32) -> !;
                }
                extern "C" fn died(_: i32) {
                    unsafe { _exit(1) }
                }
                for s in [4, 6, 7, 8, 11, 14] {
                    signal(s, died);
                }
                alarm(45);
            }
            fam::warm_up();
            let o = fam::run_case(&*fam, i, &mut st);
            for (k, m) in &o.known {
                println!("known {k}: {m}");
            }
            if let Some((k, m)) = o.viol {
                println!("REPLAY-FAIL {k}: {m}");
                std::process::exit(1);
            }
            if !o.known.is_empty() {
                std::process::exit(1);
            }
            println!("held");
        }
        _ => eprintln!("usage: seq run|count|replay"),
    }
}
