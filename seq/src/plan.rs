//! Which families decide which property.

use std::rc::Rc;

use crate::fam::Family;
use crate::fault::*;
use crate::hash::*;
use crate::model::*;
use crate::sut::*;
use crate::tree::*;

type Fams = Vec<Box<dyn Family>>;

pub fn keys(st: &State, n: usize) -> Vec<u32> {
    let mut v = Vec::new();
    for i in 0..4 {
        v.extend(st.present.get(i));
        v.extend(st.absent.get(i));
    }
    v.truncate(n);
    v
}

fn seqs<S: Sut + 'static>(out: &mut Fams, thorough: bool) {
    for name in state_names(S::KIND) {
        let st = state(S::KIND, name);
        let big = st.init.len() > 200;
        let k2 = keys(&st, 2);
        let k4 = keys(&st, 4);
        let f4 = Rc::new(full(S::KIND, &k4));
        let f2 = Rc::new(full(S::KIND, &k2));
        let c2 = Rc::new(changing(S::KIND, &k2, true));
        let c2s = Rc::new(changing(S::KIND, &k2, false));
        let co = Rc::new(core(S::KIND, &k2));
        let mut add = |n: &str, a: Vec<Alpha>| out.push(Box::new(Seq::<S>::new(format!("{}/{n}", st.name), &st, a)));
        add("1", vec![f4.clone()]);
        if big {
            add("2", vec![c2s.clone(), f2.clone()]);
        } else {
            add("2", vec![f4.clone(), f4.clone()]);
            add("3", vec![co.clone(), c2s.clone(), f2.clone()]);
            add("4", vec![co.clone(), co.clone(), co.clone(), f2.clone()]);
            if thorough {
                add("3w", vec![c2.clone(), c2.clone(), c2.clone()]);
                add("5", vec![co.clone(), co.clone(), co.clone(), co.clone(), f2.clone()]);
                add("6", vec![co.clone(), co.clone(), co.clone(), co.clone(), co.clone(), co.clone()]);
            }
        }
    }
}

/// The order of eviction, read off by filling up the bucket.
fn order(out: &mut Fams, thorough: bool) {
    for name in ["order0", "order30", "order32", "fill30", "fill31", "full", "shuffled", "regrown", "both", "grown", "sshrunk"] {
        let st = state(Kind::Cache, name);
        let k2 = keys(&st, 2);
        let k3 = keys(&st, 3);
        let f2 = Rc::new(full(Kind::Cache, &k2));
        let c2 = Rc::new(changing(Kind::Cache, &k2, false));
        let co = Rc::new(core(Kind::Cache, &k2));
        let mut add = |n: String, a: Vec<Alpha>| {
            let mut s = Seq::<Hc>::new(format!("{}/{n}", st.name), &st, a);
            s.drain = true;
            out.push(Box::new(s));
        };
        if name.starts_with("order") {
            let uses: Alpha = Rc::new(k3.iter().flat_map(|x| [(Op::Ins(*x), false), (Op::GetNext(*x), false), (Op::Rem(*x), false)]).collect());
            for d in 1..=if thorough { 6 } else { 5 } {
                add(format!("u{d}"), vec![uses.clone(); d]);
            }
        } else {
            add("o1".into(), vec![f2.clone()]);
            add("o2".into(), vec![c2.clone(), c2.clone()]);
            add("o3".into(), vec![co.clone(), co.clone(), co.clone()]);
            if thorough {
                add("o3w".into(), vec![c2.clone(), c2.clone(), c2.clone()]);
                add("o4".into(), vec![co.clone(), co.clone(), co.clone(), co.clone()]);
            }
        }
    }
}

fn faults<S: Sut + 'static>(out: &mut Fams, mode: Mode, deep: bool) {
    let pre = if mode == Mode::Panic { "panic" } else { "alloc" };
    // Allocations are few: the same time goes much deeper.
    let thorough = deep || mode == Mode::Alloc;
    let deepest = deep && mode == Mode::Alloc;
    for name in state_names(S::KIND) {
        let st = state(S::KIND, name);
        let big = st.init.len() > 200;
        let k2 = keys(&st, 2);
        let k4 = keys(&st, 4);
        let f4 = Rc::new(full(S::KIND, &k4));
        let f2 = Rc::new(full(S::KIND, &k2));
        let c2s = Rc::new(changing(S::KIND, &k2, false));
        let co = Rc::new(core(S::KIND, &k2));
        let mut add = |n: &str, p: Vec<Alpha>, t: &Alpha, twice: bool| {
            out.push(Box::new(Fault::<S>::new(format!("{pre}-{}/{n}", st.name), mode, &st, p, t.clone(), twice)));
        };
        if big {
            add("1", vec![], if thorough { &f2 } else { &co }, false);
            continue;
        }
        add("1", vec![], &f4, false);
        add("1r", vec![], &f2, true);
        add("2", vec![co.clone()], &f2, false);
        if thorough {
            add("2w", vec![c2s.clone()], &f4, true);
            add("3", vec![co.clone(), co.clone()], &f2, false);
        }
        if deepest {
            add("3w", vec![c2s.clone(), c2s.clone()], &f2, false);
            add("3r", vec![c2s.clone(), co.clone()], &f2, true);
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq)]
enum Which {
    /// Everything.
    All,
    /// The asynchronous methods.
    Async,
    /// Traversals.
    Walks,
    /// Removal of many entries.
    Bulk,
}
fn which(w: Which, v: Vec<(Op, bool)>) -> Alpha {
    use Op::*;
    Rc::new(
        v.into_iter()
            .filter(|(o, a)| match w {
                Which::All => true,
                Which::Async => *a,
                Which::Walks => matches!(o, Iter | IterStop(_) | Walk | WalkRem(_) | WalkSet | Any(_) | AnyRem(_) | IterG | GetNext(_) | GetRemAnd(_) | MutAll | MutStop(_) | RetMut),
                Which::Bulk => matches!(o, RetNot(_) | RetMut | RetNone | RetOdd | Clear | MutAll | MutRem(_) | MutRemAll | MutStop(_) | WalkRem(_) | WalkRemAll | GetRemAnd(_) | AnyRem(_)),
            })
            .collect(),
    )
}
/// The single-threaded behaviour that other properties build upon.
fn basic<S: Sut + 'static>(out: &mut Fams, w: Which, thorough: bool) {
    for name in state_names(S::KIND) {
        let st = state(S::KIND, name);
        let big = st.init.len() > 200;
        let (k2, k4) = (keys(&st, 2), keys(&st, 4));
        let f4 = which(w, full(S::KIND, &k4));
        let f2 = which(w, full(S::KIND, &k2));
        let c2 = Rc::new(changing(S::KIND, &k2, w == Which::Async));
        let first = if w == Which::Async { which(w, c2.to_vec()) } else { c2.clone() };
        let co = Rc::new(core(S::KIND, &k2));
        let mut add = |n: &str, a: Vec<Alpha>| out.push(Box::new(Seq::<S>::new(format!("{}/{n}", st.name), &st, a)));
        add("1", vec![f4.clone()]);
        if big {
            add("2", vec![co.clone(), f2.clone()]);
            continue;
        }
        add("2", vec![first.clone(), f2.clone()]);
        add("2c", vec![f2.clone(), co.clone()]);
        if thorough {
            add("3", vec![co.clone(), first, f4]);
            add("4", vec![co.clone(), co.clone(), f2, co.clone()]);
        }
    }
}

pub fn families(prop: &str, thorough: bool) -> Fams {
    let mut v: Fams = Vec::new();
    match prop {
        "C10" => {
            seqs::<Hm>(&mut v, thorough);
            seqs::<Hs_>(&mut v, thorough);
        }
        "C11" => seqs::<Hi>(&mut v, thorough),
        "C06" => {
            seqs::<Hc>(&mut v, thorough);
            order(&mut v, thorough);
        }
        "C17" | "C24" => {
            let mode = if prop == "C17" { Mode::Panic } else { Mode::Alloc };
            faults::<Hm>(&mut v, mode, thorough);
            faults::<Hs_>(&mut v, mode, thorough);
            faults::<Hi>(&mut v, mode, thorough);
            faults::<Hc>(&mut v, mode, thorough);
            tfaults(&mut v, mode, thorough);
            crate::copies::faults(&mut v, mode, thorough);
        }
        "C12" => {
            c12(&mut v, thorough);
            scans(&mut v, false, thorough);
        }
        "C08" => {
            scans(&mut v, false, thorough);
            crate::iters::tree_walks(&mut v, thorough);
        }
        "C25" => {
            crate::iters::hash_walks(&mut v, thorough);
            crate::iters::tree_walks(&mut v, thorough);
        }
        "C01" => {
            basic::<Hm>(&mut v, Which::All, thorough);
            basic::<Hs_>(&mut v, Which::All, thorough);
        }
        "C03" => basic::<Hi>(&mut v, Which::All, thorough),
        "C05" => basic::<Hc>(&mut v, Which::All, thorough),
        "C07" => tbasic(&mut v, false, thorough),
        "C14" | "C16" | "C19" | "C21" => {
            let w = match prop {
                "C14" => Which::All,
                "C16" => Which::Async,
                "C19" => Which::Walks,
                _ => Which::Bulk,
            };
            basic::<Hm>(&mut v, w, thorough);
            basic::<Hs_>(&mut v, w, thorough);
            basic::<Hi>(&mut v, w, thorough);
            basic::<Hc>(&mut v, w, thorough);
            if w == Which::Walks {
                crate::iters::hash_walks(&mut v, thorough);
            }
            if matches!(w, Which::All | Which::Async) {
                tbasic(&mut v, w == Which::Async, thorough);
            }
        }
        "C18" => crate::caps::all(&mut v, thorough),
        "C22" => crate::copies::all(&mut v, thorough),
        "C09" => scans(&mut v, true, thorough),
        _ => (),
    }
    v
}
