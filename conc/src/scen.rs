//! The explored scenarios.

use std::collections::HashMap;

use crate::common::ALL;
use crate::ops::{Op, op_keys};
use Op::*;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Kind {
    Map,
    Index,
    Cache,
    Tree,
}
use Kind::*;

#[derive(Clone, Debug)]
pub struct Spec {
    pub name: String,
    /// Properties and the tier (`true`: quick and thorough).
    pub props: Vec<(&'static str, bool)>,
    pub kind: Kind,
    pub cap: usize,
    pub init: Vec<Op>,
    pub threads: Vec<Vec<(Op, bool)>>,
    pub cadence: u8,
    pub epoch_points: bool,
    pub deep: bool,
    pub max_bound: u32,
    pub weight: u32,
    pub overflow: bool,
    pub fresh: Option<u32>,
    pub keys: Vec<u32>,
}

/// A key in the bucket selected by `b` with partial hash `p`.
pub const fn k(b: u32, p: u32) -> u32 {
    b << 8 | p
}

/// An initial state.
#[derive(Clone)]
pub struct State {
    pub name: String,
    pub kind: Kind,
    pub cap: usize,
    pub init: Vec<Op>,
    pub overflow: bool,
    pub fresh: u32,
    /// Operations that change the structure of the container in this state.
    pub trig: Vec<Op>,
    /// Interesting keys: present, then absent.
    pub present: Vec<u32>,
    pub absent: Vec<u32>,
}

pub struct B {
    v: Vec<Spec>,
    idx: HashMap<String, usize>,
}

fn short(o: &Op) -> String {
    match o {
        Both(a, b) => format!("Both[{}+{}]", short(a), short(b)),
        Cancel(a) => format!("Cancel[{}]", short(a)),
        o => {
            let n = format!("{o:?}");
            let n = n.split('(').next().unwrap().to_string();
            let ks = op_keys(o);
            match o {
                ScanRem(ALL) | RetainNot(ALL) | WalkRem(ALL) => format!("{n}(all)"),
                Range(a, b) | RemRange(a, b) => format!("{n}({a:x}..{b:x})"),
                Reserve(x) => format!("{n}({x})"),
                RemIf(k, w) if *w != 100 => format!("{n}({k:x},{w})"),
                _ if ks.is_empty() => n,
                _ => format!("{n}({:x})", ks[0]),
            }
        }
    }
}

/// How the operations of the threads are called.
#[derive(Clone, Copy, PartialEq)]
enum Mode {
    Sync,
    Async,
    /// The first thread is synchronous, the others are asynchronous.
    Mixed,
    /// The first thread is asynchronous, the others are synchronous.
    Mixed2,
}

impl B {
    fn add(&mut self, props: &[&'static str], quick: bool, st: &State, mode: Mode, threads: Vec<Vec<Op>>) -> &mut Spec {
        let threads: Vec<Vec<(Op, bool)>> = threads
            .into_iter()
            .enumerate()
            .map(|(i, t)| {
                let a = match mode {
                    Mode::Sync => false,
                    Mode::Async => true,
                    Mode::Mixed => i != 0,
                    Mode::Mixed2 => i == 0,
                };
                t.into_iter().map(|o| (o, a)).collect()
            })
            .collect();
        let mut keys: Vec<u32> = st.init.iter().flat_map(op_keys).collect();
        for t in &threads {
            for (o, _) in t {
                keys.extend(op_keys(o));
            }
        }
        keys.sort_unstable();
        keys.dedup();
        let tn: Vec<String> = threads
            .iter()
            .map(|t| {
                t.iter().map(|(o, a)| format!("{}{}", short(o), if *a { "~" } else { "" })).collect::<Vec<_>>().join(";")
            })
            .collect();
        let name = format!("{}/{}", st.name, tn.join("|"));
        if let Some(&i) = self.idx.get(&name) {
            let s = &mut self.v[i];
            for p in props {
                if let Some(q) = s.props.iter_mut().find(|x| x.0 == *p) {
                    q.1 |= quick;
                } else {
                    s.props.push((p, quick));
                }
            }
            return &mut self.v[i];
        }
        self.idx.insert(name.clone(), self.v.len());
        let w = 1 + (threads.len() as u32 - 2) + threads.iter().map(|t| t.len() as u32 - 1).sum::<u32>();
        self.v.push(Spec {
            name,
            props: props.iter().map(|p| (*p, quick)).collect(),
            kind: st.kind,
            cap: st.cap,
            init: st.init.clone(),
            threads,
            cadence: 1,
            epoch_points: false,
            deep: true,
            max_bound: 64,
            weight: w,
            overflow: st.overflow,
            fresh: Some(st.fresh),
            keys,
        });
        self.v.last_mut().unwrap()
    }
}

// ---- initial states of the hash tables ----

fn fill(kv: impl IntoIterator<Item = u32>) -> Vec<Op> {
    kv.into_iter().enumerate().map(|(i, k)| Ins(k, 100 + i as u32)).collect()
}

fn st(kind: Kind, name: &str) -> State {
    let pre = match kind {
        Map => "map",
        Index => "index",
        Cache => "cache",
        Tree => "tree",
    };
    let mut s = State {
        name: format!("{pre}-{name}"),
        kind,
        cap: if kind == Cache { 1024 } else { 0 },
        init: vec![],
        overflow: false,
        fresh: k(0xf5, 0xf0),
        trig: vec![],
        present: vec![],
        absent: vec![],
    };
    match name {
        "empty" if kind != Tree => {
            s.trig = vec![Ins(k(0, 9), 50)];
            s.absent = vec![k(0, 1), k(0, 9)];
        }
        "few" if kind != Tree => {
            s.init = fill([k(0, 1), k(0, 2), k(0x90, 3)]);
            s.trig = vec![Ins(k(0, 8), 50)];
            s.present = vec![k(0, 1), k(0, 2)];
            s.absent = vec![k(0, 9), k(0, 8)];
        }
        // One insertion into the lower bucket doubles the array.
        "grow" | "grown" => {
            let mut v: Vec<u32> = (0..22).map(|i| k(0x90, 1 + i)).collect();
            v.extend((0..31).map(|i| k([0x00, 0x40, 0x20, 0x60][i as usize % 4], 1 + i)));
            s.init = fill(v);
            s.trig = vec![Ins(k(0x20, 0x80), 50)];
            s.present = vec![k(0, 1), k(0x40, 2)];
            s.absent = vec![k(0x20, 0x80), k(0x60, 0x82)];
            if name == "grown" {
                // The new array is in place, nothing has been relocated.
                s.init.push(Ins(k(0x20, 0x80), 150));
                s.trig = vec![Ins(k(0x60, 0x81), 50), Read(k(0x90, 1)), Rem(k(0x40, 2))];
                s.present = vec![k(0, 1), k(0x20, 0x80)];
                s.absent = vec![k(0x60, 0x81), k(0, 0x82)];
            }
        }
        // A bucket with a linked overflow bucket; odd hashes never trigger sampling.
        "over" => {
            s.cap = 128;
            s.init = fill((0..34).map(|i| k(0, 1 + 2 * i)));
            s.overflow = true;
            s.trig = vec![Ins(k(0, 0x81), 50), Rem(k(0, 0x43)), Rem(k(0, 1))];
            s.present = vec![k(0, 1), k(0, 0x43)];
            s.absent = vec![k(0, 0x81)];
        }
        // Two linked overflow buckets, with one entry in the last.
        "over2" => {
            s.cap = 128;
            s.init = fill((0..41).map(|i| k(0, 1 + 2 * i)));
            s.overflow = true;
            s.trig = vec![Ins(k(0, 0x81), 50), Rem(k(0, 1 + 2 * 40)), Rem(k(0, 1 + 2 * 33))];
            s.present = vec![k(0, 1 + 2 * 40), k(0, 1 + 2 * 33)];
            s.absent = vec![k(0, 0x81)];
        }
        // Full up to the last slot: the next insertion adds a linked bucket.
        "brim" | "brim2" => {
            s.cap = 128;
            let n = if name == "brim" { 32 } else { 40 };
            s.init = fill((0..n).map(|i| k(0, 1 + 2 * i)));
            s.overflow = true;
            s.trig = vec![Ins(k(0, 0x81), 50), Rem(k(0, 1 + 2 * (n - 1)))];
            s.present = vec![k(0, 1 + 2 * (n - 1)), k(0, 1)];
            s.absent = vec![k(0, 0x81), k(0, 0x83)];
        }
        // Two linked buckets with a single entry each.
        "chain" => {
            s.cap = 128;
            s.init = fill((0..41).map(|i| k(0, 1 + 2 * i)));
            s.init.extend((33..40).map(|i| Rem(k(0, 1 + 2 * i))));
            s.overflow = true;
            s.trig = vec![Rem(k(0, 1 + 2 * 40)), Rem(k(0, 1 + 2 * 32))];
            s.present = vec![k(0, 1 + 2 * 32), k(0, 1 + 2 * 40)];
            s.absent = vec![k(0, 0x83)];
        }
        // A large array with an entry far away from the bucket that becomes empty.
        "sole" => {
            s.init = vec![Ins(k(0xf0, 4), 104), Reserve(2000)];
            s.init.extend(fill([k(0, 1), k(0x81, 3)]));
            s.init.push(Rem(k(0xf0, 4)));
            s.trig = vec![Rem(k(0, 1))];
            s.present = vec![k(0x81, 3), k(0, 1)];
            s.absent = vec![k(0x0d, 9)];
        }
        // As above, close to the threshold: an even hash triggers growth.
        // In the second pair, all the entries of the old bucket go to the same new bucket.
        "overgrow" | "overgrown" | "overgrow2" | "overgrown2" => {
            s.cap = 128;
            let to = if name.ends_with('2') { 0 } else { 0x20 };
            let mut v: Vec<u32> = (0..34).map(|i| k(if i % 2 == 0 { 0 } else { to }, 1 + 2 * i)).collect();
            v.extend((0..26).map(|i| k(0x40, 1 + 2 * i)));
            v.extend((0..26).map(|i| k(0x80, 1 + 2 * i)));
            v.extend((0..26).map(|i| k(0xc0, 1 + 2 * i)));
            s.init = fill(v);
            s.overflow = true;
            s.trig = vec![Ins(k(0, 0x80), 50)];
            s.present = vec![k(0, 1), k(to, 0x43)];
            s.absent = vec![k(0, 0x80)];
            if name.starts_with("overgrown") {
                s.init.push(Ins(k(0, 0x80), 150));
                s.trig = vec![Ins(k(0x20, 0x85), 50), Rem(k(to, 0x43))];
                s.absent = vec![k(0x20, 0x85)];
            }
        }
        // A large sparse array (64 buckets): emptying a bucket shrinks it to two.
        // "shrunk": nothing has been relocated; "half": half of the buckets have been.
        "shrink" | "shrunk" | "half" => {
            s.init = vec![Ins(k(0xf0, 4), 104), Reserve(2000)];
            s.init.extend(fill([k(0, 1), k(0x0c, 2), k(0x81, 3), k(0x82, 5)]));
            s.trig = vec![Rem(k(0, 1))];
            s.present = vec![k(0x0c, 2), k(0x81, 3), k(0, 1)];
            s.absent = vec![k(0x0c, 9), k(0x81, 9)];
            if name != "shrink" {
                s.init.push(Rem(k(0, 1)));
                s.trig = vec![Ins(k(0x05, 9), 50), Rem(k(0x81, 3))];
                s.present = vec![k(0x0c, 2), k(0x81, 3)];
            }
            if name == "half" {
                s.init.push(Ins(k(0x06, 8), 108));
                s.trig.push(Read(k(0x90, 1)));
            }
        }
        // Four sparse buckets: emptying the first shrinks them to two.
        "sshrink" | "sshrunk" | "sshrunk2" => {
            let mut v: Vec<u32> = (0..22).map(|i| k(0x90, 1 + i)).collect();
            v.extend((0..31).map(|i| k([0x00, 0x40, 0x20, 0x60][i as usize % 4], 1 + i)));
            s.init = fill(v);
            s.init.push(Ins(k(0x20, 0x80), 150));
            s.init.push(Ins(k(0x60, 0x81), 151));
            s.init.extend((1..22).map(|i| Rem(k(0x90, 1 + i))));
            s.init.push(Rem(k(0x60, 0x81)));
            s.init.push(Ins(k(0x40, 0x90), 151));
            s.init.extend((1..31).map(|i| Rem(k([0x00, 0x40, 0x20, 0x60][i as usize % 4], 1 + i))));
            s.init.push(Rem(k(0x20, 0x80)));
            s.trig = vec![Rem(k(0, 1))];
            s.present = vec![k(0, 1), k(0x40, 0x90), k(0x90, 1)];
            s.absent = vec![k(0x40, 0x92)];
            if name == "sshrunk" {
                s.init.push(Rem(k(0, 1)));
                s.trig = vec![Ins(k(0, 9), 50), Rem(k(0x90, 1))];
                s.present = vec![k(0x40, 0x90), k(0x90, 1)];
            }
            // As above, with two old buckets that share a new one.
            if name == "sshrunk2" {
                s.init.push(Rem(k(0x90, 1)));
                s.trig = vec![Ins(k(0x01, 9), 50), Rem(k(0, 1)), Read(k(0x41, 2))];
                s.present = vec![k(0x40, 0x90), k(0, 1)];
                s.absent = vec![k(0x40, 0x92), k(0x90, 9)];
            }
        }
        // A small sparse array: emptying it drops the table.
        "last" if kind != Tree => {
            s.init = fill([k(0, 1)]);
            s.trig = vec![Rem(k(0, 1))];
            s.present = vec![k(0, 1)];
            s.absent = vec![k(0, 9), k(0x90, 9)];
        }
        // A full bucket of a cache that cannot grow: a new key evicts an old one.
        "full" if kind != Tree => {
            s.cap = 64;
            s.init = fill((0..32).map(|i| k([0x00, 0x40, 0x20, 0x60][i as usize % 4], 1 + i)));
            s.trig = vec![Ins(k(0x20, 0x81), 50)];
            s.present = vec![k(0, 1), k(0x40, 2), k(0x60, 32)];
            s.absent = vec![k(0x20, 0x81), k(0x60, 0x83)];
        }
        // 64 buckets growing to 128, half of which have been relocated.
        "biggrow" | "biggrown" | "bighalf" => {
            s.cap = 2048;
            let b = |i: u32| k([0, 4, 8, 12, 16, 20, 24, 28, 0xe0, 0xe4, 0xe8, 0xec, 0xf0, 0xf4][(i / 31) as usize] + 2 * (i % 2), 1 + i % 31);
            s.init = fill((0..31 * 14).map(b));
            s.trig = vec![Ins(k(0, 0x80), 50)];
            s.present = vec![k(0, 1), k(0xe0, 1)];
            s.absent = vec![k(2, 0x81), k(0xe2, 0x81)];
            if name != "biggrow" {
                s.init.push(Ins(k(0, 0x80), 150));
                s.trig = vec![Ins(k(2, 0x82), 51), Rem(k(0xe0, 1))];
            }
            if name == "bighalf" {
                s.init.push(Ins(k(0, 0x84), 151));
                s.trig = vec![Ins(k(0xe2, 0x82), 51), Rem(k(0xe0, 1))];
            }
        }
        x if kind == Tree => tree_state(&mut s, x),
        x => panic!("{x}"),
    }
    if kind == Index {
        // Values removed from a hash index stay until the epoch advances.
        s.overflow = true;
    }
    s
}

/// All hash table states with structural changes.
fn structural(kind: Kind) -> Vec<State> {
    let mut v = vec!["empty", "grow", "grown", "sshrink", "sshrunk", "sshrunk2"];
    if kind == Cache {
        v.push("full");
    } else {
        v.extend(["over", "overgrow", "overgrown", "overgrow2", "overgrown2", "shrink", "shrunk", "half", "last"]);
    }
    v.into_iter().map(|n| st(kind, n)).collect()
}

/// States for single operations.
fn narrow(kind: Kind) -> Vec<State> {
    if matches!(kind, Map | Index) { ["brim", "brim2", "chain", "sole"].into_iter().map(|n| st(kind, n)).collect() } else { vec![] }
}

/// A structural change followed by accesses that carry it on, against one concurrent operation.
fn chains(b: &mut B, kind: Kind) {
    if kind == Tree {
        return;
    }
    let lin = lin(kind);
    for s in structural(kind).into_iter().chain(narrow(kind)) {
        let (Some(&t), Some(&u)) = (s.present.first(), s.absent.first()) else { continue };
        let t2 = *s.present.last().unwrap();
        let u2 = *s.absent.last().unwrap();
        let tr = s.trig[0].clone();
        let seqs = [
            vec![tr.clone(), Ins(u2, 60)],
            vec![tr.clone(), Rem(t)],
            vec![tr.clone(), Ins(u2, 60), Rem(t2)],
            vec![tr.clone(), Ins(u, 60), Ins(u2, 61)],
        ];
        for (i, q) in seqs.iter().enumerate() {
            for &x in &[t, t2] {
                b.add(&[lin], true, &s, Mode::Sync, vec![q.clone(), vec![Read(x)]]);
                if i < 2 {
                    b.add(&[lin], true, &s, Mode::Sync, vec![q.clone(), vec![Rem(x)]]);
                    b.add(&["C16"], true, &s, Mode::Async, vec![q.clone(), vec![Read(x)]]);
                    b.add(&["C02"], true, &s, Mode::Sync, vec![q.clone(), vec![GetYield(x)]]);
                    b.add(&["C23"], true, &s, Mode::Sync, vec![q.clone(), vec![Read(x)]]);
                }
            }
            b.add(&[lin], true, &s, Mode::Sync, vec![q.clone(), vec![Ins(u2, 9)]]);
            b.add(&["C14"], i < 2, &s, Mode::Sync, vec![q.clone(), vec![Rem(t2)]]);
            for x in scans(kind) {
                b.add(&["C19"], i < 3, &s, Mode::Sync, vec![q.clone(), vec![x.clone()]]);
                if !matches!(x, Range(..)) {
                    b.add(&["C19"], i < 2, &s, Mode::Async, vec![q.clone(), vec![x.clone()]]);
                }
            }
            b.add(&["C20"], i < 2, &s, Mode::Mixed, vec![q.clone(), vec![Rem(t2)]]);
            for x in bulk(kind, t).into_iter().take(3) {
                b.add(&["C21"], i < 2, &s, Mode::Sync, vec![q.clone(), vec![x]]);
            }
        }
        // The relocation meets a bucket that is locked for long, and is given up.
        for &x in &[t, t2] {
            for o in [Ins(u, 60), Rem(t2)] {
                let c = Cancel(Box::new(o.clone()));
                b.add(&["C15"], true, &s, Mode::Sync, vec![vec![GetYield(x)], vec![tr.clone(), c.clone(), Ins(u2, 61)]]);
                b.add(&["C15"], true, &s, Mode::Sync, vec![vec![GetYield(x)], vec![tr.clone(), c.clone()]]);
            }
            b.add(&["C20", lin], true, &s, Mode::Sync, vec![vec![GetYield(x)], vec![tr.clone(), TryEnt(u, 60), Ins(u2, 61)]]);
        }
    }
}

/// An asynchronous operation sleeps while the arrays it has seen are replaced and returned.
fn resumes(b: &mut B, kind: Kind) {
    if kind == Tree {
        return;
    }
    for s in structural(kind) {
        let (Some(&t), Some(&u)) = (s.present.first(), s.absent.first()) else { continue };
        let t2 = *s.present.last().unwrap();
        let u2 = *s.absent.last().unwrap();
        let tr = s.trig[0].clone();
        let mut s2 = s.clone();
        s2.name.push_str("+ep");
        let seqs = [
            vec![tr.clone(), Clear, Ins(u, 60)],
            vec![tr.clone(), Ins(u2, 60), Clear],
            vec![GetYield(t), tr.clone(), Ins(u2, 60), Ins(u, 60)],
            vec![GetYield(t), tr.clone(), Clear, Ins(u, 60)],
        ];
        for (i, q) in seqs.iter().enumerate() {
            let ops = [("C16", vec![Ins(u2, 9), Rem(t), Rem(t2), Read(t2)]), ("C21", bulk(kind, t)), ("C19", scans(kind))];
            for (p, os) in ops {
                for o in os {
                    if matches!(o, Range(..)) || i == 3 && p != "C16" && !matches!(o, Clear | Scan) {
                        continue;
                    }
                    let x = b.add(&[p], true, &s2, Mode::Mixed, vec![q.clone(), vec![o.clone()]]);
                    x.epoch_points = true;
                    let x = b.add(&["C04"], p == "C16", &s2, Mode::Mixed, vec![q.clone(), vec![o.clone()]]);
                    x.epoch_points = true;
                    let x = b.add(&["C15"], p == "C16" && i < 2, &s2, Mode::Sync, vec![q.clone(), vec![Cancel(Box::new(o.clone()))]]);
                    x.epoch_points = true;
                }
            }
        }
    }
}

fn single(kind: Kind, t: u32, v: u32) -> Vec<Op> {
    match kind {
        Map => vec![
            Ins(t, v), Ups(t, v), Rem(t), RemIf(t, 100), Read(t), Upd(t, v), GetMut(t, v), GetRem(t), OrIns(t, v),
            EntIns(t, v), AndMod(t, v), Replace(t, v), Has(t), TryEnt(t, v),
        ],
        Index => vec![
            Ins(t, v), Rem(t), RemIf(t, 100), Read(t), Update(t, v), GetRem(t), OrIns(t, v), EntIns(t, v), Has(t),
            TryEnt(t, v), Get(t),
        ],
        Cache => vec![
            Ins(t, v), Rem(t), RemIf(t, 100), Read(t), GetMut(t, v), GetRem(t), OrIns(t, v), EntIns(t, v),
            Replace(t, v), Has(t), TryEnt(t, v),
        ],
        Tree => vec![Ins(t, v), Rem(t), RemIf(t, 100), Read(t), Has(t)],
    }
}

fn core(kind: Kind, t: u32, v: u32) -> Vec<Op> {
    match kind {
        Map => vec![Ins(t, v), Rem(t), Read(t), Upd(t, v), OrIns(t, v)],
        Index => vec![Ins(t, v), Rem(t), Read(t), Update(t, v), Has(t)],
        Cache => vec![Ins(t, v), Rem(t), Read(t), GetMut(t, v)],
        Tree => vec![Ins(t, v), Rem(t), Read(t)],
    }
}

fn scans(kind: Kind) -> Vec<Op> {
    match kind {
        Map => vec![Scan, Walk],
        Index => vec![Scan, Walk, Range(0, 0)],
        Cache => vec![Scan],
        Tree => vec![Scan],
    }
}

fn bulk(kind: Kind, t: u32) -> Vec<Op> {
    match kind {
        Map => vec![RetainNot(t), RetainNot(ALL), Clear, ScanRem(t), ScanRem(ALL), WalkRem(t), WalkRem(ALL)],
        Index => vec![RetainNot(t), RetainNot(ALL), Clear, WalkRem(t), WalkRem(ALL)],
        Cache => vec![RetainNot(t), RetainNot(ALL), Clear, ScanRem(t), ScanRem(ALL)],
        Tree => vec![Clear],
    }
}

/// Keys of the trees: multiples of 16, so that others fit in between.
const fn n(i: u32) -> u32 {
    i * 16
}

fn tree_state(s: &mut State, name: &str) {
    let asc = |a: u32, b: u32| fill((a..b).map(n));
    s.fresh = 0x00f0_0001;
    match name {
        "empty" => {
            s.trig = vec![Ins(n(1), 50)];
            s.absent = vec![n(1), n(2)];
        }
        "few" => {
            s.init = asc(1, 4);
            s.trig = vec![Ins(n(4), 50)];
            s.present = vec![n(1), n(3)];
            s.absent = vec![n(4), n(2) + 1];
        }
        // A full leaf: a leaf split.
        "full" => {
            s.init = asc(1, 15);
            s.trig = vec![Ins(n(7) + 1, 50), Ins(n(15), 50)];
            s.present = vec![n(1), n(7), n(14)];
            s.absent = vec![n(7) + 1, n(15), 1];
        }
        // Two leaves, the second with a single key: removing it unlinks the leaf.
        "pair" => {
            s.init = asc(1, 16);
            s.trig = vec![Rem(n(15)), Ins(n(3) + 1, 50)];
            s.present = vec![n(1), n(14), n(15)];
            s.absent = vec![n(16), n(14) + 1, n(3) + 1];
        }
        // Three leaves; the first (the second) holds a single key.
        "sparse" | "mid" => {
            s.init = asc(1, 31);
            let lo = if name == "sparse" { 1 } else { 15 };
            s.init.extend((lo + 1..lo + 14).map(|i| Rem(n(i))));
            s.trig = vec![Rem(n(lo))];
            s.present = vec![n(lo), n(if lo == 1 { 15 } else { 14 }), n(30)];
            s.absent = vec![n(lo + 1), n(lo) - 1, n(lo + 13)];
        }
        // Several leaves, a full one in the middle.
        "second" | "second4" => {
            s.init = asc(1, 40);
            let m = if name == "second" { 1 } else { 4 };
            s.init.extend((0..m).map(|i| Ins(n(20) + 1 + i, 300 + i)));
            s.trig = vec![Ins(n(20) + 15, 50)];
            s.present = vec![n(20), n(20) + 1, n(1)];
            s.absent = vec![n(20) + 15, n(19) + 1];
        }
        // A single key: removing it empties the tree.
        "last" => {
            s.init = asc(1, 2);
            s.trig = vec![Rem(n(1))];
            s.present = vec![n(1)];
            s.absent = vec![n(2), 1];
        }
        // A leaf full of removed slots: an insertion replaces the leaf.
        "holes" => {
            s.init = asc(1, 15);
            s.init.extend((3..13).map(|i| Rem(n(i))));
            s.trig = vec![Ins(n(5), 50)];
            s.present = vec![n(1), n(2), n(14)];
            s.absent = vec![n(5), n(9)];
        }
        // A full leaf node: splitting a leaf splits the node and the root gets a level.
        "node" => {
            s.init = asc(1, 197);
            s.trig = vec![Ins(n(100) + 1, 50), Ins(n(197), 50)];
            s.present = vec![n(100), n(1), n(196)];
            s.absent = vec![n(100) + 1, n(150) + 1, n(197)];
        }
        // Two levels with a single key below the first: removing it collapses the root.
        "deep" => {
            s.init = asc(1, 201);
            s.init.extend((1..169).map(|i| Rem(n(i))));
            s.trig = vec![Rem(n(169))];
            s.present = vec![n(169), n(200), n(182)];
            s.absent = vec![n(100), n(170) + 1, n(201)];
        }
        // Two levels; the last leaf holds a single key.
        "edge" => {
            s.init = asc(1, 212);
            s.init.extend((2..169).map(|i| Rem(n(i))));
            s.trig = vec![Rem(n(1)), Rem(n(211)), Ins(n(175) + 1, 50)];
            s.present = vec![n(1), n(169), n(211)];
            s.absent = vec![n(100), n(212), n(175) + 1];
        }
        // Two levels, two full leaf nodes: both can be split under the same root.
        "wide" => {
            s.init = asc(1, 366);
            s.init.extend(below(100, 0, 3));
            s.trig = vec![Ins(n(100) - 4, 50), Ins(n(366), 50)];
            s.present = vec![n(99), n(200), n(365)];
            s.absent = vec![n(100) - 4, n(366)];
        }
        // Three leaf nodes; the second and the last one hold a single key.
        "gaps" => {
            s.init = asc(1, 367);
            s.init.extend((171..339).chain(340..367).map(|i| Rem(n(i))));
            s.trig = vec![Rem(n(170)), Rem(n(339))];
            s.present = vec![n(170), n(339), n(169)];
            s.absent = vec![n(171), n(340)];
        }
        // The root is full: splitting one of two full leaf nodes adds the third level.
        "tall" => {
            s.init = asc(1, 366);
            s.init.extend(below(100, 0, 44));
            s.trig = vec![Ins(n(100) - 45, 50), Ins(n(366), 50)];
            s.present = vec![n(97), n(200), n(365)];
            s.absent = vec![n(100) - 45, n(366)];
        }
        // Three levels, the first (the last) internal node holds a single key.
        "low3" | "high3" => {
            s.init = asc(1, 198);
            s.init.extend(below(100, 0, 50));
            let mut keys: Vec<u32> = s.init.iter().flat_map(op_keys).collect();
            keys.sort_unstable();
            keys.dedup();
            let k = if name == "low3" { 1567 } else { 1568 };
            s.init.extend(keys.iter().filter(|x| if name == "low3" { **x < k } else { **x > k }).rev().map(|x| Rem(*x)));
            s.trig = vec![Rem(k)];
            s.present = vec![k, if name == "low3" { 1568 } else { 1567 }, if name == "low3" { n(197) } else { n(1) }];
            s.absent = vec![if name == "low3" { 1566 } else { 1570 }, n(198)];
        }
        // Three levels, about to collapse.
        "deep3" => {
            s.init = asc(1, 2570);
            s.init.extend((2..2550).map(|i| Rem(n(i))));
            s.trig = vec![Rem(n(1))];
            s.present = vec![n(1), n(2560)];
            s.absent = vec![n(100), n(2570)];
        }
        // A full internal node.
        "huge" => {
            s.init = asc(1, 2563);
            s.trig = vec![Ins(n(2563), 50)];
            s.present = vec![n(2562), n(1300)];
            s.absent = vec![n(1300) + 1, n(2563)];
        }
        x => panic!("{x}"),
    }
}

/// Keys right below a multiple of the stride, in descending order: each fills up a leaf node.
fn below(base: u32, from: u32, to: u32) -> impl Iterator<Item = Op> {
    (from..to).map(move |i| n(base) - 1 - i).filter(|k| k % 16 != 0).map(|k| Ins(k, 300 + k))
}

fn tree_states() -> Vec<State> {
    ["empty", "full", "pair", "sparse", "mid", "last", "holes", "node", "deep", "edge", "second", "second4", "wide", "gaps", "tall", "low3", "high3"].into_iter().map(|n| st(Tree, n)).collect()
}

pub fn all() -> Vec<Spec> {
    let mut b = B { v: vec![], idx: HashMap::new() };
    for kind in [Map, Index, Cache, Tree] {
        linear(&mut b, kind);
        exclusive(&mut b, kind);
        reclaim(&mut b, kind);
        scanning(&mut b, kind);
        bulks(&mut b, kind);
        leaks(&mut b, kind);
        asyncs(&mut b, kind);
        cancels(&mut b, kind);
        progress(&mut b, kind);
        publish(&mut b, kind);
        chains(&mut b, kind);
        resumes(&mut b, kind);
    }
    ranges(&mut b);
    capacities(&mut b);
    b.v
}

/// Large states, in the thorough tier.
fn large(kind: Kind) -> Vec<State> {
    match kind {
        Map | Index => ["over2", "biggrow", "biggrown", "bighalf"].into_iter().map(|n| st(kind, n)).collect(),
        Cache => vec![],
        Tree => ["deep3", "huge"].into_iter().map(|n| st(kind, n)).collect(),
    }
}

/// The states with structural changes.
fn states(kind: Kind) -> Vec<State> {
    if kind == Tree { tree_states() } else { structural(kind) }
}

/// Two entries of different buckets, one of which is shared with others.
fn exclusive(b: &mut B, kind: Kind) {
    if kind == Tree {
        return;
    }
    let p = ["C02"];
    let few = st(kind, "few");
    let (t, u, w) = (few.present[0], few.present[1], few.absent[0]);
    let mut holds = vec![GetYield(t)];
    match kind {
        Map => holds.extend([Upd(t, 7), AndMod(t, 7), EntIns(t, 7), ScanRem(t), RetainNot(u), Walk, Replace(t, 7)]),
        Index => holds.extend([Update(t, 7), EntIns(t, 7), RetainNot(u), Walk]),
        _ => holds.extend([GetMut(t, 7), EntIns(t, 7), ScanRem(t), RetainNot(u), Replace(t, 7)]),
    }
    for h in &holds {
        for o in single(kind, t, 2).into_iter().chain(scans(kind)).chain(bulk(kind, t)).chain([GetYield(t)]) {
            b.add(&p, true, &few, Mode::Sync, vec![vec![h.clone()], vec![o]]);
        }
        for o in [Ins(w, 5), GetYield(u), Rem(u)] {
            b.add(&p, true, &few, Mode::Sync, vec![vec![h.clone()], vec![o]]);
        }
    }
    for o in core(kind, t, 2) {
        for o2 in core(kind, t, 3).into_iter().chain([GetYield(t)]) {
            b.add(&p, false, &few, Mode::Sync, vec![vec![GetYield(t)], vec![o.clone()], vec![o2]]);
        }
    }
    for s in states(kind) {
        for &t in &s.present {
            for tr in &s.trig {
                b.add(&p, true, &s, Mode::Sync, vec![vec![tr.clone()], vec![GetYield(t)]]);
                b.add(&p, false, &s, Mode::Async, vec![vec![tr.clone()], vec![GetYield(t)]]);
                for o in core(kind, t, 3) {
                    b.add(&p, false, &s, Mode::Sync, vec![vec![tr.clone()], vec![GetYield(t)], vec![o]]);
                }
            }
            for o in core(kind, t, 3) {
                b.add(&p, true, &s, Mode::Sync, vec![vec![GetYield(t)], vec![o]]);
            }
        }
    }
}

/// References protected by guards, with every epoch operation visible.
fn reclaim(b: &mut B, kind: Kind) {
    let p = ["C04"];
    if kind == Map || kind == Cache {
        // The tables themselves are reclaimed.
        for s in states(kind) {
            for tr in &s.trig {
                for &t in s.present.iter().take(2) {
                    let x = b.add(&p, true, &s, Mode::Sync, vec![vec![tr.clone()], vec![Read(t), Read(t)]]);
                    x.epoch_points = true;
                    x.max_bound = 3;
                }
            }
        }
        return;
    }
    let mut sts = vec![st(kind, "few")];
    sts.extend(states(kind));
    sts.extend(narrow(kind));
    for s in sts {
        let mut trs = s.trig.clone();
        if let Some(&t) = s.present.first() {
            trs.push(Rem(t));
            if kind == Index {
                trs.push(Update(t, 7));
                trs.push(Clear);
            }
        }
        if kind == Tree {
            trs.push(Clear);
        }
        for tr in trs {
            for &t in s.present.iter().take(2) {
                for rd in [vec![Hold(t)], vec![Scan], vec![Read(t), Hold(t)]] {
                    for more in [vec![], vec![Ins(t, 8)]] {
                        for ep in [true, false] {
                            let mut w = vec![tr.clone()];
                            w.extend(more.clone());
                            let quick = (more.is_empty() || kind == Index) && rd.len() == 1;
                            let mut s2 = s.clone();
                            if ep {
                                s2.name.push_str("+ep");
                            }
                            let x = b.add(&p, quick, &s2, Mode::Sync, vec![w, rd.clone()]);
                            x.epoch_points = ep;
                        }
                    }
                }
                if kind == Index {
                    // The epoch at the start differs.
                    for n in 1..4 {
                        for ep in [true, false] {
                            let mut s2 = s.clone();
                            s2.name.push_str(&format!("+{n}"));
                            if ep {
                                s2.name.push_str("+ep");
                            }
                            for _ in 0..n {
                                s2.init.push(Has(t));
                            }
                            let x = b.add(&p, n == 2, &s2, Mode::Sync, vec![vec![tr.clone(), Ins(t, 8)], vec![Hold(t)]]);
                            x.epoch_points = ep;
                        }
                    }
                }
                let mut s2 = s.clone();
                s2.name.push_str("+ep");
                let x = b.add(&p, false, &s2, Mode::Sync, vec![vec![tr.clone()], vec![Rem(t), Ins(t, 9)], vec![Hold(t)]]);
                x.epoch_points = true;
            }
        }
    }
}

fn scanning(b: &mut B, kind: Kind) {
    let p = [if kind == Tree { "C08" } else { "C19" }];
    let mut sts = vec![st(kind, "few")];
    sts.extend(states(kind));
    if kind == Tree {
        sts.push(st(kind, "deep3"));
    }
    sts.extend(narrow(kind));
    for s in sts {
        let mut sc = scans(kind);
        if kind == Tree {
            let lo = s.present.first().copied().unwrap_or(1);
            let hi = s.present.last().copied().unwrap_or(64);
            sc.push(Range(lo.min(hi), lo.max(hi) + 1));
        }
        let mut ops = s.trig.clone();
        for &t in s.present.iter().chain(&s.absent) {
            ops.extend([Ins(t, 9), Rem(t)]);
        }
        for x in &sc {
            for (i, o) in ops.iter().enumerate() {
                let quick = s.name != "tree-deep3" && (i < s.trig.len() + 2 || kind == Tree);
                b.add(&p, quick, &s, Mode::Sync, vec![vec![o.clone()], vec![x.clone()]]);
                if kind != Tree {
                    b.add(&p, i < s.trig.len(), &s, Mode::Async, vec![vec![o.clone()], vec![x.clone()]]);
                }
            }
            // What a thread has done must show in its own scan, whatever another one is amidst.
            for tr in &s.trig {
                for o in s.present.iter().take(2).map(|&t| Rem(t)).chain(s.absent.iter().take(1).map(|&t| Ins(t, 9))) {
                    let quick = s.name != "tree-deep3" && (kind == Tree || matches!(x, Scan));
                    b.add(&p, quick, &s, Mode::Sync, vec![vec![tr.clone()], vec![o, x.clone()]]);
                }
            }
            // A structural change and another update.
            for o in &ops {
                b.add(&p, false, &s, Mode::Sync, vec![vec![s.trig[0].clone()], vec![o.clone()], vec![x.clone()]]);
                b.add(&p, false, &s, Mode::Sync, vec![vec![s.trig[0].clone(), o.clone()], vec![x.clone()]]);
            }
        }
        if kind == Tree {
            // Bounds next to the key that is inserted or removed.
            let big = s.name == "tree-deep3";
            for &t in s.present.iter().chain(&s.absent) {
                for r in [Range(0, t), Range(t, 0x00e0_0000), Range(0, t + 1), Range(t + 1, 0x00e0_0000)] {
                    for o in [Ins(t, 9), Rem(t)] {
                        b.add(&p, !big, &s, Mode::Sync, vec![vec![o.clone()], vec![r.clone()]]);
                        b.add(&p, false, &s, Mode::Sync, vec![vec![o.clone()], vec![s.trig[0].clone()], vec![r.clone()]]);
                        b.add(&p, false, &s, Mode::Sync, vec![vec![s.trig[0].clone(), o.clone()], vec![r.clone()]]);
                    }
                }
            }
        }
        if kind == Map {
            for &t in s.present.iter().chain(&s.absent).take(2) {
                for o in &s.trig {
                    b.add(&p, true, &s, Mode::Sync, vec![vec![o.clone()], vec![Any(t)]]);
                }
            }
        }
    }
}

fn bulks(b: &mut B, kind: Kind) {
    let p = ["C21"];
    let mut sts = vec![st(kind, "few")];
    sts.extend(states(kind));
    for s in sts {
        let t = *s.present.first().unwrap_or(&s.absent[0]);
        let u = s.absent[0];
        let mut ops = vec![];
        for &t in &[t, u] {
            ops.extend(core(kind, t, 9));
        }
        ops.extend(s.trig.clone());
        for x in bulk(kind, t) {
            for o in &ops {
                let quick = !matches!(x, ScanRem(ALL) | WalkRem(ALL));
                b.add(&p, quick, &s, Mode::Sync, vec![vec![x.clone()], vec![o.clone()]]);
                if kind != Tree {
                    b.add(&p, false, &s, Mode::Async, vec![vec![x.clone()], vec![o.clone()]]);
                }
            }
            for y in bulk(kind, t) {
                b.add(&p, s.name.ends_with("few"), &s, Mode::Sync, vec![vec![x.clone()], vec![y]]);
            }
            for o in &ops {
                b.add(&p, false, &s, Mode::Sync, vec![vec![x.clone()], vec![o.clone(), Read(t)]]);
            }
        }
    }
}

fn leaks(b: &mut B, kind: Kind) {
    let p = ["C14"];
    let mut sts = vec![st(kind, "few")];
    sts.extend(states(kind));
    for s in sts {
        let t = *s.present.first().unwrap_or(&s.absent[0]);
        let mut ops = vec![Ins(t, 9), Rem(t), Clear];
        ops.extend(match kind {
            Map => vec![Ups(t, 9), Replace(t, 9), EntIns(t, 9), GetRem(t)],
            Index => vec![Update(t, 9), EntIns(t, 9), GetRem(t)],
            Cache => vec![EntIns(t, 9), Replace(t, 9), GetRem(t)],
            Tree => vec![RemRange(0, t + 1)],
        });
        for tr in &s.trig {
            for (i, o) in ops.iter().enumerate() {
                for o2 in &ops[i..] {
                    b.add(&p, false, &s, Mode::Sync, vec![vec![o.clone()], vec![o2.clone()]]);
                    b.add(&p, false, &s, Mode::Sync, vec![vec![tr.clone()], vec![o.clone(), o2.clone()]]);
                }
                b.add(&p, true, &s, Mode::Sync, vec![vec![tr.clone()], vec![o.clone()]]);
                let mut s2 = s.clone();
                s2.name.push_str("+ep");
                let x = b.add(&p, false, &s2, Mode::Sync, vec![vec![tr.clone()], vec![o.clone()]]);
                x.epoch_points = true;
                x.cadence = 2;
            }
        }
    }
}

/// Asynchronous operations, mixed with synchronous ones.
fn asyncs(b: &mut B, kind: Kind) {
    let p = ["C16"];
    let mut sts = vec![st(kind, "few")];
    sts.extend(states(kind));
    for s in sts {
        let few = s.name.ends_with("few");
        for &t in s.present.iter().chain(&s.absent) {
            for tr in &s.trig {
                for o in if few { single(kind, t, 2) } else { core(kind, t, 2) } {
                    for m in [Mode::Async, Mode::Mixed, Mode::Mixed2] {
                        b.add(&p, few || m == Mode::Async, &s, m, vec![vec![tr.clone()], vec![o.clone()]]);
                    }
                }
                for o in core(kind, t, 2) {
                    for o2 in core(kind, t, 3) {
                        b.add(&p, false, &s, Mode::Async, vec![vec![tr.clone()], vec![o.clone()], vec![o2.clone()]]);
                        b.add(&p, false, &s, Mode::Async, vec![vec![tr.clone()], vec![Both(Box::new(o.clone()), Box::new(o2))]]);
                    }
                }
            }
        }
        let t = *s.present.first().unwrap_or(&s.absent[0]);
        if kind != Tree {
            // A waiter behind a lock holder.
            for o in single(kind, t, 2) {
                b.add(&p, true, &s, Mode::Async, vec![vec![GetYield(t)], vec![o.clone()]]);
                b.add(&p, false, &s, Mode::Async, vec![vec![GetYield(t)], vec![Both(Box::new(o), Box::new(Upd2(kind, t)))]]);
            }
            for o in scans(kind).into_iter().chain(bulk(kind, t)) {
                b.add(&p, few, &s, Mode::Async, vec![vec![GetYield(t)], vec![o.clone()]]);
            }
        }
        if few {
            for o in core(kind, t, 2) {
                for o2 in core(kind, t, 3) {
                    let x = Both(Box::new(o.clone()), Box::new(o2.clone()));
                    b.add(&p, true, &s, Mode::Async, vec![vec![x.clone()], vec![Rem(t)]]);
                    b.add(&p, true, &s, Mode::Async, vec![vec![x], vec![Ins(t, 8)]]);
                }
            }
        }
    }
}

#[allow(non_snake_case)]
fn Upd2(kind: Kind, t: u32) -> Op {
    match kind {
        Map => Upd(t, 5),
        Index => Update(t, 5),
        Cache => GetMut(t, 5),
        Tree => Ins(t, 5),
    }
}

fn cancels(b: &mut B, kind: Kind) {
    let p = ["C15"];
    let mut sts = vec![st(kind, "few")];
    sts.extend(states(kind));
    for s in sts {
        let few = s.name.ends_with("few");
        let t0 = *s.present.first().unwrap_or(&s.absent[0]);
        let mut others = vec![];
        if kind != Tree {
            others.push(GetYield(t0));
        }
        others.extend(s.trig.clone());
        for &t in s.present.iter().chain(&s.absent) {
            let mut ops = if few { single(kind, t, 2) } else { core(kind, t, 2) };
            if t == t0 && few {
                if kind != Tree {
                    ops.extend(scans(kind));
                }
                ops.extend(bulk(kind, t).into_iter().filter(|_| kind != Tree));
            }
            ops.retain(|o| !matches!(o, TryEnt(..) | Hold(_)));
            if matches!(kind, Index | Tree) {
                ops.retain(|o| !matches!(o, Read(_) | Has(_)) && !(matches!(o, Scan) && kind == Index));
            }
            for o in ops {
                for h in &others {
                    let c = Cancel(Box::new(o.clone()));
                    b.add(&p, true, &s, Mode::Sync, vec![vec![h.clone()], vec![c.clone()]]);
                    b.add(&p, false, &s, Mode::Async, vec![vec![h.clone()], vec![c.clone()]]);
                    b.add(&p, false, &s, Mode::Async, vec![vec![h.clone()], vec![c.clone()], vec![Ins(t, 8)]]);
                    b.add(&p, false, &s, Mode::Async, vec![vec![h.clone()], vec![c, Ins(t, 8)]]);
                }
            }
        }
    }
}

/// No deadlock, no livelock; `try_` operations and lock-free reads do not wait.
fn progress(b: &mut B, kind: Kind) {
    let p = ["C20"];
    for s in states(kind).into_iter().chain([st(kind, "few")]) {
        let t = *s.present.first().unwrap_or(&s.absent[0]);
        if kind != Tree && !s.present.is_empty() {
            for &u in s.present.iter().chain(&s.absent) {
                let mut fs = vec![TryEnt(u, 5)];
                if kind == Index {
                    fs.extend([Read(u), Has(u), Scan, Hold(u)]);
                }
                if let Some(Ins(k, _)) = s.trig.first() {
                    // The non-blocking operation that makes the table grow, and one behind it that
                    // meets the held bucket in the array that was replaced.
                    b.add(&p, true, &s, Mode::Sync, vec![vec![HoldUntil(t)], vec![TryEnt(*k, 5), TryEnt(u, 6), TryEnt(t, 7), Signal]]);
                }
                for f in fs {
                    b.add(&p, true, &s, Mode::Sync, vec![vec![HoldUntil(t)], vec![f.clone(), Signal]]);
                    b.add(&p, false, &s, Mode::Sync, vec![vec![HoldUntil(t)], vec![f, Signal], vec![s.trig[0].clone()]]);
                }
            }
        }
        // Several threads that change the structure.
        let mut ops = s.trig.clone();
        ops.extend(core(kind, s.absent[0], 5));
        ops.extend(bulk(kind, t));
        for (i, x) in ops.iter().enumerate() {
            for y in &ops[i..] {
                b.add(&p, i < s.trig.len(), &s, Mode::Sync, vec![vec![x.clone()], vec![y.clone()]]);
                b.add(&p, false, &s, Mode::Mixed, vec![vec![x.clone()], vec![y.clone()]]);
            }
        }
        for x in &s.trig {
            for y in &ops {
                b.add(&p, false, &s, Mode::Sync, vec![vec![s.trig[0].clone()], vec![x.clone()], vec![y.clone()]]);
                b.add(&p, false, &s, Mode::Async, vec![vec![s.trig[0].clone()], vec![x.clone()], vec![y.clone()]]);
            }
        }
    }
}

/// A writer publishes to readers through every path.
fn publish(b: &mut B, kind: Kind) {
    let p = ["C23"];
    for s in states(kind).into_iter().chain([st(kind, "few")]).chain(narrow(kind)) {
        let u = s.absent[0];
        let mut rd = vec![Read(u), Scan];
        if matches!(kind, Index | Tree) {
            rd.push(Hold(u));
        }
        if kind == Map {
            rd.push(Get(u));
        }
        for r in rd {
            b.add(&p, true, &s, Mode::Sync, vec![vec![Ins(u, 5)], vec![r.clone()]]);
            b.add(&p, true, &s, Mode::Sync, vec![vec![s.trig[0].clone()], vec![r.clone()]]);
            b.add(&p, false, &s, Mode::Sync, vec![vec![s.trig[0].clone()], vec![Ins(u, 5)], vec![r.clone()]]);
            if let Some(&t) = s.present.first() {
                let rd2 = match &r {
                    Read(_) => Read(t),
                    Hold(_) => Hold(t),
                    Get(_) => Get(t),
                    x => x.clone(),
                };
                b.add(&p, true, &s, Mode::Sync, vec![vec![Upd2(kind, t)], vec![rd2.clone()]]);
                b.add(&p, true, &s, Mode::Sync, vec![vec![Rem(t), Ins(t, 6)], vec![rd2.clone()]]);
                b.add(&p, false, &s, Mode::Sync, vec![vec![Upd2(kind, t)], vec![s.trig[0].clone()], vec![rd2]]);
            }
        }
    }
}

fn ranges(b: &mut B) {
    let p = ["C09"];
    for s in tree_states().into_iter().chain([st(Tree, "few"), st(Tree, "deep3")]) {
        let big = s.name == "tree-deep3";
        let lo = s.present.first().copied().unwrap_or(1);
        let hi = s.present.last().copied().unwrap_or(64);
        let (lo, hi) = (lo.min(hi), lo.max(hi));
        let mid = (lo + hi) / 2;
        let rs = [(0, ALL), (lo, hi), (0, lo + 1), (mid, hi + 1), (lo + 1, hi), (n(15), n(29)), (0, mid)];
        let mut ops = s.trig.clone();
        for &t in s.present.iter().chain(&s.absent) {
            ops.extend([Ins(t, 9), Rem(t), Read(t)]);
        }
        ops.push(Scan);
        for (i, r) in rs.iter().enumerate() {
            if r.0 >= r.1 {
                continue;
            }
            for o in &ops {
                let x = RemRange(r.0, r.1);
                b.add(&p, i < 5 && !big, &s, Mode::Sync, vec![vec![x.clone()], vec![o.clone()]]);
                b.add(&p, false, &s, Mode::Async, vec![vec![x.clone()], vec![o.clone()]]);
                b.add(&p, false, &s, Mode::Sync, vec![vec![x], vec![o.clone()], vec![s.trig[0].clone()]]);
            }
            for r2 in &rs[i..] {
                if r2.0 < r2.1 {
                    b.add(&p, false, &s, Mode::Sync, vec![vec![RemRange(r.0, r.1)], vec![RemRange(r2.0, r2.1)]]);
                }
            }
        }
    }
}

fn capacities(b: &mut B) {
    let p = ["C18"];
    for kind in [Map, Index] {
        for s in states(kind) {
            for tr in s.trig.iter().chain([&Clear, &Reserve(200)]) {
                for o in [Reserve(65), Reserve(300), CapRange, Len] {
                    b.add(&p, true, &s, Mode::Sync, vec![vec![tr.clone()], vec![o]]);
                }
                b.add(&p, false, &s, Mode::Sync, vec![vec![tr.clone()], vec![Reserve(65)], vec![Reserve(129)]]);
                b.add(&p, false, &s, Mode::Sync, vec![vec![tr.clone()], vec![Reserve(300), CapRange], vec![CapRange]]);
            }
        }
    }
}

fn lin(kind: Kind) -> &'static str {
    match kind {
        Map => "C01",
        Index => "C03",
        Cache => "C05",
        Tree => "C07",
    }
}

/// The slots of removed entries are reused while they are looked at.
fn reuse(b: &mut B) {
    let mut sts = vec![st(Index, "few")];
    sts.extend(states(Index));
    sts.extend(narrow(Index));
    for s in sts {
        let Some(&t) = s.present.first() else { continue };
        let u = s.absent[0];
        for w in [vec![s.trig[0].clone(), Ins(u, 8)], vec![Clear, Ins(u, 8)], vec![Clear, Ins(t, 8)]] {
            for rd in [Scan, Read(t)] {
                for ep in [true, false] {
                    let mut s2 = s.clone();
                    if ep {
                        s2.name.push_str("+ep");
                    }
                    b.add(&["C03"], true, &s2, Mode::Sync, vec![w.clone(), vec![rd.clone()]]).epoch_points = ep;
                }
            }
        }
    }
    // The partial hash of a removed entry is overwritten with the epoch, which another key or the same may match.
    for r in 0..8 {
        for ep in [true, false] {
            let mut s = st(Index, "full");
            s.name = format!("index-match{r}{}", if ep { "+ep" } else { "" });
            s.cap = 64;
            s.init = fill((0..32).map(|i| k(0, i)));
            s.init.push(Rem(k(0, r)));
            for _ in 0..6 {
                s.init.push(Has(k(0, r)));
            }
            for rd in [Read(k(0, r)), Scan] {
                for w in [vec![Ins(k(0, 0x81), 8)], vec![Ins(k(0, r), 8)], vec![Ins(k(0, 0x81), 8), Ins(k(0, r), 9)]] {
                    b.add(&["C03"], true, &s, Mode::Sync, vec![w, vec![rd.clone()]]).epoch_points = ep;
                }
            }
        }
    }
}

fn linear(b: &mut B, kind: Kind) {
    if kind == Index {
        reuse(b);
    }
    let p = [lin(kind)];
    let few = st(kind, "few");
    // Same key, both present and absent.
    for t in [few.present[0], few.absent[0]] {
        let a1 = single(kind, t, 1);
        let a2 = single(kind, t, 2);
        for i in 0..a1.len() {
            for j in i..a2.len() {
                b.add(&p, true, &few, Mode::Sync, vec![vec![a1[i].clone()], vec![a2[j].clone()]]);
            }
        }
        for x in core(kind, t, 1) {
            for y in core(kind, t, 2) {
                for z in core(kind, t, 3) {
                    b.add(&p, false, &few, Mode::Sync, vec![vec![x.clone()], vec![y.clone()], vec![z.clone()]]);
                    b.add(&p, false, &few, Mode::Sync, vec![vec![x.clone(), y.clone()], vec![z.clone()]]);
                }
            }
        }
    }
    for s in large(kind) {
        for t in &s.trig {
            for &key in s.present.iter().chain(&s.absent) {
                for o in core(kind, key, 2) {
                    b.add(&p, false, &s, Mode::Sync, vec![vec![t.clone()], vec![o]]);
                }
            }
            for o in scans(kind) {
                b.add(&[if kind == Tree { "C08" } else { "C19" }], false, &s, Mode::Sync, vec![vec![t.clone()], vec![o]]);
            }
        }
    }
    for s in states(kind).into_iter().chain(narrow(kind)) {
        if kind == Tree && s.present.is_empty() && s.name != "tree-empty" {
            continue;
        }
        for t in &s.trig {
            for &key in s.present.iter().chain(&s.absent) {
                for o in single(kind, key, 2) {
                    b.add(&p, true, &s, Mode::Sync, vec![vec![t.clone()], vec![o]]);
                }
                for o in core(kind, key, 2) {
                    for o2 in core(kind, key, 3) {
                        b.add(&p, false, &s, Mode::Sync, vec![vec![t.clone()], vec![o.clone(), o2.clone()]]);
                        b.add(&p, false, &s, Mode::Sync, vec![vec![t.clone()], vec![o.clone()], vec![o2]]);
                    }
                }
            }
        }
    }
}
