//! Operation sequences on the hash containers.

use std::marker::PhantomData;
use std::rc::Rc;

use crate::base::*;
use crate::fam::*;
use crate::model::Op::*;
use crate::model::*;

#[derive(Clone, Debug)]
pub struct State {
    pub name: String,
    pub kind: Kind,
    pub cap: usize,
    pub max: usize,
    pub init: Vec<Op>,
    pub present: Vec<u32>,
    pub absent: Vec<u32>,
}

fn fill(v: impl IntoIterator<Item = u32>) -> Vec<Op> {
    v.into_iter().map(Ins).collect()
}

pub fn state(kind: Kind, name: &str) -> State {
    let pre = match kind {
        Kind::Map => "map",
        Kind::Set => "set",
        Kind::Index => "index",
        Kind::Cache => "cache",
    };
    let mut s = State {
        name: format!("{pre}-{name}"),
        kind,
        cap: 0,
        max: if kind == Kind::Cache { 1024 } else { 0 },
        init: vec![],
        present: vec![],
        absent: vec![],
    };
    match name {
        "empty" => s.absent = vec![k(0, 1), k(0x90, 9), k(0, 1) | 0x10000],
        // The default cache: 256 slots at most.
        "dflt" => {
            s.max = 256;
            s.absent = vec![k(0, 1), k(0x90, 9)];
        }
        "cap" => {
            s.cap = 130;
            s.init = fill([k(0, 1), k(0x90, 3)]);
            s.present = vec![k(0, 1), k(0x90, 3)];
            s.absent = vec![k(0, 9)];
        }
        // Same bucket, same partial hash, same hash.
        "few" => {
            s.init = fill([k(0, 1), k(1, 1), k(0, 1) | 0x10000, k(0x90, 3)]);
            s.present = vec![k(0, 1), k(0, 1) | 0x10000, k(0x90, 3)];
            s.absent = vec![k(0, 1) | 0x20000, k(0x90, 1)];
        }
        "last" => {
            s.init = fill([k(0, 1)]);
            s.present = vec![k(0, 1)];
            s.absent = vec![k(0, 9), k(0x90, 9)];
        }
        // One insertion into the lower bucket doubles the array.
        "grow" | "grown" => {
            let mut v: Vec<u32> = (0..22).map(|i| k(0x90, 1 + i)).collect();
            v.extend((0..31).map(|i| k([0x00, 0x40, 0x20, 0x60][i as usize % 4], 1 + i)));
            s.init = fill(v);
            s.present = vec![k(0, 1), k(0x40, 2), k(0x90, 1)];
            s.absent = vec![k(0x20, 0x80), k(0x60, 0x82)];
            if name == "grown" {
                s.init.push(Ins(k(0x20, 0x80)));
                s.present = vec![k(0, 1), k(0x40, 2), k(0x90, 1)];
                s.absent = vec![k(0x60, 0x81), k(0x90, 0x82)];
            }
        }
        // A bucket with one or two linked buckets behind it.
        "over" => {
            s.cap = 128;
            s.init = fill((0..34).map(|i| k(0, 1 + 2 * i)));
            s.present = vec![k(0, 1), k(0, 0x43), k(0, 0x41)];
            s.absent = vec![k(0, 0x81), k(0, 0x83)];
        }
        "over2" => {
            s.cap = 128;
            s.init = fill((0..41).map(|i| k(0, 1 + 2 * i)));
            s.present = vec![k(0, 1 + 2 * 40), k(0, 1 + 2 * 33), k(0, 1)];
            s.absent = vec![k(0, 0x81), k(0, 0x83)];
        }
        // A hole in the main part of a bucket with a linked bucket.
        "hole" => {
            s.cap = 128;
            s.init = fill((0..41).map(|i| k(0, 1 + 2 * i)));
            s.init.extend([Rem(k(0, 9)), Rem(k(0, 1 + 2 * 33))]);
            s.present = vec![k(0, 1 + 2 * 40), k(0, 1 + 2 * 34), k(0, 1)];
            s.absent = vec![k(0, 9), k(0, 0x83)];
        }
        // Two or three linked buckets with a single entry each.
        "chain" | "chain3" => {
            s.cap = 128;
            let n = if name == "chain" { 41 } else { 49 };
            let key = |i: u32| k(0, 1 + 2 * i);
            s.init = fill((0..n).map(key));
            s.init.extend((33..40).chain(41..48).filter(|i| *i < n).map(|i| Rem(key(i))));
            s.present = vec![key(40), key(n - 1), key(0)];
            s.absent = vec![key(32), k(0, 0x83)];
            s.present.dedup();
        }
        // A large array with an entry far away from the bucket that becomes empty.
        "sole" => {
            s.init = vec![Ins(k(0xf0, 4)), Resv(2000)];
            s.init.extend(fill([k(0, 1), k(0x81, 3)]));
            s.init.push(Rem(k(0xf0, 4)));
            s.present = vec![k(0, 1), k(0x81, 3)];
            s.absent = vec![k(0x0d, 9)];
        }
        // Buckets that do not fit into one when a large array shrinks.
        "skew" | "skewed" => {
            s.init = vec![Ins(k(0xf0, 4)), Resv(2000), Ins(k(0, 1))];
            s.init.extend(fill((0..20).flat_map(|i| [k(0x81, 1 + i), k(0x85, 1 + i)])));
            s.present = vec![k(0, 1), k(0x81, 1)];
            s.absent = vec![k(0x85, 9), k(0x81, 0x81)];
            if name == "skewed" {
                s.init.push(Rem(k(0, 1)));
                s.present = vec![k(0x81, 1), k(0x81, 20)];
            }
        }
        // A bucket with a linked bucket, all entries of which go to the same bucket of a much larger array.
        "jumped" => {
            s.init = fill((0..34).map(|i| k(0x78, 1 + 2 * i)));
            s.init.push(Resv(2000));
            s.present = vec![k(0x78, 1), k(0x78, 0x43)];
            s.absent = vec![k(0x78, 0x81), k(0x90, 1)];
        }
        "overgrow" | "overgrown" | "overgrow2" | "overgrown2" => {
            s.cap = 128;
            let to = if name.ends_with('2') { 0 } else { 0x20 };
            let mut v: Vec<u32> = (0..34).map(|i| k(if i % 2 == 0 { 0 } else { to }, 1 + 2 * i)).collect();
            v.extend((0..26).map(|i| k(0x40, 1 + 2 * i)));
            v.extend((0..26).map(|i| k(0x80, 1 + 2 * i)));
            v.extend((0..26).map(|i| k(0xc0, 1 + 2 * i)));
            s.init = fill(v);
            s.present = vec![k(0, 1), k(to, 0x43), k(0x80, 1)];
            s.absent = vec![k(0, 0x80), k(0x20, 0x85)];
            if name.starts_with("overgrown") {
                s.init.push(Ins(k(0, 0x80)));
                s.absent = vec![k(0x20, 0x85), k(0x80, 0x81)];
            }
        }
        // A large sparse array (64 buckets) that shrinks when a bucket is emptied.
        "shrink" | "shrunk" | "half" => {
            s.init = vec![Ins(k(0xf0, 4)), Resv(2000)];
            s.init.extend(fill([k(0, 1), k(0x0c, 2), k(0x81, 3), k(0x82, 5)]));
            s.present = vec![k(0x0c, 2), k(0x81, 3), k(0, 1)];
            s.absent = vec![k(0x0c, 9), k(0x05, 9)];
            if name != "shrink" {
                s.init.push(Rem(k(0, 1)));
                s.present = vec![k(0x0c, 2), k(0x81, 3)];
            }
            if name == "half" {
                s.init.push(Ins(k(0x06, 8)));
            }
        }
        "sshrink" | "sshrunk" => {
            let mut v: Vec<u32> = (0..22).map(|i| k(0x90, 1 + i)).collect();
            v.extend((0..31).map(|i| k([0x00, 0x40, 0x20, 0x60][i as usize % 4], 1 + i)));
            s.init = fill(v);
            s.init.push(Ins(k(0x20, 0x80)));
            s.init.push(Ins(k(0x60, 0x81)));
            s.init.extend((1..22).map(|i| Rem(k(0x90, 1 + i))));
            s.init.push(Rem(k(0x60, 0x81)));
            s.init.push(Ins(k(0x40, 0x90)));
            s.init.extend((1..31).map(|i| Rem(k([0x00, 0x40, 0x20, 0x60][i as usize % 4], 1 + i))));
            s.init.push(Rem(k(0x20, 0x80)));
            s.present = vec![k(0, 1), k(0x40, 0x90), k(0x90, 1)];
            s.absent = vec![k(0x40, 0x92), k(0, 9)];
            if name == "sshrunk" {
                s.init.push(Rem(k(0, 1)));
                s.present = vec![k(0x40, 0x90), k(0x90, 1)];
            }
        }
        // 64 buckets growing to 128.
        "biggrow" | "biggrown" | "bighalf" => {
            s.cap = 2048;
            if kind == Kind::Cache {
                s.max = 8192;
            }
            let b = |i: u32| k([0, 4, 8, 12, 16, 20, 24, 28, 0xe0, 0xe4, 0xe8, 0xec, 0xf0, 0xf4][(i / 31) as usize] + 2 * (i % 2), 1 + i % 31);
            s.init = fill((0..31 * 14).map(b));
            s.present = vec![k(0, 1), k(0xe0, 1)];
            s.absent = vec![k(2, 0x80), k(0, 0x80)];
            if name != "biggrow" {
                s.init.push(Ins(k(0, 0x80)));
                s.absent = vec![k(2, 0x82), k(0xe2, 0x82)];
            }
            if name == "bighalf" {
                s.init.push(Ins(k(0, 0x84)));
            }
        }
        // As above, with a full bucket in the part that is relocated first.
        "fullhalf" => {
            s.cap = 2048;
            s.max = 8192;
            let b = |i: u32| k([4, 8, 12, 16, 20, 24, 28, 0xe0, 0xe4, 0xe8, 0xec, 0xf0, 0xf4][(i / 31) as usize] + 2 * (i % 2), 1 + i % 31);
            s.init = fill((0..31 * 13).map(b));
            s.init.extend(fill((0..32).map(|i| k(0, 1 + 2 * i))));
            s.init.push(Ins(k(4, 0x80)));
            s.present = vec![k(0, 1), k(0xe0, 1)];
            s.absent = vec![k(0, 0x81), k(0xe2, 0x82)];
        }
        // A bucket of a cache that cannot grow, filled to 30, 31 or 32.
        "fill30" | "fill31" | "full" => {
            s.cap = 64;
            s.max = 64;
            let n = match name {
                "fill30" => 30,
                "fill31" => 31,
                _ => 32,
            };
            s.init = fill((0..n).map(|i| k([0x00, 0x40, 0x20, 0x60][i as usize % 4], 1 + i)));
            s.present = vec![k(0, 1), k(0x40, 2), k(0x60, 16)];
            s.absent = vec![k(0x20, 0x81), k(0x60, 0x83), k(0x90, 1)];
        }
        // An empty, an almost full and a full bucket with keys in the first, second and last slot.
        "order0" | "order30" | "order32" => {
            s.cap = 64;
            s.max = 64;
            let n = if name == "order0" { 0 } else if name == "order30" { 30 } else { 32 };
            s.init = fill((0..n).map(|i| k(0, 1 + i)));
            let ks = if n == 0 { [k(0, 1), k(0, 2), k(0, 3)] } else { [k(0, 1), k(0, 2), k(0, n)] };
            s.absent = ks.to_vec();
        }
        // Full, with the uses in another order than the slots.
        "shuffled" => {
            s.cap = 64;
            s.max = 64;
            let key = |i: u32| k([0x00, 0x40, 0x20, 0x60][i as usize % 4], 1 + i);
            s.init = fill((0..32).map(key));
            s.init.extend([5, 0, 31, 17, 0, 8].map(|i| GetNext(key(i))));
            s.init.extend([Rem(key(1)), Rem(key(31)), Ins(key(31)), Ins(key(1))]);
            s.present = vec![key(0), key(1), key(2), key(31)];
            s.absent = vec![k(0x20, 0x81), k(0x60, 0x83)];
        }
        // The entries were relocated by growth; a bucket is full again.
        "regrown" => {
            s.cap = 64;
            s.max = 128;
            let mut v: Vec<u32> = (0..22).map(|i| k(0x90, 1 + i)).collect();
            v.extend((0..31).map(|i| k([0x00, 0x10, 0x20, 0x30][i as usize % 4], 1 + i)));
            s.init = fill(v);
            s.init.push(Ins(k(0x20, 0x80)));
            s.present = vec![k(0, 1), k(0x10, 2), k(0x20, 0x80)];
            s.absent = vec![k(0x20, 0x81), k(0x30, 0x83)];
        }
        // Two full buckets.
        "both" => {
            s.cap = 64;
            s.max = 64;
            s.init = fill((0..64).map(|i| k(if i % 2 == 0 { 0 } else { 0x90 }, 1 + i)));
            s.present = vec![k(0, 1), k(0x90, 2)];
            s.absent = vec![k(0, 0x81), k(0x90, 0x82)];
        }
        x => panic!("{x}"),
    }
    if kind == Kind::Cache {
        s.init.retain(|o| !matches!(o, Resv(_)));
        if matches!(name, "shrink" | "shrunk" | "half") {
            panic!("no reservation in a cache");
        }
    }
    s
}

pub fn state_names(kind: Kind) -> Vec<&'static str> {
    match kind {
        Kind::Cache => vec![
            "empty", "dflt", "few", "last", "cap", "grow", "grown", "sshrink", "sshrunk", "fill30", "fill31", "full", "shuffled", "regrown", "both", "biggrow",
            "biggrown", "bighalf", "fullhalf",
        ],
        _ => vec![
            "empty", "few", "last", "cap", "grow", "grown", "sshrink", "sshrunk", "over", "over2", "hole", "chain", "chain3", "overgrow", "overgrown", "overgrow2", "overgrown2",
            "shrink", "shrunk", "half", "sole", "skew", "skewed", "jumped", "biggrow", "biggrown", "bighalf",
        ],
    }
}

pub fn supports(kind: Kind, op: Op) -> bool {
    use Kind::*;
    match op {
        Ups(_) | Upd(_) => kind == Map,
        Ins(_) | Rem(_) | RemIf(..) | Has(_) | Iter | IterStop(_) | RetNot(_) | RetNone | RetOdd | Clear | Len => true,
        Read(_) => kind != Index,
        RemIfMut(_) | GetRemV(_) | RetMut | ReplDrop(_) => matches!(kind, Map | Cache),
        Repl(_) => kind != Index,
        MutAll | MutRem(_) | MutRemAll | MutStop(_) => kind != Index,
        GetSet(_) | GetMut(_) | GetRem(_) | EntOr(_) | EntOrWith(_) | EntOrKey(_) | EntDef(_) | EntMod(_) | EntKey(_) | EntRem(_) | TryEnt(_) => kind != Set,
        GetNext(_) => kind != Set,
        EntIns(_) => matches!(kind, Map | Cache),
        GetRemAnd(_) | Walk | WalkRem(_) | WalkRemAll | Any(_) | AnyRem(_) => matches!(kind, Map | Index),
        WalkSet => kind == Map,
        Resv(_) => kind != Cache,
        PeekG(_) | PeekWith(_) | IterG => kind == Index,
        Blk(..) | BlkRem(..) => true,
    }
}

fn has_async(kind: Kind, op: Op) -> bool {
    !matches!(op, Len | Resv(_) | PeekG(_) | PeekWith(_) | IterG | TryEnt(_)) && !(kind == Kind::Index && matches!(op, Has(_) | Read(_)))
}

/// No effect on the contents.
pub fn pure(op: Op) -> bool {
    matches!(op, Read(_) | Has(_) | Walk | Any(_) | Iter | IterStop(_) | MutStop(_) | Len | PeekG(_) | PeekWith(_) | IterG | EntKey(_) | GetNext(_) | RemIf(_, false))
}

pub type Alpha = Rc<Vec<(Op, bool)>>;

/// Every operation on the given keys, synchronous and asynchronous.
pub fn full(kind: Kind, keys: &[u32]) -> Vec<(Op, bool)> {
    let mut v = Vec::new();
    for &x in keys {
        v.extend([
            Ins(x),
            Ups(x),
            Rem(x),
            RemIf(x, true),
            RemIf(x, false),
            RemIfMut(x),
            Read(x),
            Has(x),
            Upd(x),
            GetSet(x),
            GetMut(x),
            GetRem(x),
            GetRemV(x),
            GetRemAnd(x),
            GetNext(x),
            EntOr(x),
            EntOrWith(x),
            EntOrKey(x),
            EntDef(x),
            EntMod(x),
            EntIns(x),
            EntKey(x),
            EntRem(x),
            TryEnt(x),
            Repl(x),
            ReplDrop(x),
            WalkRem(x),
            Any(x),
            AnyRem(x),
            MutRem(x),
            RetNot(x),
            PeekG(x),
            PeekWith(x),
        ]);
    }
    v.extend([Walk, WalkRemAll, WalkSet, Iter, IterStop(1), IterStop(3), MutAll, MutRemAll, MutStop(2), RetMut, RetNone, RetOdd, Clear, Len, Resv(100), Resv(3000), IterG]);
    let mut o = Vec::new();
    for op in v {
        if supports(kind, op) {
            o.push((op, false));
            if has_async(kind, op) {
                o.push((op, true));
            }
        }
    }
    o
}

/// The operations of `full` that change something, or relocate entries.
pub fn changing(kind: Kind, keys: &[u32], asy: bool) -> Vec<(Op, bool)> {
    full(kind, keys)
        .into_iter()
        .filter(|(o, a)| (!*a || asy) && (!pure(*o) || matches!(o, Iter | GetNext(_) | Walk) || (matches!(o, Read(x) | PeekWith(x) if *x == keys[0]))))
        .collect()
}

/// One operation per effect.
pub fn core(kind: Kind, keys: &[u32]) -> Vec<(Op, bool)> {
    let mut v = Vec::new();
    for (i, &x) in keys.iter().enumerate() {
        v.extend([(Ins(x), i == 1), (Rem(x), i == 0)]);
        if kind != Kind::Set {
            v.push((GetSet(x), false));
        }
    }
    v.extend([(RetNone, false), (if kind == Kind::Index { Iter } else { MutRem(keys[0]) }, true)]);
    if kind != Kind::Cache {
        v.push((Resv(300), false));
    }
    v
}

/// All the sequences with the i-th operation out of the i-th alphabet.
pub struct Seq<S: Sut> {
    pub name: String,
    pub st: State,
    pub alpha: Vec<Alpha>,
    pub pre: Vec<(Op, u32)>,
    pub model: Model,
    pub drain: bool,
    pub _p: PhantomData<S>,
}

pub fn prepare<S: Sut>(st: &State) -> (Vec<(Op, u32)>, Model) {
    begin_case();
    let c = S::make(st.cap, st.max);
    let mut m = Model::new(S::KIND);
    m.cap = c.cap();
    if S::KIND == Kind::Cache {
        m.max = st.max.max(m.cap).max(64).next_power_of_two();
    }
    let mut pre = Vec::new();
    let mut init = Vec::new();
    for op in &st.init {
        match *op {
            Blk(s, n) => init.extend((0..n).map(|i| Ins(series(s, i)))),
            BlkRem(s, n) => init.extend((0..n).map(|i| Rem(series(s, i)))),
            o => init.push(o),
        }
    }
    for op in &init {
        pre.push((*op, m.val()));
        step(&c, &mut m, *op, false);
    }
    g().known.clear();
    drop(c);
    drain();
    (pre, m)
}

impl<S: Sut> Seq<S> {
    pub fn new(name: String, st: &State, alpha: Vec<Alpha>) -> Self {
        let (pre, model) = prepare::<S>(st);
        Seq { name, st: st.clone(), alpha, pre, model, drain: false, _p: PhantomData }
    }
    fn ops(&self, mut i: u64) -> Vec<(Op, bool)> {
        let mut v = Vec::with_capacity(8);
        for a in self.alpha.iter().rev() {
            v.push(a[(i % a.len() as u64) as usize]);
            i /= a.len() as u64;
        }
        v.reverse();
        v
    }
}

pub fn build<S: Sut>(st: &State, pre: &[(Op, u32)]) -> S {
    let c = S::make(st.cap, st.max);
    for (op, val) in pre {
        let _ = c.exec(*op, false, *val);
    }
    g().evicted = None;
    c
}

pub fn model_hash(m: &Model, name: &str) -> u64 {
    let mut h = mix(m.cap as u64, name.len() as u64);
    h = mix(h, m.kind as u64);
    for (k, e) in &m.m {
        h = mix(h, u64::from(*k));
        h = mix(h, u64::from(e.v));
    }
    h
}

thread_local! {
    pub static BUF: std::cell::RefCell<Vec<(u32, u32, u32)>> = std::cell::RefCell::new(Vec::with_capacity(4096));
}

impl<S: Sut> Family for Seq<S> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        self.alpha.iter().map(|a| a.len() as u64).product()
    }
    fn describe(&self, i: u64) -> String {
        format!("state {}, then {:x?}", self.st.name, self.ops(i))
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let ops = self.ops(i);
        let mut h = 0;
        st.runs += 1;
        st.ops += ops.len() as u64;
        accounted(|| {
            let mut m = self.model.clone();
            let c: S = build(&self.st, &self.pre);
            for (op, a) in &ops {
                step(&c, &mut m, *op, *a);
            }
            BUF.with_borrow_mut(|b| {
                let mut keys = [0u32; 12];
                let mut n = 0;
                for k in self.st.present.iter().chain(&self.st.absent) {
                    keys[n] = *k;
                    n += 1;
                }
                full_check(&c, &m, &keys[..n], b);
                if self.drain {
                    // The whole order of use shows by filling up the bucket.
                    for j in 0..72 {
                        step(&c, &mut m, Ins(k(0, 0xa0 + j % 64) | (1 + j) << 16), false);
                    }
                    full_check(&c, &m, &keys[..n], b);
                }
            });
            drop(c);
            h = model_hash(&m, &self.st.name);
        });
        st.state(h);
    }
}
