//! Operation sequences on TreeIndex.

use std::collections::BTreeMap;
use std::ops::Bound;
use std::rc::Rc;

use scc::{Guard, TreeIndex};

use crate::base::*;
use crate::fam::*;
use crate::fault::*;

pub type T = TreeIndex<K, V>;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bd {
    In(u32),
    Ex(u32),
    No,
}
use Bd::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Ord_ {
    Asc,
    Desc,
    /// From the outside to the inside.
    Outer,
    /// From the inside to the outside.
    Inner,
    /// With a stride.
    Stride,
}
use Ord_::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum TOp {
    Ins(u32),
    Rem(u32),
    RemIf(u32, bool),
    Peek(u32),
    PeekWith(u32),
    PeekE(u32),
    Has(u32),
    Len,
    Iter,
    Range(Bd, Bd),
    RemRange(Bd, Bd),
    Clear,
    Fmt,
    /// Inserts `n` keys from a first one in steps.
    Blk(Ord_, u32, u32, u32),
    BlkRem(Ord_, u32, u32, u32),
}
use TOp::*;

pub fn nth(o: Ord_, i: u32, n: u32) -> u32 {
    match o {
        Asc => i,
        Desc => n - 1 - i,
        Outer => {
            if i % 2 == 0 {
                i / 2
            } else {
                n - 1 - i / 2
            }
        }
        Inner => nth(Outer, n - 1 - i, n),
        Stride => {
            let s = [37, 11, 7, 5, 3, 1].into_iter().find(|s| n % s != 0).unwrap_or(1);
            (i * s) % n
        }
    }
}

#[derive(Clone, Debug, Default)]
pub struct TModel {
    pub m: BTreeMap<u32, (u32, u32)>,
    pub clock: u32,
}
fn b(x: bool) -> u32 {
    u32::from(x)
}
pub fn inside(k: u32, lo: Bd, hi: Bd) -> bool {
    (match lo {
        In(x) => k >= x,
        Ex(x) => k > x,
        No => true,
    }) && match hi {
        In(x) => k <= x,
        Ex(x) => k < x,
        No => true,
    }
}
pub fn bd(x: Bd) -> Bound<Q> {
    match x {
        In(k) => Bound::Included(Q(k)),
        Ex(k) => Bound::Excluded(Q(k)),
        No => Bound::Unbounded,
    }
}

impl TModel {
    pub fn val(&self) -> u32 {
        1000 + self.clock
    }
    fn apply(&mut self, op: TOp, tag: u32) -> Obs {
        let val = self.val();
        self.clock += 1;
        let none = obs(&[NONE]);
        match op {
            Ins(k) => {
                if self.m.contains_key(&k) {
                    obs(&[1, tag, val])
                } else {
                    self.m.insert(k, (tag, val));
                    obs(&[0])
                }
            }
            Rem(k) => obs(&[b(self.m.remove(&k).is_some())]),
            RemIf(k, yes) => match self.m.get(&k).copied() {
                None => obs(&[0, NONE]),
                Some((_, v)) => {
                    if yes {
                        self.m.remove(&k);
                    }
                    obs(&[b(yes), v])
                }
            },
            Peek(k) => self.m.get(&k).map_or(none, |x| obs(&[x.1])),
            PeekWith(k) | PeekE(k) => self.m.get(&k).map_or(none, |x| obs(&[x.0, x.1])),
            Has(k) => obs(&[b(self.m.contains_key(&k))]),
            Len => obs(&[self.m.len() as u32, b(self.m.is_empty())]),
            Iter | Range(..) | Fmt => obs(&[]),
            RemRange(lo, hi) => {
                self.m.retain(|k, _| !inside(*k, lo, hi));
                obs(&[])
            }
            Clear => {
                self.m.clear();
                obs(&[])
            }
            Blk(..) | BlkRem(..) => unreachable!(),
        }
    }
}

pub fn exec(t: &T, op: TOp, a: bool, val: u32) -> Obs {
    let mut o = Obs::new();
    match op {
        Ins(k) => match if a { blk(t.insert_async(K::new(k), V::new(val))) } else { t.insert_sync(K::new(k), V::new(val)) } {
            Ok(()) => *o.p(0),
            Err((k, v)) => *o.p(1).p(k.tag()).p(v.get()),
        },
        Rem(k) => *o.p(b(if a { blk(t.remove_async(&Q(k))) } else { t.remove_sync(&Q(k)) })),
        RemIf(k, yes) => {
            let mut seen = NONE;
            let f = |v: &V| {
                tick();
                seen = v.get();
                yes
            };
            let r = if a { blk(t.remove_if_async(&Q(k), f)) } else { t.remove_if_sync(&Q(k), f) };
            *o.p(b(r)).p(seen)
        }
        Peek(k) => {
            let g = Guard::new();
            *o.p(t.peek(&Q(k), &g).map_or(NONE, V::get))
        }
        PeekWith(k) => t
            .peek_with(&Q(k), |k, v| {
                tick();
                obs(&[k.tag(), v.get()])
            })
            .unwrap_or(obs(&[NONE])),
        PeekE(k) => {
            let g = Guard::new();
            t.peek_entry(&Q(k), &g).map_or(obs(&[NONE]), |(k, v)| obs(&[k.tag(), v.get()]))
        }
        Has(k) => *o.p(b(t.contains(&Q(k)))),
        Len => *o.p(t.len() as u32).p(b(t.is_empty())),
        Iter => {
            let g = Guard::new();
            for (k, v) in t.iter(&g) {
                see(k.get(), v.get());
            }
            o
        }
        Range(lo, hi) => {
            let g = Guard::new();
            for (k, v) in t.range((bd(lo), bd(hi)), &g) {
                see(k.get(), v.get());
            }
            o
        }
        RemRange(lo, hi) => {
            if a {
                blk(t.remove_range_async((bd(lo), bd(hi))));
            } else {
                t.remove_range_sync((bd(lo), bd(hi)));
            }
            o
        }
        Clear => {
            t.clear();
            o
        }
        Fmt => {
            struct Sink(u64);
            impl std::fmt::Write for Sink {
                fn write_str(&mut self, s: &str) -> std::fmt::Result {
                    self.0 += s.len() as u64;
                    Ok(())
                }
            }
            use std::fmt::Write;
            let mut s = Sink(0);
            let _ = write!(s, "{t:?}");
            o
        }
        Blk(..) | BlkRem(..) => unreachable!(),
    }
}

fn check_scan(op: TOp, m: &TModel, lo: Bd, hi: Bd) {
    let s = &g().seen;
    let ok = m.m.iter().filter(|(k, _)| inside(**k, lo, hi)).map(|(k, x)| (*k, x.1)).eq(s.iter().copied());
    if !ok {
        viol("wrong-scan", || {
            let e: Vec<_> = m.m.keys().filter(|k| inside(**k, lo, hi)).collect();
            format!("{op:?} yielded {:?} instead of {e:?}", s.iter().map(|x| x.0).collect::<Vec<_>>())
        });
    }
}

fn step1(t: &T, m: &mut TModel, op: TOp, a: bool) {
    let tag = g().tag + 1;
    g().seen.clear();
    let o = exec(t, op, a, m.val());
    match op {
        Iter => check_scan(op, m, No, No),
        Range(lo, hi) => check_scan(op, m, lo, hi),
        _ => (),
    }
    let e = m.apply(op, tag);
    if e != o {
        viol("wrong-result", || format!("{op:?}{} returned {:x?} instead of {:x?}", if a { " (async)" } else { "" }, &o.v[..o.n], &e.v[..e.n]));
    }
}
fn each(op: TOp, mut f: impl FnMut(TOp)) {
    match op {
        Blk(o, lo, n, s) => (0..n).for_each(|i| f(Ins(lo + s * nth(o, i, n)))),
        BlkRem(o, lo, n, s) => (0..n).for_each(|i| f(Rem(lo + s * nth(o, i, n)))),
        _ => f(op),
    }
}
pub fn tstep(t: &T, m: &mut TModel, op: TOp, a: bool) {
    each(op, |o| step1(t, m, o, a));
}

pub fn tcheck(t: &T, m: &TModel, extra: &[u32]) {
    let n = m.m.len();
    g().seen.clear();
    let gd = Guard::new();
    let mut it = m.m.iter();
    for (k, v) in t.iter(&gd) {
        let e = it.next();
        if e != Some((&k.get(), &(k.tag(), v.get()))) {
            viol("wrong-contents", || format!("the scan yields {} (tag {}, {}) where {e:?} is due", k.get(), k.tag(), v.get()));
            return;
        }
    }
    if let Some(e) = it.next() {
        viol("wrong-contents", || format!("the scan ends before {e:?}"));
    }
    if t.is_empty() != (n == 0) {
        viol("wrong-length", || format!("is_empty {} with {n} entries", t.is_empty()));
    }
    let sparse = n > 400;
    let mut last = u32::MAX;
    for (i, (k, (tag, v))) in m.m.iter().enumerate() {
        if sparse && i % 13 > 1 {
            continue;
        }
        let r = t.peek_entry(&Q(*k), &gd).map(|(k, v)| (k.tag(), v.get()));
        if r != Some((*tag, *v)) {
            viol("wrong-lookup", || format!("{k} is found as {r:?} instead of ({tag}, {v})"));
        }
        for x in [k.wrapping_sub(1), k + 1] {
            if x != last && !m.m.contains_key(&x) && t.contains(&Q(x)) {
                viol("wrong-lookup", || format!("{x} is found, but absent"));
            }
            last = x;
        }
    }
    for k in extra {
        if t.contains(&Q(*k)) != m.m.contains_key(k) {
            viol("wrong-lookup", || format!("contains({k}) is wrong"));
        }
    }
    let (lk, lv) = (g().live_k, g().live_v);
    if lk < n as i64 || lv < n as i64 {
        viol("instances", || format!("{lk} keys and {lv} values are alive for {n} entries"));
    }
}

pub fn thash(m: &TModel, t: &T) -> u64 {
    let mut h = mix(t.depth() as u64, 99);
    for (k, (_, v)) in &m.m {
        h = mix(h, u64::from(*k));
        h = mix(h, u64::from(*v));
    }
    h
}

pub type Prog = Vec<(TOp, bool)>;

/// An initial state, as a program.
#[derive(Clone)]
pub struct TState {
    pub name: String,
    pub init: Vec<TOp>,
}
pub struct Prep {
    pub ops: Vec<(TOp, u32)>,
    pub model: TModel,
}
pub fn tprepare(init: &[TOp]) -> Prep {
    begin_case();
    let t = T::new();
    let mut m = TModel::default();
    let mut ops = Vec::new();
    for op in init {
        each(*op, |o| {
            ops.push((o, m.val()));
            step1(&t, &mut m, o, false);
        });
    }
    drop(t);
    drain();
    Prep { ops, model: m }
}
pub fn tbuild(p: &Prep) -> T {
    let t = T::new();
    for (o, v) in &p.ops {
        let _ = exec(&t, *o, false, *v);
    }
    g().seen.clear();
    t
}

/// Programs generated from a number.
pub struct TSeq {
    pub name: String,
    pub prep: Rc<Prep>,
    pub count: u64,
    pub generate: Box<dyn Fn(u64) -> Prog>,
}
impl Family for TSeq {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        self.count
    }
    fn describe(&self, i: u64) -> String {
        format!("then {:?}", (self.generate)(i))
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let p = (self.generate)(i);
        st.runs += 1;
        st.ops += p.len() as u64;
        let mut h = 0;
        accounted(|| {
            let mut m = self.prep.model.clone();
            let t = tbuild(&self.prep);
            for (o, a) in &p {
                tstep(&t, &mut m, *o, *a);
                if g().viol.is_some() {
                    break;
                }
            }
            if g().viol.is_none() {
                tcheck(&t, &m, &[0, 1, 5, 29, 401]);
            }
            h = thash(&m, &t);
        });
        st.state(h);
    }
}

/// All the sequences with the i-th operation out of the i-th alphabet.
pub fn product(alpha: Vec<Rc<Prog>>) -> (u64, Box<dyn Fn(u64) -> Prog>) {
    let n = alpha.iter().map(|a| a.len() as u64).product();
    (
        n,
        Box::new(move |mut i| {
            let mut v = Vec::with_capacity(8);
            for a in alpha.iter().rev() {
                v.push(a[(i % a.len() as u64) as usize]);
                i /= a.len() as u64;
            }
            v.reverse();
            v
        }),
    )
}

/// The trees operations start from.
pub fn tstates() -> Vec<TState> {
    let mut v = vec![TState { name: "tree-empty".into(), init: vec![] }];
    for o in [Asc, Desc, Stride] {
        for n in [1, 7, 13, 14, 15, 28, 29, 60, 106, 196, 197, 210] {
            if n < 13 && o != Asc {
                continue;
            }
            v.push(TState { name: format!("tree-{o:?}{n}"), init: vec![Blk(o, 10, n, 2)] });
        }
    }
    let mut add = |n: &str, init: Vec<TOp>| v.push(TState { name: format!("tree-{n}"), init });
    add("cleared", vec![Blk(Asc, 10, 30, 2), Clear]);
    add("emptied", vec![Blk(Asc, 10, 30, 2), BlkRem(Asc, 10, 30, 2)]);
    add("emptied2", vec![Blk(Asc, 10, 200, 2), BlkRem(Desc, 10, 200, 2)]);
    add("holes", vec![Blk(Asc, 10, 60, 2), BlkRem(Asc, 12, 29, 4)]);
    add("thin", vec![Blk(Asc, 10, 84, 2), BlkRem(Asc, 12, 13, 2), BlkRem(Asc, 40, 12, 2), BlkRem(Asc, 68, 12, 2)]);
    add("gap", vec![Blk(Asc, 10, 70, 2), RemRange(In(40), Ex(90))]);
    add("mid", vec![Blk(Asc, 10, 200, 2), BlkRem(Asc, 100, 60, 2)]);
    add("low", vec![Blk(Asc, 10, 200, 2), BlkRem(Asc, 10, 168, 2)]);
    add("collapsed", vec![Blk(Asc, 10, 200, 2), BlkRem(Asc, 10, 169, 2)]);
    add("churn", vec![Blk(Asc, 10, 14, 2), BlkRem(Asc, 10, 10, 2), Blk(Desc, 10, 8, 2)]);
    add("full", vec![Blk(Asc, 10, 14, 2), Rem(22)]);
    v
}
/// Trees with three levels.
pub fn deep() -> Vec<TState> {
    let mut v = Vec::new();
    for (n, init) in [
        ("deep", vec![Blk(Asc, 10, 2600, 2)]),
        ("deepborder", vec![Blk(Asc, 10, 2562, 2)]),
        ("deepdesc", vec![Blk(Desc, 10, 2600, 2)]),
        ("deepmid", vec![Blk(Asc, 10, 2600, 2), RemRange(In(600), Ex(4000))]),
        ("deeplow", vec![Blk(Asc, 10, 2600, 2), RemRange(No, Ex(4900))]),
    ] {
        v.push(TState { name: format!("tree-{n}"), init });
    }
    v
}

fn both(v: impl IntoIterator<Item = TOp>) -> Prog {
    v.into_iter()
        .flat_map(|o| match o {
            Ins(_) | Rem(_) | RemIf(..) | RemRange(..) | Blk(..) | BlkRem(..) => vec![(o, false), (o, true)],
            _ => vec![(o, false)],
        })
        .collect()
}

/// Keys of interest: present and absent ones around the borders of leaves.
pub fn some_keys(m: &TModel, n: usize) -> Vec<u32> {
    let ks: Vec<u32> = m.m.keys().copied().collect();
    let l = ks.len();
    let mut v = vec![5];
    if l > 0 {
        for i in [0, l - 1, l / 2, 13, 14, 1, l.saturating_sub(2), 7, 6, l / 4] {
            if i < l {
                v.extend([ks[i], ks[i] + 1]);
            }
        }
    } else {
        v.extend([10, 12, 14]);
    }
    let mut o = Vec::new();
    for k in v {
        if !o.contains(&k) {
            o.push(k);
        }
    }
    o.truncate(n);
    o
}
fn singles(ks: &[u32]) -> Vec<TOp> {
    ks.iter().flat_map(|k| [Ins(*k), Rem(*k), RemIf(*k, true), RemIf(*k, false), Peek(*k), PeekWith(*k), PeekE(*k), Has(*k)]).collect()
}
fn edits(ks: &[u32]) -> Vec<TOp> {
    ks.iter().flat_map(|k| [Ins(*k), Rem(*k)]).collect()
}
fn blocks(m: &TModel) -> Vec<TOp> {
    let n = m.m.len() as u32;
    let top = m.m.keys().next_back().copied().unwrap_or(10);
    let mid = 10 + (n / 2) * 2;
    let mut v = Vec::new();
    for o in [Asc, Desc, Outer, Inner, Stride] {
        // Odd keys in the gaps, and keys beyond the ends.
        v.extend([Blk(o, 11, 29, 2), Blk(o, mid + 1, 16, 2), Blk(o, top + 2, 30, 2), BlkRem(o, 10, n.max(1), 2), BlkRem(o, 10, n / 2 + 1, 2)]);
        v.push(BlkRem(o, mid, n / 2 + 1, 2));
    }
    v.extend([
        RemRange(In(10), Ex(mid)),
        RemRange(Ex(mid), No),
        RemRange(In(mid - 6), In(mid + 6)),
        RemRange(No, No),
        RemRange(No, In(mid)),
        RemRange(In(12), In(top.saturating_sub(2))),
        RemRange(In(mid - 40u32.min(mid)), Ex(mid + 40)),
        Clear,
    ]);
    v
}

pub fn c12(out: &mut Vec<Box<dyn Family>>, thorough: bool) {
    let mut add = |name: String, prep: &Rc<Prep>, (count, generate): (u64, Box<dyn Fn(u64) -> Prog>)| {
        out.push(Box::new(TSeq { name, prep: prep.clone(), count, generate }));
    };
    let empty = Rc::new(tprepare(&[]));
    // Everything that can happen to three and to four keys.
    let e3 = Rc::new(edits(&[10, 20, 30]).into_iter().map(|o| (o, false)).collect::<Prog>());
    let e4 = Rc::new(edits(&[10, 20, 30, 40]).into_iter().map(|o| (o, false)).collect::<Prog>());
    for d in 1..=if thorough { 8 } else { 6 } {
        add(format!("tree-keys3/{d}"), &empty, product(vec![e3.clone(); d]));
    }
    add("tree-keys4/5".into(), &empty, product(vec![e4.clone(); 5]));
    // Every order of insertion, and of removal, of seven keys.
    add(
        "tree-perm7".into(),
        &empty,
        (5040 * if thorough { 5040 } else { 24 }, Box::new(|i| {
            let perm = |mut i: u64| {
                let mut l: Vec<u32> = (0..7).map(|x| 10 + 2 * x).collect();
                let mut v = Vec::new();
                for n in (1..=7u64).rev() {
                    v.push(l.remove((i % n) as usize));
                    i /= n;
                }
                v
            };
            let mut p: Prog = perm(i % 5040).into_iter().map(|k| (Ins(k), false)).collect();
            let j = i / 5040;
            p.extend(perm(j * 211 % 5040).into_iter().map(|k| (Rem(k), false)));
            p.insert(10, (Iter, false));
            p
        })),
    );
    // Every set of removed entries in a full leaf, then an insertion in each gap.
    for (o, extra) in [(Asc, 0), (Stride, 0), (Asc, 14)] {
        if o == Stride && !thorough {
            continue;
        }
        let prep = Rc::new(tprepare(&[Blk(o, 10, 14 + extra, 2)]));
        let at = extra * 2;
        add(
            format!("tree-mask-{o:?}{extra}"),
            &prep,
            ((1 << 14) * 16, Box::new(move |i| {
                let (mask, gap) = (i >> 4, (i & 15) as u32);
                let mut p: Prog = (0..14u32).filter(|j| mask >> j & 1 == 1).map(|j| (Rem(10 + at + 2 * j), false)).collect();
                if gap < 15 {
                    p.push((Ins(9 + at + 2 * gap), false));
                }
                p.push((Ins(10 + at + 2 * (gap.min(13))), false));
                p
            })),
        );
    }
    // What is left of each of the first five leaves, then two more operations.
    let prep = Rc::new(tprepare(&[Blk(Asc, 10, 84, 2)]));
    let tail = Rc::new(edits(&[5, 37, 38, 39, 66, 93, 94, 149, 200]).into_iter().chain([RemRange(In(30), In(100)), Iter]).map(|o| (o, false)).collect::<Prog>());
    let t2 = tail.clone();
    add(
        "tree-leaves".into(),
        &prep,
        (1024 * (tail.len() * tail.len()) as u64, Box::new(move |i| {
            let (pat, x) = (i % 1024, i / 1024);
            let mut p = Prog::new();
            for l in 0..5u32 {
                let first = 10 + 28 * l;
                let (a, n) = match pat >> (2 * l) & 3 {
                    0 => (first, 0),
                    1 => (first, 14),
                    2 => (first + 2, 13),
                    _ => (first, 13),
                };
                if n > 0 {
                    p.push((BlkRem(Asc, a, n, 2), l % 2 == 1));
                }
            }
            let n = t2.len() as u64;
            p.push(t2[(x % n) as usize]);
            p.push(t2[(x / n) as usize]);
            p
        })),
    );
    for s in tstates() {
        let prep = Rc::new(tprepare(&s.init));
        let m = prep.model.clone();
        let all: Vec<u32> = (8..=m.m.keys().next_back().map_or(16, |k| k + 3)).collect();
        add(format!("{}/1", s.name), &prep, product(vec![Rc::new(both(singles(&all).into_iter().chain([Len, Iter, Clear])))]));
        let k8 = some_keys(&m, 8);
        let k5 = some_keys(&m, 5);
        let e8 = Rc::new(both(edits(&k8)));
        let s5 = Rc::new(both(singles(&k5).into_iter().chain([Len, Iter, Clear, Range(In(k5[0]), In(k5[k5.len() - 1])), Fmt])));
        add(format!("{}/2", s.name), &prep, product(vec![e8.clone(), s5.clone()]));
        let e5: Rc<Prog> = Rc::new(edits(&k5).into_iter().map(|o| (o, false)).collect());
        add(format!("{}/3", s.name), &prep, product(vec![e5.clone(), e5.clone(), e5.clone()]));
        let bl: Rc<Prog> = Rc::new(blocks(&m).into_iter().map(|o| (o, false)).collect());
        let bl2 = Rc::new(both(blocks(&m)));
        add(format!("{}/b1", s.name), &prep, product(vec![bl2.clone(), s5.clone()]));
        add(format!("{}/b2", s.name), &prep, product(vec![bl.clone(), if thorough { bl2.clone() } else { bl.clone() }]));
        if thorough {
            add(format!("{}/4", s.name), &prep, product(vec![e5.clone(), e5.clone(), e5.clone(), e5.clone()]));
            add(format!("{}/b2s", s.name), &prep, product(vec![bl.clone(), bl.clone(), s5.clone()]));
            if m.m.len() <= 60 {
                add(format!("{}/b3", s.name), &prep, product(vec![bl.clone(), bl.clone(), bl.clone()]));
            }
        }
    }
    for s in deep() {
        let prep = Rc::new(tprepare(&s.init));
        let m = prep.model.clone();
        let ks = some_keys(&m, 12);
        let e = Rc::new(both(edits(&ks)));
        let bl: Rc<Prog> = Rc::new(blocks(&m).into_iter().map(|o| (o, false)).collect());
        add(format!("{}/1", s.name), &prep, product(vec![Rc::new(both(singles(&ks).into_iter().chain([Len, Iter, Clear])))]));
        add(format!("{}/b1", s.name), &prep, product(vec![bl.clone()]));
        if thorough {
            add(format!("{}/b1s", s.name), &prep, product(vec![bl.clone(), e.clone()]));
            add(format!("{}/b2", s.name), &prep, product(vec![bl.clone(), bl.clone()]));
        }
    }
}

/// The single-threaded behaviour that other properties build upon.
pub fn tbasic(out: &mut Vec<Box<dyn Family>>, asy: bool, thorough: bool) {
    let mut add = |name: String, prep: &Rc<Prep>, (count, generate): (u64, Box<dyn Fn(u64) -> Prog>)| {
        out.push(Box::new(TSeq { name, prep: prep.clone(), count, generate }));
    };
    for s in tstates().into_iter().chain(deep()) {
        let prep = Rc::new(tprepare(&s.init));
        let m = prep.model.clone();
        let big = m.m.len() > 300;
        let only = |v: Prog| -> Rc<Prog> { Rc::new(if asy { v.into_iter().filter(|(_, a)| *a).collect() } else { v }) };
        let ks = some_keys(&m, if big { 4 } else { 10 });
        let all = only(both(singles(&ks).into_iter().chain([Len, Iter, Clear])));
        let bl = only(both(blocks(&m)));
        let e = only(both(edits(&some_keys(&m, if thorough { 10 } else { 5 }))));
        add(format!("{}/1", s.name), &prep, product(vec![all.clone()]));
        add(format!("{}/b", s.name), &prep, product(vec![bl.clone()]));
        if !big {
            add(format!("{}/2", s.name), &prep, product(vec![e.clone(), all.clone()]));
            add(format!("{}/b1", s.name), &prep, product(vec![bl.clone(), e.clone()]));
        }
        if thorough {
            add(format!("{}/1b", s.name), &prep, product(vec![e.clone(), bl.clone()]));
            add(format!("{}/3", s.name), &prep, product(vec![if big { bl } else { e.clone() }, e.clone(), if big { e } else { all }]));
        }
    }
}

fn bounds(x: u32) -> [Bd; 2] {
    [In(x), Ex(x)]
}

/// Every range over trees of many sizes.
pub struct Scan {
    pub name: String,
    pub prep: Rc<Prep>,
    pub los: Vec<Bd>,
    pub his: Vec<Bd>,
    /// Remove the range instead of scanning it.
    pub remove: bool,
}
impl Family for Scan {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        (if self.remove { self.los.len() * self.his.len() * 2 } else { self.los.len() }) as u64
    }
    fn describe(&self, i: u64) -> String {
        if self.remove {
            let (lo, hi, a) = self.pick(i);
            format!("then the range {lo:?} to {hi:?} is removed{}", if a { " (async)" } else { "" })
        } else {
            format!("then all ranges from {:?}", self.los[i as usize])
        }
    }
    fn run(&self, i: u64, st: &mut Stat) {
        st.runs += 1;
        let mut h = 0;
        accounted(|| {
            let mut m = self.prep.model.clone();
            let t = tbuild(&self.prep);
            if self.remove {
                let (lo, hi, a) = self.pick(i);
                st.ops += 1;
                tstep(&t, &mut m, RemRange(lo, hi), a);
                tcheck(&t, &m, &[]);
                // The tree is sound: it takes up the keys again.
                for k in self.prep.model.m.keys() {
                    if inside(*k, lo, hi) && k % 3 != 0 {
                        tstep(&t, &mut m, Ins(*k), false);
                    }
                }
                tcheck(&t, &m, &[]);
            } else {
                for hi in &self.his {
                    st.ops += 1;
                    tstep(&t, &mut m, Range(self.los[i as usize], *hi), false);
                    m.clock = 0;
                    if g().viol.is_some() {
                        break;
                    }
                }
            }
            h = thash(&m, &t);
        });
        st.state(mix(h, i));
    }
}
impl Scan {
    fn pick(&self, i: u64) -> (Bd, Bd, bool) {
        let (a, i) = (i % 2 == 1, (i / 2) as usize);
        (self.los[i / self.his.len()], self.his[i % self.his.len()], a)
    }
}
pub fn scans(out: &mut Vec<Box<dyn Family>>, remove: bool, thorough: bool) {
    for s in tstates().into_iter().chain(deep()) {
        let prep = Rc::new(tprepare(&s.init));
        let n = prep.model.m.len();
        let ks: Vec<u32> = prep.model.m.keys().copied().collect();
        let mut x: Vec<u32> = vec![5];
        let step = match (n, remove, thorough) {
            (0..=30, ..) => 1,
            (31..=110, false, _) => 1,
            (31..=110, true, true) => 1,
            (31..=110, true, false) => 4,
            (111..=300, _, true) => 2,
            (111..=300, false, false) => 3,
            (111..=300, true, false) => 13,
            (_, false, true) => 17,
            (_, true, true) => 67,
            (_, false, false) => 97,
            (_, true, false) => 261,
        };
        for (i, k) in ks.iter().enumerate() {
            if i % step == 0 || i + 1 == n {
                x.push(*k);
                if i % (step * 3) == 0 || i + 1 == n {
                    x.push(*k + 1);
                }
            }
        }
        if n == 0 {
            x.push(10);
        }
        let mut b: Vec<Bd> = x.iter().flat_map(|k| bounds(*k)).collect();
        b.push(No);
        out.push(Box::new(Scan { name: format!("{}-{}", if remove { "remrange" } else { "range" }, s.name), prep, los: b.clone(), his: b, remove }));
    }
}

/// A fault at every point of the last operation.
pub struct TFault {
    pub name: String,
    pub mode: Mode,
    pub prep: Rc<Prep>,
    pub prefix: Rc<Prog>,
    pub target: Rc<Prog>,
    pub twice: bool,
}
impl TFault {
    fn ops(&self, i: u64) -> (Option<(TOp, bool)>, (TOp, bool)) {
        let n = self.target.len() as u64;
        (self.prefix.get((i / n) as usize).copied(), self.target[(i % n) as usize])
    }
}
impl Family for TFault {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        (self.prefix.len().max(1) * self.target.len()) as u64
    }
    fn describe(&self, i: u64) -> String {
        let (p, t) = self.ops(i);
        format!("then {p:?}, then {t:?} with a {:?} fault at each point", self.mode)
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let (prefix, (op, a)) = self.ops(i);
        let mut n = 0;
        let mut more = true;
        while more && g().viol.is_none() {
            n += 1;
            more = false;
            if n > 1 {
                begin_case();
            }
            st.runs += 1;
            st.ops += 2;
            let mut h = 0;
            accounted(|| {
                let mut m = self.prep.model.clone();
                let t = tbuild(&self.prep);
                if let Some((o, a)) = prefix {
                    tstep(&t, &mut m, o, a);
                }
                for _ in 0..if self.twice { 2 } else { 1 } {
                    let before = m.clone();
                    let tag = g().tag + 1;
                    g().seen.clear();
                    let r = faulted(self.mode, n, || exec(&t, op, a, before.val()));
                    let mut after = before.clone();
                    let e = after.apply(op, tag);
                    match r {
                        Got::Unwound => {
                            st.faults += 1;
                            more = true;
                            m = tsettle(&t, &before, &after, st);
                        }
                        Got::Clean(o) | Got::Survived(o) => {
                            if matches!(r, Got::Survived(_)) {
                                st.faults += 1;
                                st.after += 1;
                                more = true;
                            }
                            if e != o {
                                viol("wrong-result", || format!("{op:?} returned {:x?} instead of {:x?}", &o.v[..o.n], &e.v[..e.n]));
                            }
                            m = after;
                        }
                    }
                    if g().viol.is_some() {
                        break;
                    }
                }
                h = thash(&m, &t);
                if g().viol.is_none() {
                    tuse(&t, &mut m, n);
                }
                if g().viol.is_some() {
                    std::mem::forget(t);
                }
            });
            if let Some((_, m)) = g().viol.as_mut() {
                *m = format!("fault at point {n}: {m}");
            }
            st.state(h);
            if n > 50_000 {
                viol("endless", || "the fault points do not end".into());
            }
        }
    }
}
fn tsettle(t: &T, before: &TModel, after: &TModel, st: &mut Stat) -> TModel {
    let gd = Guard::new();
    let mut now: BTreeMap<u32, (u32, u32)> = BTreeMap::new();
    let mut last = None;
    for (k, v) in t.iter(&gd) {
        if last >= Some(k.get()) {
            viol("wrong-order", || format!("the scan yields {} after {last:?} after the interruption", k.get()));
        }
        last = Some(k.get());
        now.insert(k.get(), (k.tag(), v.get()));
    }
    let keys: Vec<u32> = before.m.keys().chain(after.m.keys()).chain(now.keys()).copied().collect();
    let (mut eb, mut ea) = (true, true);
    for k in keys {
        let (x, y, z) = (before.m.get(&k), after.m.get(&k), now.get(&k));
        eb &= x == z;
        ea &= y == z;
        if z != x && z != y {
            viol("neither", || format!("{k} is {z:?} after the interruption; before the operation {x:?}, after it {y:?}"));
        }
    }
    st.before += u64::from(eb);
    st.after += u64::from(ea && !eb);
    TModel { m: now, clock: after.clock + 1 }
}
fn tuse(t: &T, m: &mut TModel, n: u64) {
    tcheck(t, m, &[5, 7]);
    if g().viol.is_some() {
        return;
    }
    let top = m.m.keys().next_back().copied().unwrap_or(10);
    // Through every leaf, asynchronously: a lock that was left behind shows as a pending future.
    let ks: Vec<u32> = m.m.keys().copied().step_by(if m.m.len() > 300 { 40 } else { 6 }).collect();
    for k in &ks {
        tstep(t, m, RemIf(*k, false), true);
        tstep(t, m, Ins(*k + 1), true);
        if g().viol.is_some() {
            return;
        }
    }
    if n % 2 == 0 {
        tstep(t, m, Blk(Asc, top + 2, 20, 2), false);
        tstep(t, m, RemRange(In(top / 3), Ex(top / 2)), true);
    } else {
        for k in m.m.keys().copied().collect::<Vec<_>>() {
            if k % 5 != 0 {
                tstep(t, m, Rem(k), false);
            }
        }
        tstep(t, m, Blk(Desc, 3, 30, 2), true);
    }
    if g().viol.is_some() {
        return;
    }
    tcheck(t, m, &[5, 7]);
}
pub fn tfaults(out: &mut Vec<Box<dyn Family>>, mode: Mode, deepest: bool) {
    let thorough = deepest || mode == Mode::Alloc;
    let deepest = deepest && mode == Mode::Alloc;
    let pre = if mode == Mode::Panic { "panic" } else { "alloc" };
    for s in tstates().into_iter().chain(deep()) {
        let prep = Rc::new(tprepare(&s.init));
        let m = prep.model.clone();
        let n = m.m.len();
        if n > 300 && !thorough && mode == Mode::Panic {
            continue;
        }
        let ks = some_keys(&m, if n > 300 { 4 } else { 10 });
        let top = m.m.keys().next_back().copied().unwrap_or(10);
        let mid = 10 + (n as u32 / 2) * 2;
        let mut ops = singles(&ks);
        ops.extend([
            Len,
            Clear,
            Ins(top + 2),
            RemRange(In(mid), In(top)),
            RemRange(In(12), In(mid)),
            RemRange(Ex(12), Ex(mid)),
            RemRange(No, Ex(mid)),
            RemRange(No, No),
            RemRange(In(mid), In(mid)),
            RemRange(In(11), No),
            Range(In(12), Ex(mid)),
        ]);
        let t = Rc::new(both(ops));
        let empty = Rc::new(Prog::new());
        let mut add = |n: &str, prefix: &Rc<Prog>, target: &Rc<Prog>, twice| {
            out.push(Box::new(TFault { name: format!("{pre}-{}/{n}", s.name), mode, prep: prep.clone(), prefix: prefix.clone(), target: target.clone(), twice }));
        };
        add("1", &empty, &t, false);
        if n <= 300 {
            add("1r", &empty, &t, true);
            let p: Rc<Prog> = Rc::new(edits(&ks[..ks.len().min(if thorough { 10 } else { 4 })]).into_iter().map(|o| (o, false)).collect());
            let target: Rc<Prog> = Rc::new(edits(&ks).into_iter().map(|o| (o, false)).collect());
            add("2", &p, &target, false);
            let bl: Rc<Prog> = Rc::new(blocks(&m).into_iter().map(|o| (o, false)).collect());
            if thorough {
                add("b2", &bl, &t, false);
            } else if n <= 60 {
                add("b2", &bl, &target, false);
            }
            if deepest {
                let all: Vec<u32> = (8..=top + 3).collect();
                let e: Rc<Prog> = Rc::new(edits(&all).into_iter().map(|o| (o, false)).collect());
                add("2w", &e, &e, false);
            }
        }
    }
}
