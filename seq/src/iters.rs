//! Steps of iterators interleaved with operations by the same thread.

use std::rc::Rc;

use scc::{Guard, HashIndex};

use crate::base::*;
use crate::fam::*;
use crate::hash::*;
use crate::model::Op::*;
use crate::model::*;
use crate::plan::keys;
use crate::sut::*;
use crate::tree::Bd::*;
use crate::tree::Ord_::*;
use crate::tree::TOp;
use crate::tree::*;

type Inst = (u32, u32, u32);

/// What was present since the iterator was created.
struct Track {
    ever: Vec<Inst>,
    /// Present all the time.
    stable: Vec<Inst>,
    got: Vec<Inst>,
    ended: bool,
}
impl Track {
    fn new(now: Vec<Inst>) -> Track {
        Track { ever: now.clone(), stable: now, got: Vec::new(), ended: false }
    }
    fn changed(&mut self, now: &[Inst]) {
        if self.ended {
            return;
        }
        self.stable.retain(|x| now.binary_search(x).is_ok());
        for x in now {
            if !self.ever.contains(x) {
                self.ever.push(*x);
            }
        }
    }
}

struct Walker<'g, I: Iterator<Item = (&'g K, &'g V)>> {
    it: I,
    t: Track,
    held: Vec<(&'g K, &'g V)>,
    sorted: bool,
    inside: Box<dyn Fn(u32) -> bool>,
}
impl<'g, I: Iterator<Item = (&'g K, &'g V)>> Walker<'g, I> {
    fn next(&mut self, n: u64) {
        for _ in 0..n {
            let r = self.it.next();
            let Some((k, v)) = r else {
                if !self.t.ended {
                    self.t.ended = true;
                    for x in &self.t.stable {
                        if (self.inside)(x.0) && !self.t.got.contains(x) {
                            viol("skipped", || format!("{x:?} was there all the time, but the iterator ended after {:?}", self.t.got));
                        }
                    }
                }
                return;
            };
            let x = (k.get(), k.tag(), v.get());
            if self.t.ended {
                viol("not-fused", || format!("the iterator yielded {x:?} after its end"));
                return;
            }
            if !self.t.ever.contains(&x) {
                viol("absent", || format!("the iterator yielded {x:?}, which was never there"));
            }
            if !(self.inside)(x.0) {
                viol("out-of-range", || format!("the iterator yielded {x:?}"));
            }
            if self.sorted && self.t.got.last().is_some_and(|l| l.0 >= x.0) {
                viol("wrong-order", || format!("the iterator yielded {x:?} after {:?}", self.t.got.last()));
            }
            self.t.got.push(x);
            self.held.push((k, v));
            if self.t.got.len() > 8 * self.t.ever.len() + 64 {
                viol("endless", || "the iterator does not end".into());
            }
            if g().viol.is_some() {
                return;
            }
        }
    }
    /// The references stay valid as long as the guard is there.
    fn held(&self) {
        for (x, (k, v)) in self.t.got.iter().zip(&self.held) {
            if *x != (k.get(), k.tag(), v.get()) {
                viol("changed", || format!("a reference to {x:?} now reads {:?}", (k.get(), k.tag(), v.get())));
            }
        }
    }
}

/// Iterator, steps, operation, steps, operation, to the end, operation, again.
struct Plan<O> {
    j1: Vec<u64>,
    op1: Vec<O>,
    j2: Vec<u64>,
    op2: Vec<O>,
    post: Vec<O>,
}
impl<O: Copy> Plan<O> {
    fn count(&self) -> u64 {
        (self.j1.len() * self.op1.len() * self.j2.len() * self.op2.len() * self.post.len()) as u64
    }
    fn pick(&self, i: u64) -> (u64, O, u64, O, O) {
        let mut i = i as usize;
        let mut d = |n: usize| {
            let r = i % n;
            i /= n;
            r
        };
        (self.j1[d(self.j1.len())], self.op1[d(self.op1.len())], self.j2[d(self.j2.len())], self.op2[d(self.op2.len())], self.post[d(self.post.len())])
    }
}
fn drive<'g, O: Copy, I: Iterator<Item = (&'g K, &'g V)>>(w: &mut Walker<'g, I>, p: (u64, O, u64, O, O), mut op: impl FnMut(O) -> Vec<Inst>) {
    let mut go = |w: &mut Walker<'g, I>, n: u64, o: Option<O>| {
        if g().viol.is_none() {
            w.next(n);
        }
        if g().viol.is_none()
            && let Some(o) = o
        {
            let now = op(o);
            w.t.changed(&now);
        }
    };
    go(w, p.0, Some(p.1));
    go(w, p.2, Some(p.3));
    go(w, u64::MAX, None);
    go(w, 2, Some(p.4));
    go(w, 2, None);
    if g().viol.is_none() {
        w.held();
    }
}

struct HashWalk {
    name: String,
    st: State,
    pre: Vec<(Op, u32)>,
    model: Model,
    /// No array is being relocated at the beginning.
    settled: bool,
    plan: Plan<(Op, bool)>,
}
fn hnow(m: &Model) -> Vec<Inst> {
    m.m.iter().map(|(k, e)| (*k, e.tag, e.v)).collect()
}
impl Family for HashWalk {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        self.plan.count()
    }
    fn describe(&self, i: u64) -> String {
        let (a, b, c, d, e) = self.plan.pick(i);
        format!("state {}, iterator: {a} steps, {b:x?}, {c} steps, {d:x?}, to the end, {e:x?}, again", self.st.name)
    }
    fn run(&self, i: u64, st: &mut Stat) {
        st.runs += 1;
        st.ops += 3;
        let mut h = 0;
        accounted(|| {
            let mut m = self.model.clone();
            let c: HashIndex<K, V, Bh> = build(&self.st, &self.pre);
            {
                let gd = Guard::new();
                let mut w = Walker { it: c.iter(&gd), t: Track::new(hnow(&m)), held: Vec::new(), sorted: false, inside: Box::new(|_| true) };
                let cap = m.cap;
                let mut moved = !self.settled;
                drive(&mut w, self.plan.pick(i), |(o, a)| {
                    step(&c, &mut m, o, a);
                    moved |= c.cap() != cap || matches!(o, Resv(_));
                    hnow(&m)
                });
                if !moved {
                    // Nothing moved.
                    let s = &w.t.stable;
                    for (n, x) in w.t.got.iter().enumerate() {
                        if s.contains(x) && w.t.got[..n].contains(x) {
                            viol("repeated", || format!("{x:?} was yielded twice"));
                        }
                    }
                }
                h = w.t.got.len() as u64;
            }
            if g().viol.is_none() {
                BUF.with_borrow_mut(|b| full_check(&c, &m, &[], b));
            }
            h = mix(h, model_hash(&m, &self.st.name));
        });
        st.state(h);
    }
}

struct TreeWalk {
    name: String,
    prep: Rc<Prep>,
    /// None: `iter`.
    range: Vec<Option<(Bd, Bd)>>,
    plan: Plan<(TOp, bool)>,
}
fn tnow(m: &TModel) -> Vec<Inst> {
    m.m.iter().map(|(k, (t, v))| (*k, *t, *v)).collect()
}
impl Family for TreeWalk {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        self.plan.count() * self.range.len() as u64
    }
    fn describe(&self, i: u64) -> String {
        let r = self.range[(i % self.range.len() as u64) as usize];
        let (a, b, c, d, e) = self.plan.pick(i / self.range.len() as u64);
        format!("iterator {r:?}: {a} steps, {b:?}, {c} steps, {d:?}, to the end, {e:?}, again")
    }
    fn run(&self, i: u64, st: &mut Stat) {
        st.runs += 1;
        st.ops += 3;
        let r = self.range[(i % self.range.len() as u64) as usize];
        let p = self.plan.pick(i / self.range.len() as u64);
        let mut h = 0;
        accounted(|| {
            let mut m = self.prep.model.clone();
            let t = tbuild(&self.prep);
            {
                let gd = Guard::new();
                let tr = Track::new(tnow(&m));
                let op = |(o, a)| {
                    tstep(&t, &mut m, o, a);
                    tnow(&m)
                };
                h = match r {
                    None => {
                        let mut w = Walker { it: t.iter(&gd), t: tr, held: Vec::new(), sorted: true, inside: Box::new(|_| true) };
                        drive(&mut w, p, op);
                        w.t.got.len()
                    }
                    Some((lo, hi)) => {
                        let mut w = Walker { it: t.range((bd(lo), bd(hi)), &gd), t: tr, held: Vec::new(), sorted: true, inside: Box::new(move |k| inside(k, lo, hi)) };
                        drive(&mut w, p, op);
                        w.t.got.len()
                    }
                } as u64;
            }
            if g().viol.is_none() {
                tcheck(&t, &m, &[]);
            }
            h = mix(h, thash(&m, &t));
        });
        st.state(h);
    }
}

fn spread(n: u64, all: bool) -> Vec<u64> {
    let mut v: Vec<u64> = if all || n <= 16 { (0..=n + 1).collect() } else { vec![0, 1, 2, 7, 13, 14, 15, n / 2, n - 2, n - 1, n, n + 1] };
    v.sort_unstable();
    v.dedup();
    v
}

pub fn hash_walks(out: &mut Vec<Box<dyn Family>>, thorough: bool) {
    for name in state_names(Kind::Index) {
        let st = state(Kind::Index, name);
        let (pre, model) = prepare::<Hi>(&st);
        let n = model.m.len() as u64;
        if n > 200 && !thorough {
            continue;
        }
        let k2 = keys(&st, 2);
        let k4 = keys(&st, 4);
        let mut op1: Vec<(Op, bool)> = full(Kind::Index, &k4).into_iter().filter(|(o, a)| !a && !pure(*o) && !matches!(o, GetMut(_) | EntMod(_))).collect();
        op1.extend([(Blk(700, 70), false), (RetNone, true), (Clear, true), (Blk(700, 20), false), (Resv(2000), false)]);
        let op2: Vec<(Op, bool)> = core(Kind::Index, &k2).into_iter().chain([(Blk(800, 140), false), (Blk(800, 20), false), (Clear, false)]).collect();
        let post = vec![(Ins(st.absent[0]), false), (Blk(950, 40), false)];
        let settled = ["empty", "few", "last", "cap", "grow", "over", "over2", "hole"].contains(&name);
        let mut add = |x: &str, plan: Plan<(Op, bool)>| out.push(Box::new(HashWalk { name: format!("walk-{}/{x}", st.name), st: st.clone(), pre: pre.clone(), model: model.clone(), settled, plan }));
        let j1 = spread(n, thorough && n < 80);
        if n > 200 {
            add("big", Plan { j1, op1: op2.clone(), j2: vec![0, 40], op2: op2.clone(), post });
        } else {
            add("2", Plan { j1: j1.clone(), op1: op1.clone(), j2: vec![0, 1, 9], op2: op2.clone(), post: post.clone() });
            if thorough {
                add("2w", Plan { j1, op1: op1.clone(), j2: vec![0, 1, 2, 5, 13, 33], op2: op1, post });
            }
        }
    }
}

pub fn tree_walks(out: &mut Vec<Box<dyn Family>>, thorough: bool) {
    for s in tstates() {
        let prep = Rc::new(tprepare(&s.init));
        let m = prep.model.clone();
        let n = m.m.len() as u64;
        let top = m.m.keys().next_back().copied().unwrap_or(10);
        let mid = 10 + (n as u32 / 2) * 2;
        let ks = some_keys(&m, if thorough { 12 } else { 7 });
        let ops = |ks: &[u32]| -> Vec<(TOp, bool)> {
            let mut v: Vec<TOp> = ks.iter().flat_map(|k| [TOp::Ins(*k), TOp::Rem(*k)]).collect();
            v.extend([
                TOp::Blk(Asc, 11, 15, 2),
                TOp::Blk(Asc, mid + 1, 15, 2),
                TOp::Blk(Asc, top + 2, 15, 2),
                TOp::BlkRem(Asc, 10, 14, 2),
                TOp::BlkRem(Desc, mid, n as u32 / 2 + 1, 2),
                TOp::RemRange(In(mid), No),
                TOp::RemRange(No, Ex(mid)),
                TOp::Clear,
            ]);
            v.into_iter().map(|o| (o, false)).collect()
        };
        let range = if thorough {
            vec![None, Some((No, No)), Some((In(mid), No)), Some((No, In(mid))), Some((Ex(10), Ex(top))), Some((Ex(mid), In(mid + 6))), Some((In(11), Ex(mid + 1))), Some((In(top), No))]
        } else {
            vec![None, Some((Ex(10), Ex(top))), Some((In(mid), In(mid + 6))), Some((No, Ex(mid)))]
        };
        let post = vec![(TOp::Ins(top + 2), false), (TOp::Blk(Asc, 11, 20, 2), false)];
        out.push(Box::new(TreeWalk {
            name: format!("walk-{}", s.name),
            prep,
            range,
            plan: Plan { j1: spread(n, thorough && n < 80), op1: ops(&ks), j2: if thorough { vec![0, 1, 2, 7, 14] } else { vec![0, 1, 8] }, op2: ops(&ks[..ks.len().min(if thorough { 6 } else { 3 })]), post },
        }));
    }
}
