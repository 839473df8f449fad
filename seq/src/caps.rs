//! Capacities and reservations.

use std::panic::{AssertUnwindSafe, catch_unwind};
use std::rc::Rc;

use crate::base::*;
use crate::fam::*;
use crate::hash::*;
use crate::model::*;
use crate::sut::*;

/// A container with reservations.
pub trait Reserves: Sut {
    type R<'a>
    where
        Self: 'a;
    fn reserve_(&self, n: usize) -> Option<Self::R<'_>>;
    fn additional(r: &Self::R<'_>) -> usize;
}
impl Reserves for Hm {
    type R<'a> = scc::hash_map::Reserve<'a, K, V, Bh>;
    fn reserve_(&self, n: usize) -> Option<Self::R<'_>> {
        self.reserve(n)
    }
    fn additional(r: &Self::R<'_>) -> usize {
        r.additional_capacity()
    }
}
impl Reserves for Hs_ {
    type R<'a> = scc::hash_set::Reserve<'a, K, Bh>;
    fn reserve_(&self, n: usize) -> Option<Self::R<'_>> {
        self.reserve(n)
    }
    fn additional(r: &Self::R<'_>) -> usize {
        r.additional_capacity()
    }
}
impl Reserves for Hi {
    type R<'a> = scc::hash_index::Reserve<'a, K, V, Bh>;
    fn reserve_(&self, n: usize) -> Option<Self::R<'_>> {
        self.reserve(n)
    }
    fn additional(r: &Self::R<'_>) -> usize {
        r.additional_capacity()
    }
}
/// No reservations.
impl Reserves for Hc {
    type R<'a> = ();
    fn reserve_(&self, _: usize) -> Option<()> {
        None
    }
    fn additional(_: &()) -> usize {
        0
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum COp {
    Do(Op, bool),
    /// Uses all the buckets, so that a pending resize is completed.
    Settle,
    Reserve(usize),
    /// Settles first: the reservation must be attained at once.
    SettleReserve(usize),
    DropFirst,
    DropLast,
}
use COp::*;

pub struct Caps<S: Reserves> {
    name: String,
    cap: usize,
    max: usize,
    alpha: Rc<Vec<COp>>,
    depth: usize,
    _p: std::marker::PhantomData<S>,
}
impl<S: Reserves> Caps<S> {
    fn ops(&self, mut i: u64) -> Vec<COp> {
        let n = self.alpha.len() as u64;
        let mut v = Vec::with_capacity(self.depth);
        for _ in 0..self.depth {
            v.push(self.alpha[(i % n) as usize]);
            i /= n;
        }
        v.reverse();
        v
    }
}
fn settle<S: Sut>(c: &S, m: &mut Model) {
    for i in 0..64 {
        step1_read(c, m, k(4 * i, 0xfe));
    }
    step(c, m, Op::Iter, false);
}
fn step1_read<S: Sut>(c: &S, m: &mut Model, key: u32) {
    step(c, m, Op::Ins(key), false);
    step(c, m, Op::Rem(key), false);
}

impl<S: Reserves> Family for Caps<S> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        (self.alpha.len() as u64).pow(self.depth as u32)
    }
    fn describe(&self, i: u64) -> String {
        format!("capacity {} (at most {}), then {:x?}", self.cap, self.max, self.ops(i))
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let ops = self.ops(i);
        st.runs += 1;
        st.ops += ops.len() as u64;
        let mut h = 0;
        accounted(|| {
            let c = S::make(self.cap, self.max);
            let (base, end) = c.cap_range();
            let mut m = Model::new(S::KIND);
            m.cap = c.cap();
            m.lenient = true;
            if S::KIND == Kind::Cache {
                m.max = self.max.max(m.cap).clamp(64, 1 << 62).next_power_of_two();
            }
            if c.cap() < self.cap || base < self.cap || end < base || c.cap() > end || (S::KIND == Kind::Cache && end < self.max.min(1 << 62)) {
                viol("wrong-capacity", || format!("capacity {}, range {base}..={end} although {} was asked for", c.cap(), self.cap));
            }
            let mut held: Vec<S::R<'_>> = Vec::with_capacity(16);
            let mut sum = 0;
            let mut attained = true;
            let look = |m: &Model, sum: usize, attained: &mut bool, what: &dyn Fn() -> String| {
                let (lo, hi) = c.cap_range();
                let cap = c.cap();
                if lo != base + sum || hi != end {
                    viol("wrong-range", || format!("{}: the range is {lo}..={hi} instead of {}..={end}", what(), base + sum));
                }
                if *attained && cap < base + sum && cap != 0 || cap > hi {
                    viol("capacity-lost", || format!("{}: the capacity fell to {cap} with the range {lo}..={hi}", what()));
                }
                // A table without any entry may be dropped if nothing is reserved.
                if cap == 0 && *attained && base + sum > 0 {
                    viol("capacity-lost", || format!("{}: the capacity fell to 0 with the range {lo}..={hi}", what()));
                }
                if cap >= base + sum {
                    *attained = true;
                }
                if c.len() != m.m.len() || c.empty() != m.m.is_empty() {
                    viol("wrong-length", || format!("{}: len {} (empty: {}) instead of {}", what(), c.len(), c.empty(), m.m.len()));
                }
                if S::KIND == Kind::Cache && c.len() > cap {
                    viol("wrong-capacity", || format!("{}: {} entries within a capacity of {cap}", what(), c.len()));
                }
            };
            for op in &ops {
                match *op {
                    Do(o, a) => step(&c, &mut m, o, a),
                    Settle => settle(&c, &mut m),
                    Reserve(n) | SettleReserve(n) => {
                        if matches!(op, SettleReserve(_)) {
                            settle(&c, &mut m);
                        }
                        let there = c.cap() != 0;
                        let room = end - base - sum;
                        let r = if n < 1 << 40 {
                            c.reserve_(n)
                        } else {
                            // There is not enough memory.
                            match catch_unwind(AssertUnwindSafe(|| c.reserve_(n))) {
                                Ok(r) => {
                                    if r.is_some() && n > room {
                                        viol("wrong-result", || format!("reserve({n}) succeeded with room for {room}"));
                                    }
                                    None
                                }
                                Err(e) => {
                                    drop(e);
                                    if !there {
                                        viol("panic", || format!("reserve({n}) panicked without a table"));
                                    }
                                    None
                                }
                            }
                        };
                        match r {
                            Some(r) => {
                                if n == 0 || n > room || S::additional(&r) != n {
                                    viol("wrong-result", || format!("reserve({n}) with room for {room} yields a reservation of {}", S::additional(&r)));
                                }
                                held.push(r);
                                sum += n;
                                attained = c.cap() >= base + sum;
                                if matches!(op, SettleReserve(_)) && there && !attained {
                                    viol("not-reserved", || format!("reserve({n}) left the capacity at {} instead of {}", c.cap(), base + sum));
                                }
                            }
                            None => {
                                if n != 0 && n <= room && n < 1 << 40 {
                                    viol("wrong-result", || format!("reserve({n}) failed with room for {room}"));
                                }
                            }
                        }
                        m.resized(c.cap());
                    }
                    DropFirst | DropLast => {
                        if !held.is_empty() {
                            let r = if *op == DropFirst { held.remove(0) } else { held.pop().unwrap() };
                            let n = S::additional(&r);
                            drop(r);
                            sum -= n;
                            m.resized(c.cap());
                        }
                    }
                }
                look(&m, sum, &mut attained, &|| format!("after {op:x?}"));
            }
            h = mix(model_hash(&m, ""), (c.cap() ^ sum << 20) as u64);
            g().growing = !attained;
            BUF.with_borrow_mut(|b| full_check(&c, &m, &[k(0, 1), series(0, 0), series(3000, 1)], b));
            // Everything is released in the end.
            for n in (0..held.len()).rev() {
                let r = held.remove(n / 2);
                sum -= S::additional(&r);
                drop(r);
                m.resized(c.cap());
                look(&m, sum, &mut attained, &|| "after dropping a reservation".into());
            }
            let ks: Vec<u32> = m.m.keys().copied().collect();
            for x in ks {
                step(&c, &mut m, Op::Rem(x), false);
                look(&m, sum, &mut attained, &|| format!("after removing {x:#x}"));
            }
            for _ in 0..8 {
                if c.cap() == base {
                    break;
                }
                settle(&c, &mut m);
            }
            if c.cap() != base && g().viol.is_none() {
                viol("not-released", || format!("the capacity stays {} after everything was removed, although only {base} is required", c.cap()));
            }
        });
        st.state(h);
    }
}

/// Every requested capacity.
pub struct Grid<S: Reserves> {
    name: String,
    list: Vec<(usize, usize)>,
    _p: std::marker::PhantomData<S>,
}
impl<S: Reserves> Family for Grid<S> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        self.list.len() as u64
    }
    fn describe(&self, i: u64) -> String {
        format!("made with {:?}", self.list[i as usize])
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let (cap, max) = self.list[i as usize];
        let f = Caps::<S> { name: String::new(), cap, max, alpha: Rc::new(vec![Do(Op::Blk(0, 3), false), Do(Op::Clear, false)]), depth: 2, _p: std::marker::PhantomData };
        for x in 0..4 {
            f.run(x, st);
        }
    }
}

fn resv<S: Reserves + 'static>(out: &mut Vec<Box<dyn Family>>, thorough: bool) {
    let kind = S::KIND;
    let one = k(0, 1);
    let mut a = vec![
        Do(Op::Ins(one), false),
        Do(Op::Rem(one), true),
        Do(Op::Blk(0, 40), false),
        Do(Op::Blk(300, 160), true),
        Do(Op::BlkRem(0, 40), true),
        Do(Op::BlkRem(300, 160), false),
        Do(Op::Clear, false),
        Do(Op::RetNone, false),
        Settle,
    ];
    let mut pairs: Vec<(usize, usize)> = [0, 1, 64, 65, 300, 2048].map(|c| (c, 0)).to_vec();
    if kind == Kind::Cache {
        a.extend([Do(Op::Blk(1000, 700), false), Do(Op::RetOdd, false), Do(Op::MutRemAll, false), Do(Op::GetRem(one), false)]);
        pairs = vec![(0, 0), (0, 64), (1, 64), (0, 128), (64, 100), (65, 65), (0, 256), (100, 1024), (300, 0), (0, 4096)];
    } else {
        a.extend([Reserve(1), Reserve(64), Reserve(300), Reserve(5000), Reserve(0), Reserve(usize::MAX), Reserve(1 << 62), SettleReserve(65), SettleReserve(1000), DropFirst, DropLast]);
    }
    let a = Rc::new(a);
    for (cap, max) in pairs {
        for depth in 1..=if thorough { 5 } else { 4 } {
            // The deepest for one kind, as the table is shared.
            if (depth == 4 && !matches!(kind, Kind::Map | Kind::Cache) && !thorough) || (depth == 5 && !matches!(kind, Kind::Cache) && cap > 64) {
                continue;
            }
            out.push(Box::new(Caps::<S> { name: format!("caps-{kind:?}-{cap}-{max}/{depth}"), cap, max, alpha: a.clone(), depth, _p: std::marker::PhantomData }));
        }
    }
    let mut list = Vec::new();
    if kind == Kind::Cache {
        let l = [0, 1, 2, 31, 32, 33, 63, 64, 65, 66, 100, 127, 128, 129, 192, 193, 255, 256, 257, 500, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097];
        list.extend(l.iter().flat_map(|a| l.iter().map(|b| (*a, *b))));
        list.extend((0..=1100).flat_map(|x| [(0, x), (x, 0), (x, x)]));
        list.extend([(0, usize::MAX), (0, 1 << 62), (0, (1 << 62) - 1), (64, 1 << 63)]);
    } else {
        list.extend((0..=2100).chain([4095, 4096, 4097, 8191, 8192, 8193, 65535, 65536, 65537]).map(|c| (c, 0)));
    }
    out.push(Box::new(Grid::<S> { name: format!("grid-{kind:?}"), list, _p: std::marker::PhantomData }));
}

pub fn all(out: &mut Vec<Box<dyn Family>>, thorough: bool) {
    resv::<Hm>(out, thorough);
    resv::<Hs_>(out, thorough);
    resv::<Hi>(out, thorough);
    resv::<Hc>(out, thorough);
}
