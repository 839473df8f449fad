//! Operations on hash containers and the reference model.

use std::collections::BTreeMap;

use crate::base::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind {
    Map,
    Set,
    Index,
    Cache,
}
use Kind::*;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Op {
    Ins(u32),
    Ups(u32),
    Rem(u32),
    RemIf(u32, bool),
    RemIfMut(u32),
    Read(u32),
    Has(u32),
    Upd(u32),
    GetSet(u32),
    GetMut(u32),
    GetRem(u32),
    GetRemV(u32),
    GetRemAnd(u32),
    GetNext(u32),
    EntOr(u32),
    EntOrWith(u32),
    EntOrKey(u32),
    EntDef(u32),
    EntMod(u32),
    EntIns(u32),
    EntKey(u32),
    EntRem(u32),
    TryEnt(u32),
    Repl(u32),
    ReplDrop(u32),
    Walk,
    WalkRem(u32),
    WalkRemAll,
    WalkSet,
    Any(u32),
    AnyRem(u32),
    Iter,
    IterStop(u32),
    MutAll,
    MutRem(u32),
    MutRemAll,
    MutStop(u32),
    RetNot(u32),
    RetMut,
    RetNone,
    RetOdd,
    Clear,
    Len,
    Resv(u32),
    PeekG(u32),
    PeekWith(u32),
    IterG,
    /// Inserts `n` keys from a series.
    Blk(u32, u32),
    /// Removes them.
    BlkRem(u32, u32),
}
use Op::*;

/// The `i`-th key of a series that spreads over all buckets.
pub fn series(s: u32, i: u32) -> u32 {
    k((s + i).wrapping_mul(67) & 0xff, 0x80 | ((s + i) & 0x7f)) | (s + i) << 16
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct E {
    pub tag: u32,
    pub v: u32,
    /// Last use.
    pub stamp: u32,
    /// Used since the bucket was last relocated.
    pub tracked: bool,
}

#[derive(Clone, Debug)]
pub struct Model {
    pub kind: Kind,
    pub m: BTreeMap<u32, E>,
    pub clock: u32,
    pub cap: usize,
    pub max: usize,
    /// The order of use is unknown.
    pub lenient: bool,
    /// Entries an interrupted operation may have evicted, one at most.
    pub may_evict: Vec<u32>,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Seen {
    /// The callbacks are not recorded.
    Nothing,
    /// Each entry once.
    All,
    /// That many distinct entries.
    Some(usize),
}

fn b(x: bool) -> u32 {
    u32::from(x)
}

impl Model {
    pub fn new(kind: Kind) -> Model {
        Model { kind, m: BTreeMap::new(), clock: 0, cap: 0, max: usize::MAX, lenient: false, may_evict: Vec::new() }
    }
    pub fn val(&self) -> u32 {
        1000 + self.clock
    }
    /// Value a set stores: none.
    fn norm(&self, v: u32) -> u32 {
        if self.kind == Set { 0 } else { v }
    }
    fn bucket(&self, k: u32) -> u64 {
        let n = (self.cap / 32).max(1) as u64;
        if n == 1 { 0 } else { hash_of(k) >> (64 - n.trailing_zeros()) }
    }
    /// A use of an entry.
    fn touch(&mut self, k: u32) {
        let c = self.clock;
        if let Some(e) = self.m.get_mut(&k) {
            e.stamp = c;
            e.tracked = true;
        }
    }
    fn put(&mut self, k: u32, tag: u32, v: u32) {
        if self.kind == Cache {
            let bkt = self.bucket(k);
            let members: Vec<(u32, E)> = self.m.iter().filter(|(x, _)| self.bucket(**x) == bkt).map(|(x, e)| (*x, *e)).collect();
            let got = g().evicted.take();
            if members.len() >= 32 {
                let lru = members.iter().min_by_key(|(_, e)| e.stamp).unwrap();
                let tracked = members.iter().filter(|(_, e)| e.tracked).min_by_key(|(_, e)| e.stamp);
                match got {
                    None if self.lenient => self.may_evict = members.iter().map(|(x, _)| *x).collect(),
                    None => viol("no-eviction", || format!("a key was put into a bucket with {} entries and nothing was evicted", members.len())),
                    Some((ek, et, ev)) => {
                        match self.m.get(&ek) {
                            Some(e) if e.tag == et && e.v == ev => (),
                            x => viol("evicted-wrong", || format!("the evicted entry ({ek:#x}, tag {et}, {ev}) is not what the cache held: {x:?}")),
                        }
                        if self.lenient {
                            if !members.iter().any(|(x, _)| *x == ek) {
                                viol("evicted-wrong", || format!("{ek:#x} was evicted from another bucket"));
                            }
                        } else if ek != lru.0 {
                            let untracked = members.iter().any(|(x, e)| *x == ek && !e.tracked);
                            let as_documented = match tracked {
                                Some(t) => ek == t.0,
                                None => untracked,
                            };
                            if as_documented && members.iter().any(|(_, e)| !e.tracked) {
                                known("lru-after-resize", || {
                                    format!("evicted {ek:#x}, but {:#x} was used less recently (the bucket was relocated since)", lru.0)
                                });
                            } else {
                                viol("lru-victim", || {
                                    let mut o: Vec<_> = members.iter().map(|(x, e)| (e.stamp, format!("{x:#x}"), e.tracked)).collect();
                                    o.sort();
                                    format!("evicted {ek:#x}, but the least recently used entry of the bucket is {:#x}; by last use: {o:?}", lru.0)
                                });
                            }
                        }
                        self.m.remove(&ek);
                    }
                }
            } else if let Some((ek, ..)) = got {
                viol("early-eviction", || format!("{ek:#x} was evicted although its bucket holds {} entries", members.len()));
                self.m.remove(&ek);
            }
        }
        let stamp = self.clock;
        let v = self.norm(v);
        self.m.insert(k, E { tag, v, stamp, tracked: true });
    }
    /// The capacity changed during the operation: entries are relocated without their history.
    pub fn resized(&mut self, cap: usize) {
        if cap != self.cap {
            self.cap = cap;
            for e in self.m.values_mut() {
                e.tracked = false;
            }
        }
    }

    /// Applies an operation; `tag` identifies the key instance it supplies, `cap` is the capacity
    /// afterwards.
    pub fn apply(&mut self, op: Op, tag: u32, cap: usize) -> (Obs, Seen) {
        let val = self.val();
        self.clock += 1;
        // The operation takes place in the old bucket array, from which the entries are moved
        // when they are accessed next.
        let r = self.apply_inner(op, tag, val);
        self.resized(cap);
        if let Some((ek, ..)) = g().evicted.take() {
            viol("early-eviction", || format!("{ek:#x} was evicted by {op:?}"));
        }
        r
    }

    fn apply_inner(&mut self, op: Op, tag: u32, val: u32) -> (Obs, Seen) {
        let kd = self.kind;
        let n = self.m.len();
        let cur = |k: u32| self.m.get(&k).copied();
        let none = obs(&[NONE]);
        let mut seen = Seen::Nothing;
        let o = match op {
            Ins(k) => match cur(k) {
                Some(_) => obs(&[1, tag, self.norm(val)]),
                None => {
                    self.put(k, tag, val);
                    obs(&[0])
                }
            },
            Ups(k) => match cur(k) {
                Some(e) => {
                    self.m.get_mut(&k).unwrap().v = val;
                    obs(&[e.v])
                }
                None => {
                    self.put(k, tag, val);
                    none
                }
            },
            Rem(k) => {
                let r = self.m.remove(&k);
                match (kd, r) {
                    (Index, r) => obs(&[b(r.is_some())]),
                    (_, Some(e)) => obs(&[e.tag, e.v]),
                    _ => none,
                }
            }
            RemIf(k, yes) => match cur(k) {
                None => none,
                Some(e) => {
                    if yes {
                        self.m.remove(&k);
                        if kd == Index { obs(&[e.v, 1]) } else { obs(&[e.v, e.tag, e.v]) }
                    } else if kd == Index {
                        obs(&[e.v, 0])
                    } else {
                        obs(&[e.v, NONE])
                    }
                }
            },
            RemIfMut(k) => match cur(k) {
                None => none,
                Some(e) => {
                    self.m.get_mut(&k).unwrap().v = val;
                    obs(&[e.v, NONE])
                }
            },
            Read(k) | PeekWith(k) => cur(k).map_or(none, |e| obs(&[e.tag, e.v])),
            PeekG(k) => cur(k).map_or(none, |e| obs(&[e.v])),
            Has(k) => obs(&[b(cur(k).is_some())]),
            Upd(k) => match cur(k) {
                None => none,
                Some(e) => {
                    self.m.get_mut(&k).unwrap().v = val;
                    obs(&[e.tag, e.v, val])
                }
            },
            GetSet(k) => match cur(k) {
                None => none,
                Some(e) => {
                    self.touch(k);
                    self.m.get_mut(&k).unwrap().v = val;
                    obs(&[e.tag, e.v, e.v, val])
                }
            },
            GetMut(k) => match cur(k) {
                None => none,
                Some(e) => {
                    self.touch(k);
                    self.m.get_mut(&k).unwrap().v = val;
                    obs(&[e.v, val])
                }
            },
            GetRem(k) => match self.m.remove(&k) {
                None => none,
                Some(e) => {
                    if kd == Index {
                        obs(&[1])
                    } else {
                        obs(&[e.tag, e.v])
                    }
                }
            },
            GetRemV(k) => self.m.remove(&k).map_or(none, |e| obs(&[e.v])),
            GetRemAnd(k) => match self.m.remove(&k) {
                None => none,
                Some(e) => {
                    if kd == Index {
                        obs(&[1])
                    } else {
                        obs(&[e.tag, e.v])
                    }
                }
            },
            GetNext(k) => match cur(k) {
                None => none,
                Some(e) => {
                    self.touch(k);
                    obs(&[e.v])
                }
            },
            EntOr(k) | EntOrWith(k) | EntOrKey(k) | EntDef(k) => {
                let called = match cur(k) {
                    Some(_) => 0,
                    None => {
                        self.put(k, tag, if matches!(op, EntDef(_)) { 7 } else { val });
                        1
                    }
                };
                let e = self.m[&k];
                obs(&[e.tag, e.v, if matches!(op, EntOrWith(_) | EntOrKey(_)) { called } else { 0 }])
            }
            EntMod(k) => {
                match cur(k) {
                    Some(_) => self.m.get_mut(&k).unwrap().v = val + 500_000,
                    None => self.put(k, tag, val),
                }
                let e = self.m[&k];
                obs(&[e.tag, e.v])
            }
            EntIns(k) | TryEnt(k) => {
                match cur(k) {
                    Some(_) => self.m.get_mut(&k).unwrap().v = val,
                    None => self.put(k, tag, val),
                }
                let e = self.m[&k];
                obs(&[e.tag, e.v])
            }
            EntKey(k) => match cur(k) {
                Some(e) => obs(&[0, e.tag]),
                None => obs(&[1, tag, tag]),
            },
            EntRem(k) => match self.m.remove(&k) {
                None => obs(&[NONE, tag]),
                Some(e) => {
                    if kd == Index {
                        obs(&[1])
                    } else {
                        obs(&[e.tag, e.v])
                    }
                }
            },
            Repl(k) => match cur(k) {
                Some(e) => {
                    self.m.get_mut(&k).unwrap().tag = tag;
                    obs(&[1, e.tag, tag, e.v])
                }
                None => {
                    self.put(k, tag, val);
                    obs(&[0, tag, self.norm(val)])
                }
            },
            ReplDrop(k) => match self.m.remove(&k) {
                Some(e) => obs(&[1, e.tag, tag, e.v]),
                None => obs(&[0, tag]),
            },
            Walk => {
                seen = Seen::All;
                obs(&[n as u32])
            }
            WalkRem(k) => {
                seen = Seen::All;
                match self.m.remove(&k) {
                    Some(e) => {
                        if kd == Index {
                            obs(&[1])
                        } else {
                            obs(&[e.tag, e.v])
                        }
                    }
                    None => none,
                }
            }
            WalkRemAll => {
                seen = Seen::All;
                self.m.clear();
                obs(&[n as u32])
            }
            WalkSet => {
                seen = Seen::All;
                for e in self.m.values_mut() {
                    e.v += 1;
                }
                obs(&[n as u32])
            }
            Any(k) => cur(k).map_or(none, |e| obs(&[e.tag, e.v])),
            AnyRem(k) => match self.m.remove(&k) {
                Some(e) => obs(&[e.tag, e.v]),
                None => none,
            },
            Iter | IterG => {
                seen = Seen::All;
                obs(&[1])
            }
            IterStop(s) | MutStop(s) => {
                seen = Seen::Some(n.min(s as usize));
                obs(&[b(n < s as usize)])
            }
            MutAll => {
                seen = Seen::All;
                if kd != Set {
                    for e in self.m.values_mut() {
                        e.v += 1;
                    }
                }
                obs(&[1])
            }
            MutRem(k) => {
                seen = Seen::All;
                match self.m.remove(&k) {
                    Some(e) => obs(&[1, e.tag, e.v]),
                    None => obs(&[1]),
                }
            }
            MutRemAll => {
                seen = Seen::All;
                self.m.clear();
                obs(&[1])
            }
            RetNot(k) => {
                seen = Seen::All;
                self.m.remove(&k);
                obs(&[])
            }
            RetMut => {
                seen = Seen::All;
                for e in self.m.values_mut() {
                    e.v += 1;
                }
                obs(&[])
            }
            RetNone => {
                seen = Seen::All;
                self.m.clear();
                obs(&[])
            }
            RetOdd => {
                seen = Seen::All;
                self.m.retain(|k, _| k % 2 == 1);
                obs(&[])
            }
            Clear => {
                self.m.clear();
                obs(&[])
            }
            Len => obs(&[n as u32, b(n == 0)]),
            Resv(_) => obs(&[1]),
            Blk(..) | BlkRem(..) => unreachable!(),
        };
        (o, seen)
    }
}

/// A hash container under test.
pub trait Sut: Sized {
    const KIND: Kind;
    fn make(cap: usize, max: usize) -> Self;
    fn exec(&self, op: Op, asy: bool, val: u32) -> Obs;
    /// Key, tag and value of every entry, by iteration.
    fn dump(&self, out: &mut Vec<(u32, u32, u32)>);
    fn read(&self, k: u32) -> Option<(u32, u32)>;
    fn len(&self) -> usize;
    fn empty(&self) -> bool;
    fn cap(&self) -> usize;
    fn cap_range(&self) -> (usize, usize);
}

pub fn step<S: Sut>(c: &S, m: &mut Model, op: Op, asy: bool) {
    match op {
        Blk(s, n) => {
            for i in 0..n {
                step1(c, m, Ins(series(s, i)), asy);
            }
        }
        BlkRem(s, n) => {
            for i in 0..n {
                step1(c, m, Rem(series(s, i)), asy);
            }
        }
        _ => step1(c, m, op, asy),
    }
}

fn step1<S: Sut>(c: &S, m: &mut Model, op: Op, asy: bool) {
    let tag = g().tag + 1;
    g().seen.clear();
    g().evicted = None;
    let o = c.exec(op, asy, m.val());
    let mut before: Vec<(u32, u32)> = Vec::new();
    let seen_n = g().seen.len();
    if seen_n > 0 || matches!(op, Walk | WalkRem(_) | WalkRemAll | WalkSet | Iter | IterG | MutAll | MutRem(_) | MutRemAll | RetNot(_) | RetMut | RetNone | RetOdd) {
        before = m.m.iter().map(|(k, e)| (*k, e.v)).collect();
    }
    let cap0 = m.cap;
    let (e, seen) = m.apply(op, tag, c.cap());
    if e != o {
        viol("wrong-result", || format!("{op:?}{} returned {:x?} instead of {:x?}", if asy { " (async)" } else { "" }, &o.v[..o.n], &e.v[..e.n]));
    }
    check_seen(op, seen, &before, cap0 != m.cap);
}

pub fn check_seen(op: Op, seen: Seen, before: &[(u32, u32)], resized: bool) {
    let s = &mut g().seen;
    s.sort_unstable();
    if resized && matches!(op, WalkRem(_) | GetRemAnd(_)) {
        // As documented: the cursor may return to entries if the array is replaced.
        s.dedup();
    }
    if s.windows(2).any(|w| w[0].0 == w[1].0) {
        viol("visited-twice", || format!("{op:?} visited an entry twice: {:x?}", g().seen));
    }
    for x in s.iter() {
        if before.binary_search(x).is_err() {
            viol("visited-wrong", || format!("{op:?} visited {x:x?}, which is not in the container"));
        }
    }
    match seen {
        Seen::Nothing => (),
        Seen::All => {
            if s.len() != before.len() {
                viol("not-visited", || format!("{op:?} visited {} entries instead of {}", g().seen.len(), before.len()));
            }
        }
        Seen::Some(n) => {
            if s.len() != n {
                viol("not-visited", || format!("{op:?} visited {} entries instead of {n}", g().seen.len()));
            }
        }
    }
}

/// Compares the container with the model.
pub fn full_check<S: Sut>(c: &S, m: &Model, extra: &[u32], buf: &mut Vec<(u32, u32, u32)>) {
    let n = m.m.len();
    if c.len() != n || c.empty() != (n == 0) {
        viol("wrong-length", || format!("len {} (empty: {}) instead of {n}", c.len(), c.empty()));
    }
    buf.clear();
    c.dump(buf);
    buf.sort_unstable();
    if buf.len() != n || !buf.iter().zip(&m.m).all(|(x, (k, e))| *x == (*k, e.tag, e.v)) {
        viol("wrong-contents", || format!("the entries are {buf:x?} instead of {:x?}", m.m.iter().map(|(k, e)| (*k, e.tag, e.v)).collect::<Vec<_>>()));
    }
    for (k, e) in &m.m {
        let r = c.read(*k);
        if r != Some((e.tag, e.v)) {
            viol("wrong-lookup", || format!("reading {k:#x} yields {r:x?} instead of ({:x}, {:x})", e.tag, e.v));
        }
    }
    for k in extra {
        if !m.m.contains_key(k) {
            let r = c.read(*k);
            if r.is_some() {
                viol("wrong-lookup", || format!("reading {k:#x} yields {r:x?}, but it is absent"));
            }
        }
    }
    let cap = c.cap();
    let (lo, hi) = c.cap_range();
    let allowed = match S::KIND {
        Cache => cap % 64 == 0 && cap <= m.max && hi == m.max && n <= cap && lo <= hi,
        _ => (cap == 0 || cap % 64 == 0) && lo <= hi,
    };
    if !allowed || (cap != 0 && cap < lo && !g().growing) {
        viol("wrong-capacity", || format!("capacity {cap}, range {lo}..={hi}, {n} entries, maximum {}", m.max));
    }
    let (lk, lv) = (g().live_k, g().live_v);
    let n = n as i64 + g().other;
    let ok = match S::KIND {
        Map | Cache => lk == n && lv == n,
        Set => lk == n && lv == 0,
        Index => lk >= n && lv >= n,
    };
    if !ok {
        viol("instances", || format!("{lk} keys and {lv} values are alive for {n} entries"));
    }
}
