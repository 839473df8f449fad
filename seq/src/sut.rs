//! Executes the operations on the real hash containers.

use scc::hash_cache::{Entry as CEntry, ReplaceResult as CReplace};
use scc::hash_index::Entry as IEntry;
use scc::hash_map::{Entry as MEntry, ReplaceResult as MReplace};
use scc::{Guard, HashCache, HashIndex, HashMap, HashSet};

use crate::base::*;
use crate::model::Op::*;
use crate::model::*;

pub type Hm = HashMap<K, V, Bh>;
pub type Hs_ = HashSet<K, Bh>;
pub type Hi = HashIndex<K, V, Bh>;
pub type Hc = HashCache<K, V, Bh>;

/// The synchronous or the asynchronous variant.
macro_rules! fl {
    ($a:expr, $s:expr, $f:expr) => {
        if $a { blk($f) } else { $s }
    };
}

fn kv(r: &Option<(K, V)>) -> Obs {
    match r {
        None => obs(&[NONE]),
        Some((k, v)) => obs(&[k.tag(), v.get()]),
    }
}
fn ev(e: &Option<(K, V)>) {
    g().evicted = e.as_ref().map(|(k, v)| (k.get(), k.tag(), v.get()));
}
fn b(x: bool) -> u32 {
    u32::from(x)
}

impl Sut for Hm {
    const KIND: Kind = Kind::Map;
    fn make(cap: usize, _: usize) -> Self {
        if cap == 0 { HashMap::with_hasher(Bh) } else { HashMap::with_capacity_and_hasher(cap, Bh) }
    }
    fn exec(&self, op: Op, a: bool, val: u32) -> Obs {
        let mut o = Obs::new();
        match op {
            Ins(k) => match fl!(a, self.insert_sync(K::new(k), V::new(val)), self.insert_async(K::new(k), V::new(val))) {
                Ok(()) => *o.p(0),
                Err((k, v)) => *o.p(1).p(k.tag()).p(v.get()),
            },
            Ups(k) => match fl!(a, self.upsert_sync(K::new(k), V::new(val)), self.upsert_async(K::new(k), V::new(val))) {
                Some(v) => *o.p(v.get()),
                None => *o.p(NONE),
            },
            Rem(k) => kv(&fl!(a, self.remove_sync(&Q(k)), self.remove_async(&Q(k)))),
            RemIf(k, yes) => {
                let mut seen = NONE;
                let f = |v: &mut V| {
                    tick();
                    seen = v.get();
                    yes
                };
                let r = fl!(a, self.remove_if_sync(&Q(k), f), self.remove_if_async(&Q(k), f));
                remif(seen, &r)
            }
            RemIfMut(k) => {
                let mut seen = NONE;
                let f = |v: &mut V| {
                    tick();
                    seen = v.get();
                    v.set(val);
                    tick();
                    false
                };
                let r = fl!(a, self.remove_if_sync(&Q(k), f), self.remove_if_async(&Q(k), f));
                remif(seen, &r)
            }
            Read(k) => {
                let f = |k: &K, v: &V| {
                    tick();
                    obs(&[k.tag(), v.get()])
                };
                fl!(a, self.read_sync(&Q(k), f), self.read_async(&Q(k), f)).unwrap_or(obs(&[NONE]))
            }
            Has(k) => *o.p(b(fl!(a, self.contains_sync(&Q(k)), self.contains_async(&Q(k))))),
            Upd(k) => {
                let f = |k: &K, v: &mut V| {
                    tick();
                    let old = v.get();
                    v.set(val);
                    tick();
                    obs(&[k.tag(), old, v.get()])
                };
                fl!(a, self.update_sync(&Q(k), f), self.update_async(&Q(k), f)).unwrap_or(obs(&[NONE]))
            }
            GetSet(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(mut e) => {
                    tick();
                    o.p(e.key().tag()).p(e.get().get());
                    let old = e.insert(V::new(val));
                    *o.p(old.get()).p(e.get().get())
                }
            },
            GetMut(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(mut e) => {
                    tick();
                    o.p(e.get().get());
                    e.get_mut().set(val);
                    *o.p(e.get().get())
                }
            },
            GetRem(k) => kv(&fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))).map(|e| e.remove_entry())),
            GetRemV(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(e) => *o.p(e.remove().get()),
            },
            GetRemAnd(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(e) => {
                    tick();
                    let (r, mut n) = fl!(a, e.remove_and_sync(), e.remove_and_async());
                    o.p(r.0.tag()).p(r.1.get());
                    while let Some(e) = n {
                        tick();
                        see(e.key().get(), e.get().get());
                        n = fl!(a, e.next_sync(), e.next_async());
                    }
                    o
                }
            },
            GetNext(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(e) => {
                    tick();
                    o.p(e.get().get());
                    let mut n = Some(e);
                    while let Some(e) = n {
                        tick();
                        see(e.key().get(), e.get().get());
                        n = fl!(a, e.next_sync(), e.next_async());
                    }
                    o
                }
            },
            EntOr(k) => {
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_insert(V::new(val));
                *o.p(e.key().tag()).p(e.get().get()).p(0)
            }
            EntOrWith(k) => {
                let mut c = 0;
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_insert_with(|| {
                    tick();
                    c += 1;
                    V::new(val)
                });
                *o.p(e.key().tag()).p(e.get().get()).p(c)
            }
            EntOrKey(k) => {
                let mut c = 0;
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_insert_with_key(|k2| {
                    tick();
                    c += b(k2.get() == k);
                    V::new(val)
                });
                *o.p(e.key().tag()).p(e.get().get()).p(c)
            }
            EntDef(k) => {
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_default();
                *o.p(e.key().tag()).p(e.get().get()).p(0)
            }
            EntMod(k) => {
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k)))
                    .and_modify(|v| {
                        tick();
                        v.set(val + 500_000)
                    })
                    .or_insert(V::new(val));
                *o.p(e.key().tag()).p(e.get().get())
            }
            EntIns(k) => {
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).insert_entry(V::new(val));
                *o.p(e.key().tag()).p(e.get().get())
            }
            EntKey(k) => match fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))) {
                MEntry::Occupied(e) => *o.p(0).p(e.key().tag()),
                MEntry::Vacant(e) => {
                    o.p(1).p(e.key().tag());
                    *o.p(e.into_key().tag())
                }
            },
            EntRem(k) => match fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))) {
                MEntry::Occupied(e) => kv(&Some(e.remove_entry())),
                e => *o.p(NONE).p(e.key().tag()),
            },
            TryEnt(k) => match self.try_entry(K::new(k)) {
                None => {
                    viol("try-failed", || "try_entry failed without contention".into());
                    o
                }
                Some(e) => {
                    tick();
                    let e = e.insert_entry(V::new(val));
                    *o.p(e.key().tag()).p(e.get().get())
                }
            },
            Repl(k) => match fl!(a, self.replace_sync(K::new(k)), self.replace_async(K::new(k))) {
                MReplace::Replaced(e, old) => *o.p(1).p(old.tag()).p(e.key().tag()).p(e.get().get()),
                MReplace::NotReplaced(e) => {
                    let e = e.insert_entry(V::new(val));
                    *o.p(0).p(e.key().tag()).p(e.get().get())
                }
            },
            ReplDrop(k) => match fl!(a, self.replace_sync(K::new(k)), self.replace_async(K::new(k))) {
                MReplace::Replaced(e, old) => {
                    let (k, v) = e.remove_entry();
                    *o.p(1).p(old.tag()).p(k.tag()).p(v.get())
                }
                MReplace::NotReplaced(e) => *o.p(0).p(e.into_key().tag()),
            },
            Walk => {
                let mut n = fl!(a, self.begin_sync(), self.begin_async());
                let mut c = 0;
                while let Some(e) = n {
                    tick();
                    see(e.key().get(), e.get().get());
                    c += 1;
                    n = fl!(a, e.next_sync(), e.next_async());
                }
                *o.p(c)
            }
            WalkRem(k) => {
                let mut n = fl!(a, self.begin_sync(), self.begin_async());
                o = obs(&[NONE]);
                while let Some(e) = n {
                    tick();
                    see(e.key().get(), e.get().get());
                    if e.key().get() == k {
                        let (r, x) = fl!(a, e.remove_and_sync(), e.remove_and_async());
                        o = kv(&Some(r));
                        n = x;
                    } else {
                        n = fl!(a, e.next_sync(), e.next_async());
                    }
                }
                o
            }
            WalkRemAll => {
                let mut n = fl!(a, self.begin_sync(), self.begin_async());
                let mut c = 0;
                while let Some(e) = n {
                    tick();
                    see(e.key().get(), e.get().get());
                    c += 1;
                    n = fl!(a, e.remove_and_sync(), e.remove_and_async()).1;
                }
                *o.p(c)
            }
            WalkSet => {
                let mut n = fl!(a, self.begin_sync(), self.begin_async());
                let mut c = 0;
                while let Some(mut e) = n {
                    tick();
                    see(e.key().get(), e.get().get());
                    c += 1;
                    let v = e.get().get();
                    e.set(v + 1);
                    n = fl!(a, e.next_sync(), e.next_async());
                }
                *o.p(c)
            }
            Any(k) | AnyRem(k) => {
                let f = |x: &K, v: &V| {
                    tick();
                    see(x.get(), v.get());
                    x.get() == k
                };
                match fl!(a, self.any_sync(f), self.any_async(f)) {
                    None => *o.p(NONE),
                    Some(e) => {
                        tick();
                        if matches!(op, Any(_)) {
                            *o.p(e.key().tag()).p(e.get().get())
                        } else {
                            kv(&Some(e.remove_entry()))
                        }
                    }
                }
            }
            Iter => {
                let f = |k: &K, v: &V| {
                    tick();
                    see(k.get(), v.get());
                    true
                };
                *o.p(b(fl!(a, self.iter_sync(f), self.iter_async(f))))
            }
            IterStop(s) => {
                let mut n = 0;
                let f = |k: &K, v: &V| {
                    tick();
                    see(k.get(), v.get());
                    n += 1;
                    n < s
                };
                *o.p(b(fl!(a, self.iter_sync(f), self.iter_async(f))))
            }
            MutAll => {
                let f = |mut e: scc::hash_map::ConsumableEntry<'_, K, V>| {
                    tick();
                    see(e.0.get(), e.1.get());
                    let v = e.1.get();
                    e.1.set(v + 1);
                    tick();
                    true
                };
                *o.p(b(fl!(a, self.iter_mut_sync(f), self.iter_mut_async(f))))
            }
            MutRem(_) | MutRemAll => {
                let mut r = None;
                let f = |e: scc::hash_map::ConsumableEntry<'_, K, V>| {
                    tick();
                    see(e.0.get(), e.1.get());
                    match op {
                        MutRem(k) if e.0.get() == k => r = Some(e.consume()),
                        MutRemAll => drop(e.consume()),
                        _ => (),
                    }
                    tick();
                    true
                };
                o.p(b(fl!(a, self.iter_mut_sync(f), self.iter_mut_async(f))));
                if let Some((k, v)) = r {
                    o.p(k.tag()).p(v.get());
                }
                o
            }
            MutStop(s) => {
                let mut n = 0;
                let f = |e: scc::hash_map::ConsumableEntry<'_, K, V>| {
                    tick();
                    see(e.0.get(), e.1.get());
                    n += 1;
                    n < s
                };
                *o.p(b(fl!(a, self.iter_mut_sync(f), self.iter_mut_async(f))))
            }
            RetNot(_) | RetMut | RetNone | RetOdd => {
                let f = |k: &K, v: &mut V| retained(op, k, v);
                fl!(a, self.retain_sync(f), self.retain_async(f));
                o
            }
            Clear => {
                fl!(a, self.clear_sync(), self.clear_async());
                o
            }
            Len => *o.p(self.len() as u32).p(b(self.is_empty())),
            Resv(n) => *o.p(b(self.reserve(n as usize).is_some_and(|r| r.additional_capacity() >= n as usize && *self.capacity_range().start() >= n as usize))),
            _ => unreachable!("{op:?}"),
        }
    }
    fn dump(&self, out: &mut Vec<(u32, u32, u32)>) {
        self.iter_sync(|k, v| {
            out.push((k.get(), k.tag(), v.get()));
            true
        });
    }
    fn read(&self, k: u32) -> Option<(u32, u32)> {
        self.read_sync(&Q(k), |k, v| (k.tag(), v.get()))
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn cap_range(&self) -> (usize, usize) {
        let r = self.capacity_range();
        (*r.start(), *r.end())
    }
}

fn retained(op: Op, k: &K, v: &mut V) -> bool {
    tick();
    see(k.get(), v.get());
    let r = match op {
        RetNot(x) => k.get() != x,
        RetMut => {
            let x = v.get();
            v.set(x + 1);
            true
        }
        RetOdd => k.get() % 2 == 1,
        _ => false,
    };
    tick();
    r
}
fn remif(seen: u32, r: &Option<(K, V)>) -> Obs {
    let mut o = Obs::new();
    if seen == NONE {
        return *o.p(NONE);
    }
    o.p(seen);
    match r {
        Some((k, v)) => *o.p(k.tag()).p(v.get()),
        None => *o.p(NONE),
    }
}

impl Sut for Hc {
    const KIND: Kind = Kind::Cache;
    fn make(cap: usize, max: usize) -> Self {
        if cap == 0 && max == 256 { HashCache::with_hasher(Bh) } else { HashCache::with_capacity_and_hasher(cap, max, Bh) }
    }
    fn exec(&self, op: Op, a: bool, val: u32) -> Obs {
        let mut o = Obs::new();
        match op {
            Ins(k) => match fl!(a, self.put_sync(K::new(k), V::new(val)), self.put_async(K::new(k), V::new(val))) {
                Ok(e) => {
                    ev(&e);
                    *o.p(0)
                }
                Err((k, v)) => *o.p(1).p(k.tag()).p(v.get()),
            },
            Rem(k) => kv(&fl!(a, self.remove_sync(&Q(k)), self.remove_async(&Q(k)))),
            RemIf(k, yes) => {
                let mut seen = NONE;
                let f = |v: &mut V| {
                    tick();
                    seen = v.get();
                    yes
                };
                let r = fl!(a, self.remove_if_sync(&Q(k), f), self.remove_if_async(&Q(k), f));
                remif(seen, &r)
            }
            RemIfMut(k) => {
                let mut seen = NONE;
                let f = |v: &mut V| {
                    tick();
                    seen = v.get();
                    v.set(val);
                    tick();
                    false
                };
                let r = fl!(a, self.remove_if_sync(&Q(k), f), self.remove_if_async(&Q(k), f));
                remif(seen, &r)
            }
            Read(k) => {
                let f = |k: &K, v: &V| {
                    tick();
                    obs(&[k.tag(), v.get()])
                };
                fl!(a, self.read_sync(&Q(k), f), self.read_async(&Q(k), f)).unwrap_or(obs(&[NONE]))
            }
            Has(k) => *o.p(b(fl!(a, self.contains_sync(&Q(k)), self.contains_async(&Q(k))))),
            GetSet(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(mut e) => {
                    tick();
                    o.p(e.key().tag()).p(e.get().get());
                    let old = e.put(V::new(val));
                    *o.p(old.get()).p(e.get().get())
                }
            },
            GetMut(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(mut e) => {
                    tick();
                    o.p((*e).get());
                    e.set(val);
                    *o.p(e.get().get())
                }
            },
            GetNext(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(e) => *o.p(e.get().get()),
            },
            GetRem(k) => kv(&fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))).map(|e| e.remove_entry())),
            GetRemV(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(e) => *o.p(e.remove().get()),
            },
            EntOr(k) => {
                let (x, e) = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_put(V::new(val));
                ev(&x);
                *o.p(e.key().tag()).p(e.get().get()).p(0)
            }
            EntOrWith(k) => {
                let mut c = 0;
                let (x, e) = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_put_with(|| {
                    tick();
                    c += 1;
                    V::new(val)
                });
                ev(&x);
                *o.p(e.key().tag()).p(e.get().get()).p(c)
            }
            EntOrKey(k) => {
                let mut c = 0;
                let (x, e) = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_put_with_key(|k2| {
                    tick();
                    c += b(k2.get() == k);
                    V::new(val)
                });
                ev(&x);
                *o.p(e.key().tag()).p(e.get().get()).p(c)
            }
            EntDef(k) => {
                let (x, e) = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_default();
                ev(&x);
                *o.p(e.key().tag()).p(e.get().get()).p(0)
            }
            EntMod(k) => {
                let (x, e) = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k)))
                    .and_modify(|v| {
                        tick();
                        v.set(val + 500_000)
                    })
                    .or_put(V::new(val));
                ev(&x);
                *o.p(e.key().tag()).p(e.get().get())
            }
            EntIns(k) => {
                let (x, e) = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).put_entry(V::new(val));
                ev(&x);
                *o.p(e.key().tag()).p(e.get().get())
            }
            EntKey(k) => match fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))) {
                CEntry::Occupied(e) => *o.p(0).p(e.key().tag()),
                CEntry::Vacant(e) => {
                    o.p(1).p(e.key().tag());
                    *o.p(e.into_key().tag())
                }
            },
            EntRem(k) => match fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))) {
                CEntry::Occupied(e) => kv(&Some(e.remove_entry())),
                e => *o.p(NONE).p(e.key().tag()),
            },
            TryEnt(k) => match self.try_entry(K::new(k)) {
                None => {
                    viol("try-failed", || "try_entry failed without contention".into());
                    o
                }
                Some(e) => {
                    tick();
                    let (x, e) = e.put_entry(V::new(val));
                    ev(&x);
                    *o.p(e.key().tag()).p(e.get().get())
                }
            },
            Repl(k) => match fl!(a, self.replace_sync(K::new(k)), self.replace_async(K::new(k))) {
                CReplace::Replaced(e, old) => *o.p(1).p(old.tag()).p(e.key().tag()).p(e.get().get()),
                CReplace::NotReplaced(e) => {
                    let (x, e) = e.put_entry(V::new(val));
                    ev(&x);
                    *o.p(0).p(e.key().tag()).p(e.get().get())
                }
            },
            ReplDrop(k) => match fl!(a, self.replace_sync(K::new(k)), self.replace_async(K::new(k))) {
                CReplace::Replaced(e, old) => {
                    let (k, v) = e.remove_entry();
                    *o.p(1).p(old.tag()).p(k.tag()).p(v.get())
                }
                CReplace::NotReplaced(e) => *o.p(0).p(e.into_key().tag()),
            },
            Iter => {
                let f = |k: &K, v: &V| {
                    tick();
                    see(k.get(), v.get());
                    true
                };
                *o.p(b(fl!(a, self.iter_sync(f), self.iter_async(f))))
            }
            IterStop(s) => {
                let mut n = 0;
                let f = |k: &K, v: &V| {
                    tick();
                    see(k.get(), v.get());
                    n += 1;
                    n < s
                };
                *o.p(b(fl!(a, self.iter_sync(f), self.iter_async(f))))
            }
            MutAll => {
                let f = |mut e: scc::hash_cache::ConsumableEntry<'_, K, V>| {
                    tick();
                    see(e.0.get(), e.1.get());
                    let v = e.1.get();
                    e.1.set(v + 1);
                    tick();
                    true
                };
                *o.p(b(fl!(a, self.iter_mut_sync(f), self.iter_mut_async(f))))
            }
            MutRem(_) | MutRemAll => {
                let mut r = None;
                let f = |e: scc::hash_cache::ConsumableEntry<'_, K, V>| {
                    tick();
                    see(e.0.get(), e.1.get());
                    match op {
                        MutRem(k) if e.0.get() == k => r = Some(e.consume()),
                        MutRemAll => drop(e.consume()),
                        _ => (),
                    }
                    tick();
                    true
                };
                o.p(b(fl!(a, self.iter_mut_sync(f), self.iter_mut_async(f))));
                if let Some((k, v)) = r {
                    o.p(k.tag()).p(v.get());
                }
                o
            }
            MutStop(s) => {
                let mut n = 0;
                let f = |e: scc::hash_cache::ConsumableEntry<'_, K, V>| {
                    tick();
                    see(e.0.get(), e.1.get());
                    n += 1;
                    n < s
                };
                *o.p(b(fl!(a, self.iter_mut_sync(f), self.iter_mut_async(f))))
            }
            RetNot(_) | RetMut | RetNone | RetOdd => {
                let f = |k: &K, v: &mut V| retained(op, k, v);
                fl!(a, self.retain_sync(f), self.retain_async(f));
                o
            }
            Clear => {
                fl!(a, self.clear_sync(), self.clear_async());
                o
            }
            Len => *o.p(self.len() as u32).p(b(self.is_empty())),
            _ => unreachable!("{op:?}"),
        }
    }
    fn dump(&self, out: &mut Vec<(u32, u32, u32)>) {
        self.iter_sync(|k, v| {
            out.push((k.get(), k.tag(), v.get()));
            true
        });
    }
    fn read(&self, k: u32) -> Option<(u32, u32)> {
        self.read_sync(&Q(k), |k, v| (k.tag(), v.get()))
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn cap_range(&self) -> (usize, usize) {
        let r = self.capacity_range();
        (*r.start(), *r.end())
    }
}

impl Sut for Hi {
    const KIND: Kind = Kind::Index;
    fn make(cap: usize, _: usize) -> Self {
        if cap == 0 { HashIndex::with_hasher(Bh) } else { HashIndex::with_capacity_and_hasher(cap, Bh) }
    }
    fn exec(&self, op: Op, a: bool, val: u32) -> Obs {
        let mut o = Obs::new();
        match op {
            Ins(k) => match fl!(a, self.insert_sync(K::new(k), V::new(val)), self.insert_async(K::new(k), V::new(val))) {
                Ok(()) => *o.p(0),
                Err((k, v)) => *o.p(1).p(k.tag()).p(v.get()),
            },
            Rem(k) => *o.p(b(fl!(a, self.remove_sync(&Q(k)), self.remove_async(&Q(k))))),
            RemIf(k, yes) => {
                let mut seen = NONE;
                let f = |v: &V| {
                    tick();
                    seen = v.get();
                    yes
                };
                let r = fl!(a, self.remove_if_sync(&Q(k), f), self.remove_if_async(&Q(k), f));
                if seen == NONE { *o.p(NONE) } else { *o.p(seen).p(b(r)) }
            }
            Has(k) => *o.p(b(self.contains(&Q(k)))),
            PeekWith(k) | Read(k) => self
                .peek_with(&Q(k), |k, v| {
                    tick();
                    obs(&[k.tag(), v.get()])
                })
                .unwrap_or(obs(&[NONE])),
            PeekG(k) => {
                let gd = Guard::new();
                match self.peek(&Q(k), &gd) {
                    None => *o.p(NONE),
                    Some(v) => *o.p(v.get()),
                }
            }
            GetSet(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(mut e) => {
                    tick();
                    o.p(e.key().tag()).p(e.get().get()).p(e.get().get());
                    e.update(V::new(val));
                    *o.p(e.get().get())
                }
            },
            GetMut(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(mut e) => {
                    tick();
                    o.p((*e).get());
                    unsafe { e.get_mut().set(val) };
                    *o.p(e.get().get())
                }
            },
            GetRem(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(e) => {
                    tick();
                    e.remove_entry();
                    *o.p(1)
                }
            },
            GetRemAnd(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(e) => {
                    tick();
                    let mut n = fl!(a, e.remove_and_sync(), e.remove_and_async());
                    o.p(1);
                    while let Some(e) = n {
                        tick();
                        see(e.key().get(), e.get().get());
                        n = fl!(a, e.next_sync(), e.next_async());
                    }
                    o
                }
            },
            GetNext(k) => match fl!(a, self.get_sync(&Q(k)), self.get_async(&Q(k))) {
                None => *o.p(NONE),
                Some(e) => {
                    tick();
                    o.p(e.get().get());
                    let mut n = Some(e);
                    while let Some(e) = n {
                        tick();
                        see(e.key().get(), e.get().get());
                        n = fl!(a, e.next_sync(), e.next_async());
                    }
                    o
                }
            },
            EntOr(k) => {
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_insert(V::new(val));
                *o.p(e.key().tag()).p(e.get().get()).p(0)
            }
            EntOrWith(k) => {
                let mut c = 0;
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_insert_with(|| {
                    tick();
                    c += 1;
                    V::new(val)
                });
                *o.p(e.key().tag()).p(e.get().get()).p(c)
            }
            EntOrKey(k) => {
                let mut c = 0;
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_insert_with_key(|k2| {
                    tick();
                    c += b(k2.get() == k);
                    V::new(val)
                });
                *o.p(e.key().tag()).p(e.get().get()).p(c)
            }
            EntDef(k) => {
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))).or_default();
                *o.p(e.key().tag()).p(e.get().get()).p(0)
            }
            EntMod(k) => {
                let e = fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k)));
                let e = unsafe {
                    e.and_modify(|v| {
                        tick();
                        v.set(val + 500_000)
                    })
                };
                let e = e.or_insert(V::new(val));
                *o.p(e.key().tag()).p(e.get().get())
            }
            EntKey(k) => match fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))) {
                IEntry::Occupied(e) => *o.p(0).p(e.key().tag()),
                IEntry::Vacant(e) => {
                    o.p(1).p(e.key().tag());
                    *o.p(e.into_key().tag())
                }
            },
            EntRem(k) => match fl!(a, self.entry_sync(K::new(k)), self.entry_async(K::new(k))) {
                IEntry::Occupied(e) => {
                    e.remove_entry();
                    *o.p(1)
                }
                e => *o.p(NONE).p(e.key().tag()),
            },
            TryEnt(k) => match self.try_entry(K::new(k)) {
                None => {
                    viol("try-failed", || "try_entry failed without contention".into());
                    o
                }
                Some(IEntry::Occupied(mut e)) => {
                    e.update(V::new(val));
                    *o.p(e.key().tag()).p(e.get().get())
                }
                Some(IEntry::Vacant(e)) => {
                    let e = e.insert_entry(V::new(val));
                    *o.p(e.key().tag()).p(e.get().get())
                }
            },
            Walk => {
                let mut n = fl!(a, self.begin_sync(), self.begin_async());
                let mut c = 0;
                while let Some(e) = n {
                    tick();
                    see(e.key().get(), e.get().get());
                    c += 1;
                    n = fl!(a, e.next_sync(), e.next_async());
                }
                *o.p(c)
            }
            WalkRem(k) => {
                let mut n = fl!(a, self.begin_sync(), self.begin_async());
                o = obs(&[NONE]);
                while let Some(e) = n {
                    tick();
                    see(e.key().get(), e.get().get());
                    if e.key().get() == k {
                        n = fl!(a, e.remove_and_sync(), e.remove_and_async());
                        o = obs(&[1]);
                    } else {
                        n = fl!(a, e.next_sync(), e.next_async());
                    }
                }
                o
            }
            WalkRemAll => {
                let mut n = fl!(a, self.begin_sync(), self.begin_async());
                let mut c = 0;
                while let Some(e) = n {
                    tick();
                    see(e.key().get(), e.get().get());
                    c += 1;
                    n = fl!(a, e.remove_and_sync(), e.remove_and_async());
                }
                *o.p(c)
            }
            Any(k) | AnyRem(k) => {
                let f = |x: &K, v: &V| {
                    tick();
                    see(x.get(), v.get());
                    x.get() == k
                };
                match fl!(a, self.any_sync(f), self.any_async(f)) {
                    None => *o.p(NONE),
                    Some(e) => {
                        tick();
                        o.p(e.key().tag()).p(e.get().get());
                        if matches!(op, AnyRem(_)) {
                            e.remove_entry();
                        }
                        o
                    }
                }
            }
            Iter => {
                let f = |k: &K, v: &V| {
                    tick();
                    see(k.get(), v.get());
                    true
                };
                *o.p(b(fl!(a, self.iter_sync(f), self.iter_async(f))))
            }
            IterStop(s) => {
                let mut n = 0;
                let f = |k: &K, v: &V| {
                    tick();
                    see(k.get(), v.get());
                    n += 1;
                    n < s
                };
                *o.p(b(fl!(a, self.iter_sync(f), self.iter_async(f))))
            }
            IterG => {
                let gd = Guard::new();
                for (k, v) in self.iter(&gd) {
                    see(k.get(), v.get());
                }
                *o.p(1)
            }
            RetNot(_) | RetNone | RetOdd => {
                let f = |k: &K, v: &V| {
                    tick();
                    see(k.get(), v.get());
                    match op {
                        RetNot(x) => k.get() != x,
                        RetOdd => k.get() % 2 == 1,
                        _ => false,
                    }
                };
                fl!(a, self.retain_sync(f), self.retain_async(f));
                o
            }
            Clear => {
                fl!(a, self.clear_sync(), self.clear_async());
                o
            }
            Len => *o.p(self.len() as u32).p(b(self.is_empty())),
            Resv(n) => *o.p(b(self.reserve(n as usize).is_some_and(|r| r.additional_capacity() >= n as usize && *self.capacity_range().start() >= n as usize))),
            _ => unreachable!("{op:?}"),
        }
    }
    fn dump(&self, out: &mut Vec<(u32, u32, u32)>) {
        let gd = Guard::new();
        for (k, v) in self.iter(&gd) {
            out.push((k.get(), k.tag(), v.get()));
        }
    }
    fn read(&self, k: u32) -> Option<(u32, u32)> {
        self.peek_with(&Q(k), |k, v| (k.tag(), v.get()))
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn cap_range(&self) -> (usize, usize) {
        let r = self.capacity_range();
        (*r.start(), *r.end())
    }
}

impl Sut for Hs_ {
    const KIND: Kind = Kind::Set;
    fn make(cap: usize, _: usize) -> Self {
        if cap == 0 { HashSet::with_hasher(Bh) } else { HashSet::with_capacity_and_hasher(cap, Bh) }
    }
    fn exec(&self, op: Op, a: bool, _val: u32) -> Obs {
        let mut o = Obs::new();
        match op {
            Ins(k) => match fl!(a, self.insert_sync(K::new(k)), self.insert_async(K::new(k))) {
                Ok(()) => *o.p(0),
                Err(k) => *o.p(1).p(k.tag()).p(0),
            },
            Rem(k) => match fl!(a, self.remove_sync(&Q(k)), self.remove_async(&Q(k))) {
                Some(k) => *o.p(k.tag()).p(0),
                None => *o.p(NONE),
            },
            RemIf(k, yes) => {
                let mut c = false;
                let f = || {
                    tick();
                    c = true;
                    yes
                };
                let r = fl!(a, self.remove_if_sync(&Q(k), f), self.remove_if_async(&Q(k), f));
                if !c {
                    return *o.p(NONE);
                }
                match r {
                    Some(k) => *o.p(0).p(k.tag()).p(0),
                    None => *o.p(0).p(NONE),
                }
            }
            Read(k) => {
                let f = |k: &K| {
                    tick();
                    obs(&[k.tag(), 0])
                };
                fl!(a, self.read_sync(&Q(k), f), self.read_async(&Q(k), f)).unwrap_or(obs(&[NONE]))
            }
            Has(k) => *o.p(b(fl!(a, self.contains_sync(&Q(k)), self.contains_async(&Q(k))))),
            Repl(k) => {
                let kk = K::new(k);
                let tag = kk.tag();
                match fl!(a, self.replace_sync(kk), self.replace_async(kk)) {
                    Some(k) => *o.p(1).p(k.tag()).p(tag).p(0),
                    None => *o.p(0).p(tag).p(0),
                }
            }
            Iter => {
                let f = |k: &K| {
                    tick();
                    see(k.get(), 0);
                    true
                };
                *o.p(b(fl!(a, self.iter_sync(f), self.iter_async(f))))
            }
            IterStop(s) => {
                let mut n = 0;
                let f = |k: &K| {
                    tick();
                    see(k.get(), 0);
                    n += 1;
                    n < s
                };
                *o.p(b(fl!(a, self.iter_sync(f), self.iter_async(f))))
            }
            MutAll | MutRem(_) | MutRemAll => {
                let mut r = None;
                let f = |e: scc::hash_set::ConsumableEntry<'_, K>| {
                    tick();
                    see(e.get(), 0);
                    match op {
                        MutRem(k) if e.get() == k => r = Some(e.consume()),
                        MutRemAll => drop(e.consume()),
                        _ => (),
                    }
                    tick();
                    true
                };
                o.p(b(fl!(a, self.iter_mut_sync(f), self.iter_mut_async(f))));
                if let Some(k) = r {
                    o.p(k.tag()).p(0);
                }
                o
            }
            MutStop(s) => {
                let mut n = 0;
                let f = |e: scc::hash_set::ConsumableEntry<'_, K>| {
                    tick();
                    see(e.get(), 0);
                    n += 1;
                    n < s
                };
                *o.p(b(fl!(a, self.iter_mut_sync(f), self.iter_mut_async(f))))
            }
            RetNot(_) | RetNone | RetOdd => {
                let f = |k: &K| {
                    tick();
                    see(k.get(), 0);
                    match op {
                        RetNot(x) => k.get() != x,
                        RetOdd => k.get() % 2 == 1,
                        _ => false,
                    }
                };
                fl!(a, self.retain_sync(f), self.retain_async(f));
                o
            }
            Clear => {
                fl!(a, self.clear_sync(), self.clear_async());
                o
            }
            Len => *o.p(self.len() as u32).p(b(self.is_empty())),
            Resv(n) => *o.p(b(self.reserve(n as usize).is_some_and(|r| r.additional_capacity() >= n as usize && *self.capacity_range().start() >= n as usize))),
            _ => unreachable!("{op:?}"),
        }
    }
    fn dump(&self, out: &mut Vec<(u32, u32, u32)>) {
        self.iter_sync(|k| {
            out.push((k.get(), k.tag(), 0));
            true
        });
    }
    fn read(&self, k: u32) -> Option<(u32, u32)> {
        self.read_sync(&Q(k), |k| (k.tag(), 0))
    }
    fn len(&self) -> usize {
        self.len()
    }
    fn empty(&self) -> bool {
        self.is_empty()
    }
    fn cap(&self) -> usize {
        self.capacity()
    }
    fn cap_range(&self) -> (usize, usize) {
        let r = self.capacity_range();
        (*r.start(), *r.end())
    }
}
