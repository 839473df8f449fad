//! Clones, equality, collecting and serialization.

use std::fmt::Debug;
use std::rc::Rc;

use scc::{HashCache, HashIndex, HashMap, HashSet, TreeIndex};
use serde::de::value::Error;
use serde::de::{DeserializeSeed, Deserializer, Error as _, IntoDeserializer, MapAccess, SeqAccess, Visitor};
use serde::ser::{Impossible, SerializeMap, SerializeSeq, Serializer};
use serde::{Deserialize, Serialize};

use crate::base::*;
use crate::fam::*;
use crate::fault::*;
use crate::hash::*;
use crate::model::*;
use crate::plan::keys;
use crate::sut::*;
use crate::tree::*;

// Keys and values as numbers.
impl Serialize for K {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        tick();
        s.serialize_u64(u64::from(self.tag()) << 32 | u64::from(self.get()))
    }
}
impl Serialize for V {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        tick();
        s.serialize_u64(u64::from(self.get()))
    }
}
impl<'d> Deserialize<'d> for K {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<K, D::Error> {
        tick();
        let x = u64::deserialize(d)?;
        let mut k = K::new(x as u32);
        k.tag = (x >> 32) as u32;
        Ok(k)
    }
}
impl<'d> Deserialize<'d> for V {
    fn deserialize<D: Deserializer<'d>>(d: D) -> Result<V, D::Error> {
        tick();
        Ok(V::new(u64::deserialize(d)? as u32))
    }
}

const NO_FAULT: usize = usize::MAX;

/// Records what is serialized; fails at one of the items.
struct Out {
    items: Vec<u64>,
    announced: Option<usize>,
    map: bool,
    fail_at: usize,
    after_failure: bool,
    ended: bool,
}
impl Out {
    fn new(fail_at: usize) -> Out {
        Out { items: Vec::with_capacity(8192), announced: None, map: false, fail_at, after_failure: false, ended: false }
    }
    fn push(&mut self, x: u64) -> Result<(), Error> {
        if self.items.len() >= self.fail_at {
            self.after_failure = self.items.len() > self.fail_at;
            self.items.push(x);
            return Err(Error::custom("injected"));
        }
        self.items.push(x);
        Ok(())
    }
}
struct Num;
macro_rules! nope {
    ($($f:ident($($t:ty),*) -> $r:ty;)*) => { $(fn $f(self, $(_: $t),*) -> Result<$r, Error> { Err(Error::custom("unexpected")) })* };
}
macro_rules! rest {
    () => {
        nope! {
            serialize_bool(bool) -> Self::Ok; serialize_i8(i8) -> Self::Ok; serialize_i16(i16) -> Self::Ok; serialize_i32(i32) -> Self::Ok;
            serialize_i64(i64) -> Self::Ok; serialize_u8(u8) -> Self::Ok; serialize_u16(u16) -> Self::Ok; serialize_u32(u32) -> Self::Ok;
            serialize_f32(f32) -> Self::Ok; serialize_f64(f64) -> Self::Ok; serialize_char(char) -> Self::Ok; serialize_str(&str) -> Self::Ok;
            serialize_bytes(&[u8]) -> Self::Ok; serialize_none() -> Self::Ok; serialize_unit() -> Self::Ok; serialize_unit_struct(&'static str) -> Self::Ok;
            serialize_unit_variant(&'static str, u32, &'static str) -> Self::Ok;
            serialize_tuple(usize) -> Self::SerializeTuple; serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct;
            serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant;
            serialize_struct(&'static str, usize) -> Self::SerializeStruct;
            serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant;
        }
        fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::custom("unexpected"))
        }
        fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::custom("unexpected"))
        }
        fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Self::Ok, Error> {
            Err(Error::custom("unexpected"))
        }
    };
}
impl Serializer for Num {
    type Ok = u64;
    type Error = Error;
    type SerializeSeq = Impossible<u64, Error>;
    type SerializeTuple = Impossible<u64, Error>;
    type SerializeTupleStruct = Impossible<u64, Error>;
    type SerializeTupleVariant = Impossible<u64, Error>;
    type SerializeMap = Impossible<u64, Error>;
    type SerializeStruct = Impossible<u64, Error>;
    type SerializeStructVariant = Impossible<u64, Error>;
    fn serialize_u64(self, x: u64) -> Result<u64, Error> {
        Ok(x)
    }
    fn serialize_seq(self, _: Option<usize>) -> Result<Self::SerializeSeq, Error> {
        Err(Error::custom("unexpected"))
    }
    fn serialize_map(self, _: Option<usize>) -> Result<Self::SerializeMap, Error> {
        Err(Error::custom("unexpected"))
    }
    rest!();
}
impl Serializer for &mut Out {
    type Ok = ();
    type Error = Error;
    type SerializeSeq = Self;
    type SerializeTuple = Impossible<(), Error>;
    type SerializeTupleStruct = Impossible<(), Error>;
    type SerializeTupleVariant = Impossible<(), Error>;
    type SerializeMap = Self;
    type SerializeStruct = Impossible<(), Error>;
    type SerializeStructVariant = Impossible<(), Error>;
    fn serialize_u64(self, _: u64) -> Result<(), Error> {
        Err(Error::custom("unexpected"))
    }
    fn serialize_seq(self, n: Option<usize>) -> Result<Self, Error> {
        self.announced = n;
        Ok(self)
    }
    fn serialize_map(self, n: Option<usize>) -> Result<Self, Error> {
        self.announced = n;
        self.map = true;
        Ok(self)
    }
    rest!();
}
impl SerializeSeq for &mut Out {
    type Ok = ();
    type Error = Error;
    fn serialize_element<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> {
        let x = x.serialize(Num)?;
        self.push(x)
    }
    fn end(self) -> Result<(), Error> {
        self.ended = true;
        Ok(())
    }
}
impl SerializeMap for &mut Out {
    type Ok = ();
    type Error = Error;
    fn serialize_key<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> {
        let x = x.serialize(Num)?;
        self.push(x)
    }
    fn serialize_value<T: ?Sized + Serialize>(&mut self, x: &T) -> Result<(), Error> {
        let x = x.serialize(Num)?;
        self.push(x)
    }
    fn end(self) -> Result<(), Error> {
        self.ended = true;
        Ok(())
    }
}

/// What is deserialized.
struct In<'a> {
    items: &'a [u64],
    at: usize,
    hint: Option<usize>,
    fail_at: usize,
}
impl In<'_> {
    fn pull<'d, T: DeserializeSeed<'d>>(&mut self, seed: T) -> Result<T::Value, Error> {
        if self.at == self.fail_at {
            return Err(Error::custom("injected"));
        }
        self.at += 1;
        seed.deserialize(self.items[self.at - 1].into_deserializer())
    }
}
impl<'d> SeqAccess<'d> for In<'_> {
    type Error = Error;
    fn next_element_seed<T: DeserializeSeed<'d>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.at == self.items.len() && self.at != self.fail_at { Ok(None) } else { self.pull(seed).map(Some) }
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
impl<'d> MapAccess<'d> for In<'_> {
    type Error = Error;
    fn next_key_seed<T: DeserializeSeed<'d>>(&mut self, seed: T) -> Result<Option<T::Value>, Error> {
        if self.at == self.items.len() && self.at != self.fail_at { Ok(None) } else { self.pull(seed).map(Some) }
    }
    fn next_value_seed<T: DeserializeSeed<'d>>(&mut self, seed: T) -> Result<T::Value, Error> {
        self.pull(seed)
    }
    fn size_hint(&self) -> Option<usize> {
        self.hint
    }
}
struct De<'a>(In<'a>, bool);
impl<'de> Deserializer<'de> for De<'_> {
    type Error = Error;
    fn deserialize_any<Vi: Visitor<'de>>(self, v: Vi) -> Result<Vi::Value, Error> {
        if self.1 { v.visit_map(self.0) } else { v.visit_seq(self.0) }
    }
    serde::forward_to_deserialize_any! {
        bool i8 i16 i32 i64 u8 u16 u32 u64 f32 f64 char str string bytes byte_buf option unit unit_struct newtype_struct seq tuple
        tuple_struct map struct enum identifier ignored_any
    }
}

/// Source of the pairs to collect.
pub struct Src<'a> {
    v: &'a [(u32, u32)],
    at: usize,
    hint: (usize, Option<usize>),
}
impl Iterator for Src<'_> {
    type Item = (K, V);
    fn next(&mut self) -> Option<(K, V)> {
        tick();
        let (k, v) = *self.v.get(self.at)?;
        self.at += 1;
        Some((K::new(k), V::new(v)))
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        self.hint
    }
}

pub trait Copies: Sized {
    const CLONES: bool;
    const COLLECTS: bool;
    const MAP: bool;
    /// Serializes exactly as many items as announced, and restores all of them.
    const EXACT: bool = true;
    fn dup(&self) -> Self;
    fn same(&self, o: &Self) -> bool;
    fn collect(v: Src<'_>) -> Self;
    fn ser(&self, o: &mut Out_) -> Result<(), Error>;
    fn de(d: De_<'_>) -> Result<Self, Error>;
    fn content(&self) -> Vec<(u32, u32, u32)>;
}
// The types above are private.
pub struct Out_(Out);
pub struct De_<'a>(De<'a>);

macro_rules! copies {
    ($t:ty, $clones:expr, $collects:expr, $map:expr, $exact:expr, |$s:ident| $dup:expr, |$v:ident| $collect:expr) => {
        impl Copies for $t {
            const CLONES: bool = $clones;
            const COLLECTS: bool = $collects;
            const MAP: bool = $map;
            const EXACT: bool = $exact;
            fn dup(&self) -> Self {
                let $s = self;
                $dup
            }
            fn same(&self, o: &Self) -> bool {
                self == o
            }
            fn collect($v: Src<'_>) -> Self {
                $collect
            }
            fn ser(&self, o: &mut Out_) -> Result<(), Error> {
                self.serialize(&mut o.0)
            }
            fn de(d: De_<'_>) -> Result<Self, Error> {
                Self::deserialize(d.0)
            }
            fn content(&self) -> Vec<(u32, u32, u32)> {
                content(self)
            }
        }
    };
}
copies!(HashMap<K, V, Bh>, true, true, true, true, |s| s.clone(), |v| v.collect());
copies!(HashSet<K, Bh>, true, true, false, true, |s| s.clone(), |v| v.map(|x| x.0).collect());
copies!(HashIndex<K, V, Bh>, true, true, true, true, |s| s.clone(), |v| v.collect());
copies!(HashCache<K, V, Bh>, false, true, true, false, |_s| unreachable!(), |v| v.collect());
copies!(TreeIndex<K, V>, true, false, true, true, |s| s.clone(), |_v| unreachable!());

trait Content {
    fn all(&self, out: &mut Vec<(u32, u32, u32)>);
}
impl<S: Sut> Content for S {
    fn all(&self, out: &mut Vec<(u32, u32, u32)>) {
        self.dump(out);
    }
}
impl Content for TreeIndex<K, V> {
    fn all(&self, out: &mut Vec<(u32, u32, u32)>) {
        let gd = scc::Guard::new();
        out.extend(self.iter(&gd).map(|(k, v)| (k.get(), k.tag(), v.get())));
    }
}
fn content<C: Content>(c: &C) -> Vec<(u32, u32, u32)> {
    let mut v = Vec::new();
    c.all(&mut v);
    v.sort_unstable();
    v
}

/// A kind of container, an initial state and a model.
pub trait World: 'static {
    type C: Copies;
    type M: Clone;
    type O: Copy + Debug;
    fn build(&self) -> Self::C;
    fn model(&self) -> Self::M;
    fn step(&self, c: &Self::C, m: &mut Self::M, o: Self::O);
    fn check(&self, c: &Self::C, m: &Self::M);
    fn entries(m: &Self::M) -> Vec<(u32, u32, u32)>;
    /// The model of a container that was made out of another.
    fn adopt(&self, c: &Self::C, e: &[(u32, u32, u32)], clock: u32) -> Self::M;
    /// A container made in another way.
    fn remake(&self, e: &[(u32, u32, u32)]) -> Self::C;
    fn hash(c: &Self::C, m: &Self::M) -> u64;
}

pub struct HashWorld<S: Sut> {
    st: State,
    pre: Vec<(Op, u32)>,
    model: Model,
    keys: Vec<u32>,
    _p: std::marker::PhantomData<S>,
}
impl<S: Sut + Copies + 'static> World for HashWorld<S> {
    type C = S;
    type M = Model;
    type O = (Op, bool);
    fn build(&self) -> S {
        build(&self.st, &self.pre)
    }
    fn model(&self) -> Model {
        self.model.clone()
    }
    fn step(&self, c: &S, m: &mut Model, o: (Op, bool)) {
        step(c, m, o.0, o.1);
        g().known.clear();
    }
    fn check(&self, c: &S, m: &Model) {
        BUF.with_borrow_mut(|b| full_check(c, m, &self.keys, b));
    }
    fn entries(m: &Model) -> Vec<(u32, u32, u32)> {
        m.m.iter().map(|(k, e)| (*k, e.tag, e.v)).collect()
    }
    fn adopt(&self, c: &S, e: &[(u32, u32, u32)], clock: u32) -> Model {
        let mut m = Model::new(S::KIND);
        m.cap = c.cap();
        if S::KIND == Kind::Cache {
            m.max = c.cap_range().1;
            m.lenient = true;
        }
        m.clock = clock;
        for (k, tag, v) in e {
            m.m.insert(*k, E { tag: *tag, v: *v, stamp: 0, tracked: false });
        }
        m
    }
    fn remake(&self, e: &[(u32, u32, u32)]) -> S {
        let c = S::make(if self.st.cap == 0 { 512 } else { 0 }, self.st.max.max(1024));
        for (k, _, v) in e.iter().rev() {
            let _ = c.exec(Op::Ins(*k), false, *v);
        }
        c
    }
    fn hash(_: &S, m: &Model) -> u64 {
        model_hash(m, "")
    }
}
pub struct TreeWorld {
    prep: Prep,
}
impl World for TreeWorld {
    type C = T;
    type M = TModel;
    type O = (TOp, bool);
    fn build(&self) -> T {
        tbuild(&self.prep)
    }
    fn model(&self) -> TModel {
        self.prep.model.clone()
    }
    fn step(&self, c: &T, m: &mut TModel, o: (TOp, bool)) {
        tstep(c, m, o.0, o.1);
    }
    fn check(&self, c: &T, m: &TModel) {
        tcheck(c, m, &[0, 1, 5, 401]);
    }
    fn entries(m: &TModel) -> Vec<(u32, u32, u32)> {
        m.m.iter().map(|(k, e)| (*k, e.0, e.1)).collect()
    }
    fn adopt(&self, _: &T, e: &[(u32, u32, u32)], clock: u32) -> TModel {
        TModel { m: e.iter().map(|(k, t, v)| (*k, (*t, *v))).collect(), clock }
    }
    fn remake(&self, e: &[(u32, u32, u32)]) -> T {
        let t = T::new();
        for (k, _, v) in e.iter().rev() {
            let _ = t.insert_sync(K::new(*k), V::new(*v));
        }
        t
    }
    fn hash(c: &T, m: &TModel) -> u64 {
        thash(m, c)
    }
}

fn kvs(e: &[(u32, u32, u32)]) -> Vec<(u32, u32)> {
    e.iter().map(|(k, _, v)| (*k, *v)).collect()
}
/// Counts the instances of one container only.
fn alone<R>(others: usize, f: impl FnOnce() -> R) -> R {
    g().other = others as i64;
    let r = f();
    g().other = 0;
    r
}
fn equality<W: World>(a: &W::C, b: &W::C, ma: &W::M, mb: &W::M, when: &str) {
    let expect = kvs(&W::entries(ma)) == kvs(&W::entries(mb));
    for (r, d) in [(a.same(b), "=="), (b.same(a), "== (swapped)")] {
        if r != expect {
            viol("wrong-equality", || format!("{when}: {d} yields {r}: {:x?} and {:x?}", kvs(&W::entries(ma)), kvs(&W::entries(mb))));
        }
    }
    if !a.same(a) {
        viol("wrong-equality", || format!("{when}: a container differs from itself"));
    }
}

/// A clone in some state, then operations on both.
struct Cloned<W: World> {
    name: String,
    w: Rc<W>,
    prefix: Vec<Rc<Vec<W::O>>>,
    on_clone: Rc<Vec<W::O>>,
    on_source: Rc<Vec<W::O>>,
}
impl<W: World> Cloned<W> {
    fn pick(&self, mut i: u64) -> (Vec<W::O>, W::O, W::O, bool) {
        let mut t = |v: &[W::O]| {
            let x = v[(i % v.len() as u64) as usize];
            i /= v.len() as u64;
            x
        };
        let a = t(&self.on_clone);
        let b = t(&self.on_source);
        let p = self.prefix.iter().map(|v| t(v)).collect();
        (p, a, b, i & 1 == 1)
    }
}
impl<W: World> Family for Cloned<W> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        self.prefix.iter().map(|v| v.len() as u64).product::<u64>() * (self.on_clone.len() * self.on_source.len()) as u64 * 2
    }
    fn describe(&self, i: u64) -> String {
        let (p, a, b, d) = self.pick(i);
        format!("{p:x?}, clone, {a:x?} on the clone, {b:x?} on the source, {} dropped first", if d { "source" } else { "clone" })
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let (p, a, b, source_first) = self.pick(i);
        st.runs += 1;
        st.ops += p.len() as u64 + 3;
        let mut h = 0;
        accounted(|| {
            let w = &*self.w;
            let c = w.build();
            let mut m = w.model();
            for o in p {
                w.step(&c, &mut m, o);
            }
            let n0 = W::entries(&m).len();
            let d = c.dup();
            let mut dm = w.adopt(&d, &W::entries(&m), 9000);
            alone(n0, || w.check(&d, &dm));
            alone(n0, || w.check(&c, &m));
            equality::<W>(&c, &d, &m, &dm, "after cloning");
            w.step(&d, &mut dm, a);
            let n1 = W::entries(&dm).len();
            alone(n1, || w.check(&c, &m));
            alone(n0, || w.check(&d, &dm));
            equality::<W>(&c, &d, &m, &dm, "after a change to the clone");
            w.step(&c, &mut m, b);
            alone(W::entries(&m).len(), || w.check(&d, &dm));
            equality::<W>(&c, &d, &m, &dm, "after a change to both");
            h = mix(W::hash(&c, &m), W::hash(&d, &dm));
            if source_first {
                drop(c);
                w.check(&d, &dm);
                w.step(&d, &mut dm, b);
            } else {
                drop(d);
                w.check(&c, &m);
                w.step(&c, &mut m, a);
            }
        });
        st.state(h);
    }
}

/// Two containers with different histories.
struct Equal<W: World> {
    name: String,
    w: Rc<W>,
    a: Rc<Vec<W::O>>,
}
impl<W: World> Family for Equal<W> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        (self.a.len() * (self.a.len() + 1)) as u64
    }
    fn describe(&self, i: u64) -> String {
        let n = self.a.len() as u64;
        let x = self.a[(i % n) as usize];
        if i / n == n { format!("{x:x?} against the same contents inserted in descending order") } else { format!("{x:x?} against {:x?}", self.a[(i / n) as usize]) }
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let n = self.a.len() as u64;
        st.runs += 1;
        st.ops += 2;
        let mut h = 0;
        accounted(|| {
            let w = &*self.w;
            let c = w.build();
            let mut m = w.model();
            w.step(&c, &mut m, self.a[(i % n) as usize]);
            let (d, dm) = if i / n == n {
                let d = w.remake(&W::entries(&m));
                // A cache may have evicted some.
                let dm = if W::C::EXACT { m.clone() } else { w.adopt(&d, &d.content(), 9000) };
                (d, dm)
            } else {
                g().tag = 0;
                let d = w.build();
                let mut dm = w.model();
                w.step(&d, &mut dm, self.a[(i / n) as usize]);
                (d, dm)
            };
            equality::<W>(&c, &d, &m, &dm, "made separately");
            alone(W::entries(&dm).len(), || w.check(&c, &m));
            h = mix(W::hash(&c, &m), W::hash(&d, &dm));
        });
        st.state(h);
    }
}

/// To and from a serialized form.
struct Serde<W: World> {
    name: String,
    w: Rc<W>,
    a: Rc<Vec<W::O>>,
    then: Rc<Vec<W::O>>,
}
const SHAPES: u64 = 9;
impl<W: World> Family for Serde<W> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        (self.a.len() * self.then.len()) as u64 * SHAPES
    }
    fn describe(&self, i: u64) -> String {
        let s = i % SHAPES;
        let i = i / SHAPES;
        format!("{:x?}, serialized and deserialized in shape {s}, {:x?}", self.a[i as usize % self.a.len()], self.then[i as usize / self.a.len()])
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let shape = i % SHAPES;
        let i = (i / SHAPES) as usize;
        let (op, then) = (self.a[i % self.a.len()], self.then[i / self.a.len()]);
        st.runs += 1;
        st.ops += 4;
        let mut h = 0;
        accounted(|| {
            let w = &*self.w;
            let c = w.build();
            let mut m = w.model();
            w.step(&c, &mut m, op);
            let e = W::entries(&m);
            let per = if W::C::MAP { 2 } else { 1 };
            let items = e.len() * per;
            // A failure of the serializer, or none.
            let fail_at = match shape {
                5 => 0,
                6 => 1,
                7 => items / 2,
                8 => items.saturating_sub(1),
                _ => NO_FAULT,
            };
            let mut o = Out_(Out::new(fail_at));
            let r = c.ser(&mut o);
            let o = o.0;
            let failed = fail_at < items;
            if r.is_err() != failed || o.ended == failed {
                viol("serialize-error", || format!("a failure of the serializer at item {fail_at} of {items} was reported as {r:?} (end called: {})", o.ended));
            }
            drop(r);
            if o.after_failure {
                viol("serialize-error", || "items were serialized after the serializer had failed".into());
            }
            if o.map != W::C::MAP {
                viol("serialize-form", || "serialized in another form".into());
            }
            if !failed {
                if o.announced.is_some_and(|n| if W::C::EXACT { n * per != o.items.len() } else { n * per < o.items.len() }) {
                    viol("serialize-length", || format!("{:?} entries were announced, {} follow", o.announced, o.items.len() / per));
                }
                let mut got: Vec<(u32, u32, u32)> =
                    o.items.chunks(per).map(|x| (x[0] as u32, (x[0] >> 32) as u32, if per == 2 { x[1] as u32 } else { 0 })).collect();
                got.sort_unstable();
                if got != e {
                    viol("serialize-contents", || format!("serialized as {got:x?} instead of {e:x?}"));
                }
            }
            w.check(&c, &m);
            if failed || g().viol.is_some() {
                return;
            }
            let (hint, fail_at) = match shape {
                0 => (o.announced, NO_FAULT),
                1 => (None, NO_FAULT),
                2 => (Some(e.len() * 3 + 7), NO_FAULT),
                3 => (Some(e.len() / 2), items / 3),
                _ => (Some(1), items),
            };
            let r = W::C::de(De_(De(In { items: &o.items, at: 0, hint, fail_at }, W::C::MAP)));
            if fail_at <= items {
                if r.is_ok() {
                    viol("deserialize-error", || format!("a failure of the deserializer at item {fail_at} of {items} was not reported"));
                }
                drop(r);
                w.check(&c, &m);
                return;
            }
            let d = match r {
                Ok(d) => d,
                Err(e) => {
                    viol("deserialize-error", || format!("deserializing failed: {e}"));
                    return;
                }
            };
            let mut de = e.clone();
            if !W::C::EXACT && e.len() > 32 {
                // A cache may have evicted some.
                let got = d.content();
                de.retain(|x| got.contains(x));
                if de.len() < 32 {
                    viol("deserialize-contents", || format!("only {} entries of {} are left", de.len(), e.len()));
                }
            }
            let mut dm = w.adopt(&d, &de, 9000);
            alone(e.len(), || w.check(&d, &dm));
            alone(de.len(), || w.check(&c, &m));
            equality::<W>(&c, &d, &m, &dm, "after deserializing");
            w.step(&d, &mut dm, then);
            let n1 = W::entries(&dm).len();
            alone(n1, || w.check(&c, &m));
            equality::<W>(&c, &d, &m, &dm, "after a change to the deserialized container");
            drop(c);
            w.check(&d, &dm);
            h = mix(W::hash(&d, &dm), shape);
        });
        st.state(h);
    }
}

/// Collected pairs, with duplicates.
struct Collected<S: Sut> {
    name: String,
    /// Sizes of the sequences: every sequence of keys up to `len` long, then series.
    keys: Vec<u32>,
    len: u32,
    series: Vec<u32>,
    _p: std::marker::PhantomData<S>,
}
const HINTS: u64 = 4;
impl<S: Sut> Collected<S> {
    fn pick(&self, i: u64) -> (Vec<(u32, u32)>, usize) {
        let hint = (i % HINTS) as usize;
        let mut i = i / HINTS;
        for l in 0..=self.len {
            let n = (self.keys.len() as u64).pow(l);
            if i < n {
                let mut v = Vec::new();
                for j in 0..l {
                    v.push((self.keys[(i % self.keys.len() as u64) as usize], 100 + j));
                    i /= self.keys.len() as u64;
                }
                return (v, hint);
            }
            i -= n;
        }
        let n = self.series[(i / 3) as usize];
        let v = match i % 3 {
            0 => (0..n).map(|j| (series(0, j), 100 + j)).collect(),
            // Each key twice.
            1 => (0..n).map(|j| (series(0, j % n.div_ceil(2)), 100 + j)).collect(),
            // All in one bucket.
            _ => (0..n.min(255)).map(|j| (k(0, 1 + j), 100 + j)).collect(),
        };
        (v, hint)
    }
    fn hint(&self, n: usize, h: usize) -> (usize, Option<usize>) {
        match h {
            0 => (n, Some(n)),
            1 => (0, None),
            2 => (n / 2, Some(2 * n + 9)),
            _ => (n, None),
        }
    }
}
impl<S: Sut + Copies> Family for Collected<S> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        ((0..=self.len).map(|l| (self.keys.len() as u64).pow(l)).sum::<u64>() + 3 * self.series.len() as u64) * HINTS
    }
    fn describe(&self, i: u64) -> String {
        let (v, h) = self.pick(i);
        format!("{} pairs {:x?}... with the size hint {:?}", v.len(), &v[..v.len().min(6)], self.hint(v.len(), h))
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let (v, h) = self.pick(i);
        st.runs += 1;
        st.ops += v.len() as u64;
        let mut hash = 0;
        accounted(|| {
            let hint = self.hint(v.len(), h);
            let tag0 = g().tag;
            let c = S::collect(Src { v: &v, at: 0, hint });
            let mut m = Model::new(S::KIND);
            m.cap = c.cap();
            let mut gone = 0;
            for (j, (k, v)) in v.iter().enumerate() {
                let tag = tag0 + 1 + j as u32;
                let v = if S::KIND == Kind::Set { 0 } else { *v };
                match m.m.get_mut(k) {
                    Some(e) if S::KIND == Kind::Map => e.v = v,
                    Some(_) => (),
                    None => {
                        m.m.insert(*k, E { tag, v, stamp: 0, tracked: false });
                    }
                }
            }
            if S::KIND == Kind::Cache {
                m.max = c.cap_range().1;
                if h != 1 && m.max < v.len().min(m.m.len()) {
                    viol("collect-capacity", || format!("a cache of at most {} entries was made for {}", m.max, m.m.len()));
                }
                if m.m.len() > 32 {
                    // Some may have been evicted, and put again.
                    let got = c.content();
                    for (k, _, x) in &got {
                        if !v.contains(&(*k, *x)) {
                            viol("wrong-contents", || format!("({k:#x}, {x}) was never put"));
                        }
                    }
                    gone = m.m.len() - got.len();
                    m.m = got.iter().map(|(k, t, v)| (*k, E { tag: *t, v: *v, stamp: 0, tracked: false })).collect();
                    if got.len() < 32 {
                        viol("wrong-contents", || format!("only {} entries are left", got.len()));
                    }
                }
            }
            BUF.with_borrow_mut(|b| full_check(&c, &m, &self.keys, b));
            hash = mix(model_hash(&m, ""), gone as u64);
        });
        st.state(hash);
    }
}

/// A fault at each point of these operations.
struct Faulty<W: World> {
    name: String,
    mode: Mode,
    w: Rc<W>,
    a: Rc<Vec<W::O>>,
}
const WHAT: [&str; 5] = ["clone", "equality", "serialize", "deserialize", "collect"];
impl<W: World> Family for Faulty<W> {
    fn name(&self) -> String {
        self.name.clone()
    }
    fn count(&self) -> u64 {
        self.a.len() as u64 * 5
    }
    fn describe(&self, i: u64) -> String {
        format!("{:x?}, then {} with a {:?} fault at each point", self.a[i as usize / 5], WHAT[i as usize % 5], self.mode)
    }
    fn run(&self, i: u64, st: &mut Stat) {
        let op = self.a[i as usize / 5];
        let what = WHAT[i as usize % 5];
        if what == "clone" && !W::C::CLONES || what == "collect" && !W::C::COLLECTS || what == "equality" && self.mode == Mode::Alloc {
            return;
        }
        let mut n = 0;
        let mut more = true;
        while more && g().viol.is_none() {
            n += 1;
            more = false;
            if n > 1 {
                begin_case();
            }
            st.runs += 1;
            st.ops += 2;
            let mut h = 0;
            accounted(|| {
                let w = &*self.w;
                let c = w.build();
                let mut m = w.model();
                w.step(&c, &mut m, op);
                let e = W::entries(&m);
                let pairs = kvs(&e);
                let mut other = None;
                let mut out = Out_(Out::new(NO_FAULT));
                let mut items: Vec<u64> = Vec::new();
                let (mut same, mut elsewhere) = (true, 0);
                match what {
                    "equality" => {
                        let r = w.remake(&e);
                        same = kvs(&r.content()) == pairs;
                        elsewhere = if W::C::EXACT { e.len() } else { r.content().len() };
                        other = Some(r);
                    }
                    "deserialize" => {
                        let _ = c.ser(&mut out);
                        items = std::mem::take(&mut out.0.items);
                    }
                    _ => (),
                }
                let got = faulted(self.mode, n, || match what {
                    "clone" => Some(c.dup()),
                    "equality" => {
                        if c.same(other.as_ref().unwrap()) != same {
                            viol("wrong-equality", || format!("equal: {same}, but compared otherwise"));
                        }
                        None
                    }
                    "serialize" => {
                        let _ = c.ser(&mut out);
                        None
                    }
                    "deserialize" => W::C::de(De_(De(In { items: &items, at: 0, hint: Some(3), fail_at: NO_FAULT }, W::C::MAP))).ok(),
                    _ => Some(W::C::collect(Src { v: &pairs, at: 0, hint: (3, None) })),
                });
                let survived = matches!(got, Got::Survived(_));
                match got {
                    Got::Unwound => {
                        st.faults += 1;
                        st.before += 1;
                        more = true;
                    }
                    Got::Clean(d) | Got::Survived(d) => {
                        if survived {
                            st.faults += 1;
                            st.after += 1;
                            more = true;
                        }
                        if let Some(d) = d {
                            let got = d.content();
                            if (W::C::EXACT || e.len() <= 32) && kvs(&got) != pairs {
                                viol("wrong-contents", || format!("{what} yields {:x?} instead of {pairs:x?}", kvs(&got)));
                            }
                            elsewhere += got.len();
                            alone(elsewhere, || w.check(&c, &m));
                            elsewhere -= got.len();
                        }
                    }
                }
                drop(items);
                drop(out);
                alone(elsewhere, || w.check(&c, &m));
                w.step(&c, &mut m, op);
                h = mix(W::hash(&c, &m), n);
            });
            if let Some((_, m)) = g().viol.as_mut() {
                *m = format!("fault at point {n}: {m}");
            }
            st.state(h);
        }
    }
}

fn hashes<S: Sut + Copies + 'static>(out: &mut Vec<Box<dyn Family>>, thorough: bool) {
    for name in state_names(S::KIND) {
        let st = state(S::KIND, name);
        let big = st.init.len() > 200;
        let (pre, model) = prepare::<S>(&st);
        let n = if thorough { 4 } else { 2 };
        let f = Rc::new(changing(S::KIND, &keys(&st, n), false));
        let f2 = Rc::new(changing(S::KIND, &keys(&st, 2), false));
        let co = Rc::new(core(S::KIND, &keys(&st, 2)));
        let all = st.present.iter().chain(&st.absent).copied().collect();
        let id = st.name.clone();
        let w = Rc::new(HashWorld::<S> { st, pre, model, keys: all, _p: std::marker::PhantomData });
        if S::CLONES {
            let few = if big { Rc::new(co.iter().take(3).copied().collect::<Vec<_>>()) } else { co.clone() };
            out.push(Box::new(Cloned { name: format!("clone-{id}/1"), w: w.clone(), prefix: vec![f.clone()], on_clone: few.clone(), on_source: few.clone() }));
            if !big {
                out.push(Box::new(Cloned { name: format!("clone-{id}/2"), w: w.clone(), prefix: vec![co.clone(), co.clone()], on_clone: if thorough { f2.clone() } else { co.clone() }, on_source: few }));
            }
        }
        out.push(Box::new(Equal { name: format!("equal-{id}"), w: w.clone(), a: f.clone() }));
        out.push(Box::new(Serde { name: format!("serde-{id}"), w, a: f, then: co }));
    }
    let ks = vec![k(0, 1), k(0x80, 2), k(0, 1) | 1 << 16, k(0, 3)];
    let series = vec![1, 8, 9, 31, 32, 33, 40, 41, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 300, 400, 512, 640, 800, 1000, 1030, 2100];
    out.push(Box::new(Collected::<S> { name: format!("collect-{:?}", S::KIND), keys: ks, len: if thorough { 7 } else { 5 }, series, _p: std::marker::PhantomData }));
}
fn trees(out: &mut Vec<Box<dyn Family>>, thorough: bool) {
    for s in tstates().into_iter().chain(deep().into_iter().take(1)) {
        let prep = tprepare(&s.init);
        let big = prep.model.m.len() > 300;
        let ks = some_keys(&prep.model, if big { 2 } else if thorough { 14 } else { 8 });
        let mut f: Vec<(TOp, bool)> = ks.iter().flat_map(|k| [TOp::Ins(*k), TOp::Rem(*k)]).map(|o| (o, false)).collect();
        let mid = ks[ks.len() / 2];
        f.extend([(TOp::RemRange(Bd::In(mid), Bd::No), true), (TOp::Blk(Ord_::Asc, 11, 20, 2), false), (TOp::Iter, false)]);
        let co: Rc<Vec<(TOp, bool)>> = Rc::new(vec![(TOp::Ins(ks[0]), false), (TOp::Rem(ks[1]), true), (TOp::Clear, false), (TOp::Blk(Ord_::Desc, 7, 16, 3), false)]);
        let f = Rc::new(f);
        let w = Rc::new(TreeWorld { prep });
        out.push(Box::new(Cloned { name: format!("clone-{}/1", s.name), w: w.clone(), prefix: vec![f.clone()], on_clone: co.clone(), on_source: co.clone() }));
        if !big && thorough {
            out.push(Box::new(Cloned { name: format!("clone-{}/2", s.name), w: w.clone(), prefix: vec![f.clone(), f.clone()], on_clone: co.clone(), on_source: co.clone() }));
        }
        out.push(Box::new(Equal { name: format!("equal-{}", s.name), w: w.clone(), a: f.clone() }));
        out.push(Box::new(Serde { name: format!("serde-{}", s.name), w, a: f, then: co }));
    }
}
pub fn all(out: &mut Vec<Box<dyn Family>>, thorough: bool) {
    hashes::<Hm>(out, thorough);
    hashes::<Hs_>(out, thorough);
    hashes::<Hi>(out, thorough);
    hashes::<Hc>(out, thorough);
    trees(out, thorough);
}

fn hfaults<S: Sut + Copies + 'static>(out: &mut Vec<Box<dyn Family>>, mode: Mode, thorough: bool) {
    let pre = if mode == Mode::Panic { "panic" } else { "alloc" };
    for name in state_names(S::KIND) {
        let st = state(S::KIND, name);
        if st.init.len() > 200 && !thorough {
            continue;
        }
        let (p, model) = prepare::<S>(&st);
        let all = st.present.iter().chain(&st.absent).copied().collect();
        let co = Rc::new(core(S::KIND, &keys(&st, 2)));
        let f = if thorough && st.init.len() <= 200 { Rc::new(changing(S::KIND, &keys(&st, 2), false)) } else { co };
        let id = st.name.clone();
        out.push(Box::new(Faulty { name: format!("{pre}-copy-{id}"), mode, w: Rc::new(HashWorld::<S> { st, pre: p, model, keys: all, _p: std::marker::PhantomData }), a: f }));
    }
}
pub fn faults(out: &mut Vec<Box<dyn Family>>, mode: Mode, thorough: bool) {
    hfaults::<Hm>(out, mode, thorough);
    hfaults::<Hs_>(out, mode, thorough);
    hfaults::<Hi>(out, mode, thorough);
    hfaults::<Hc>(out, mode, thorough);
    let pre = if mode == Mode::Panic { "panic" } else { "alloc" };
    for s in tstates() {
        let prep = tprepare(&s.init);
        let ks = some_keys(&prep.model, if thorough { 6 } else { 2 });
        let f: Vec<(TOp, bool)> = ks.iter().flat_map(|k| [TOp::Ins(*k), TOp::Rem(*k)]).map(|o| (o, false)).collect();
        out.push(Box::new(Faulty { name: format!("{pre}-copy-{}", s.name), mode, w: Rc::new(TreeWorld { prep }), a: Rc::new(f) }));
    }
}
