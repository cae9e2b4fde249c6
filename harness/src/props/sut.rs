//! Map and RbTree under test, driven together with a `BTreeMap` model.
use super::keys::*;
use super::vals::*;
use crate::ensure;
use crate::engine::Res;
use crate::spec::*;
use candid::Principal;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Map, Seq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::BTreeMap;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

// ------------------------------------------------------------------ cases

/// Where the key of an index comes from.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Pool {
    Raw(Vec<Vec<u8>>),
    Dense { pre: Vec<u8>, stride: u32, base: u32 },
}
impl Pool {
    pub fn key<K: HK + HKDense>(&self, i: u32) -> K {
        match self {
            Pool::Raw(_) => K::mk(&self.raw(i)),
            Pool::Dense { pre, stride, base } => K::dense(pre, base.wrapping_add(i.wrapping_mul(*stride))),
        }
    }
    /// Bytes for a key or prefix.
    pub fn raw(&self, i: u32) -> Vec<u8> {
        match self {
            Pool::Raw(v) => {
                if v.is_empty() {
                    return vec![];
                }
                let n = v.len() as u32;
                let mut r = v[(i % n) as usize].clone();
                match i / n % 6 {
                    0 => {}
                    1 => r.push(0),
                    2 => {
                        r.pop();
                    }
                    3 => r.push(0xff),
                    4 => {
                        if let Some(x) = r.last_mut() {
                            *x = x.wrapping_add(1)
                        }
                    }
                    _ => r.truncate(r.len() / 2),
                }
                r
            }
            Pool::Dense { pre, stride, base } => {
                let mut r = pre.clone();
                let b = base.wrapping_add(i.wrapping_mul(*stride)).to_be_bytes();
                r.extend_from_slice(&b[..(i % 5) as usize]);
                r
            }
        }
    }
    /// Number of indices that mean something.
    pub fn size(&self) -> u32 {
        match self {
            Pool::Raw(v) => v.len() as u32 * 6,
            Pool::Dense { .. } => 4096,
        }
    }
}

/// A key from a number, order preserving, all different while they fit.
pub trait HKDense: HK {
    fn dense(pre: &[u8], x: u32) -> Self;
}
macro_rules! dense_be {
    ($($t:ty, $n:expr);*) => {$(
        impl HKDense for $t {
            fn dense(_: &[u8], x: u32) -> Self {
                let mut b = [0u8; 32];
                let y = x.to_be_bytes();
                let m = if $n < 4 { $n } else { 4 };
                b[$n - m..$n].copy_from_slice(&y[4 - m..]);
                <$t as HK>::mk(&b[..$n])
            }
        }
    )*};
}
dense_be!(u8, 1; u16, 2; u32, 4; u64, 8; u128, 16; usize, 8; i8, 1; i16, 2; i32, 4; i64, 8; i128, 16; isize, 8;
    [u8; 1], 1; [u8; 3], 3; [u8; 8], 8; [u8; 32], 32; bool, 1; Box<u32>, 4; Arc<u16>, 2);
macro_rules! dense_pre {
    ($($t:ty),*) => {$(
        impl HKDense for $t {
            fn dense(pre: &[u8], x: u32) -> Self {
                let mut b = pre.to_vec();
                b.extend_from_slice(&x.to_be_bytes());
                <$t as HK>::mk(&b)
            }
        }
    )*};
}
dense_pre!(Vec<u8>, Box<[u8]>, String, Box<String>, Rc<String>, Principal);
impl HKDense for CK {
    fn dense(_: &[u8], x: u32) -> Self {
        CK { a: (x % 5) as u16, b: (x / 5).to_be_bytes().to_vec() }
    }
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Order {
    Asc,
    Desc,
    Shuffle(u32),
    /// outermost first
    Zigzag,
    /// every other, then the rest
    Evens,
}
impl Order {
    pub fn seq(&self, n: u32) -> Vec<u32> {
        let mut v: Vec<u32> = (0..n).collect();
        match self {
            Order::Asc => {}
            Order::Desc => v.reverse(),
            Order::Shuffle(s) => {
                let mut x = *s as u64 | 1;
                for i in (1..v.len()).rev() {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    v.swap(i, (x >> 33) as usize % (i + 1));
                }
            }
            Order::Zigzag => {
                v = (0..n).map(|i| if i % 2 == 0 { i / 2 } else { n - 1 - i / 2 }).collect();
            }
            Order::Evens => {
                v = (0..n).step_by(2).chain((1..n).step_by(2)).collect();
            }
        }
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Insert(u32, u32),
    /// insert, then write through the returned (or looked up) reference
    InsRef(u32, u32, u32),
    Remove(u32),
    RemoveEntry(u32),
    /// write through get_mut / modify
    GetMut(u32, u32),
    /// write through two references one after the other, without reading in between
    GetMut2(u32, u32, u32),
    ModMax(u32, u32),
    OrInsert(u32, u32, Option<u32>),
    OrInsertWith(u32, u32, Option<u32>),
    OrInsertWithKey(u32, u32, Option<u32>),
    OrDefault(u32, Option<u32>),
    AndModify(u32, u32, u32),
    EntryMut(u32, u32, u32),
    IntoMut(u32, u32),
    EntryRemove(u32),
    EntryRemoveEntry(u32),
    EntryLook(u32),
    Clear,
    Collect(Order),
    Codec(bool),
    Fill { n: u32, from: u32, order: Order, vs: u32 },
    Drain { n: u32, from: u32, order: Order },
    /// A read-only call, results dropped.
    Read(u8, u32),
}

fn order() -> BoxedStrategy<Order> {
    prop_oneof![
        Just(Order::Asc),
        Just(Order::Desc),
        any::<u32>().prop_map(Order::Shuffle),
        Just(Order::Zigzag),
        Just(Order::Evens)
    ]
    .boxed()
}

/// Single operations with key indices below `n`.
pub fn op(n: u32) -> BoxedStrategy<Op> {
    let k = move || 0..n.max(1);
    let v = || 0u32..5000;
    let ov = || proptest::option::of(0u32..5000);
    prop_oneof![
        20 => (k(), v()).prop_map(|(k, v)| Op::Insert(k, v)),
        4 => (k(), v(), v()).prop_map(|(k, v, e)| Op::InsRef(k, v, e)),
        14 => k().prop_map(Op::Remove),
        3 => k().prop_map(Op::RemoveEntry),
        7 => (k(), v()).prop_map(|(k, e)| Op::GetMut(k, e)),
        3 => (k(), k(), v()).prop_map(|(a, b, e)| Op::GetMut2(a, b, e)),
        4 => (k(), v()).prop_map(|(k, e)| Op::ModMax(k, e)),
        2 => (k(), v(), ov()).prop_map(|(k, v, e)| Op::OrInsert(k, v, e)),
        2 => (k(), v(), ov()).prop_map(|(k, v, e)| Op::OrInsertWith(k, v, e)),
        2 => (k(), v(), ov()).prop_map(|(k, v, e)| Op::OrInsertWithKey(k, v, e)),
        2 => (k(), ov()).prop_map(|(k, e)| Op::OrDefault(k, e)),
        2 => (k(), v(), v()).prop_map(|(k, e, v)| Op::AndModify(k, e, v)),
        2 => (k(), v(), v()).prop_map(|(k, e, v)| Op::EntryMut(k, e, v)),
        2 => (k(), v()).prop_map(|(k, e)| Op::IntoMut(k, e)),
        2 => k().prop_map(Op::EntryRemove),
        2 => k().prop_map(Op::EntryRemoveEntry),
        1 => k().prop_map(Op::EntryLook),
        1 => Just(Op::Clear),
        1 => order().prop_map(Op::Collect),
        1 => any::<bool>().prop_map(Op::Codec),
        5 => (any::<u8>(), k()).prop_map(|(w, k)| Op::Read(w, k)),
    ]
    .boxed()
}

/// Bulk operations over index ranges up to `n`.
pub fn bulk(n: u32) -> BoxedStrategy<Op> {
    let r = move || (1..=n, 0..=n / 2);
    prop_oneof![
        3 => (r(), order(), 0u32..5000).prop_map(|((n, from), order, vs)| Op::Fill { n, from, order, vs }),
        2 => (r(), order()).prop_map(|((n, from), order)| Op::Drain { n, from, order }),
    ]
    .boxed()
}

pub fn rawkey() -> BoxedStrategy<Vec<u8>> {
    let small = prop::sample::select(vec![0u8, 1, 0x61, 0x7f, 0x80, 0xff]);
    prop_oneof![
        8 => prop::collection::vec(small, 0..5),
        3 => (0usize..7, 0usize..3).prop_map(|(a, b)| {
            let mut v = vec![b'a'; a];
            v.extend(std::iter::repeat(0xff).take(b));
            v
        }),
        3 => prop::collection::vec(any::<u8>(), 0..20),
        1 => (any::<u8>(), 20usize..45).prop_map(|(b, n)| vec![b; n]),
        1 => (prop::sample::select(vec![23usize, 24, 31, 32, 33, 55, 64, 127, 128, 255, 256, 257, 300]), any::<u8>(), 0u8..3).prop_map(
            |(n, b, t)| {
                let mut v = vec![b; n];
                v[n - 1] = t;
                v
            }
        ),
    ]
    .boxed()
}

pub fn pool_raw(max: usize) -> BoxedStrategy<Pool> {
    prop::collection::vec(rawkey(), 1..=max).prop_map(Pool::Raw).boxed()
}
pub fn pool_dense() -> BoxedStrategy<Pool> {
    (prop::collection::vec(any::<u8>(), 0..4), prop::sample::select(vec![1u32, 1, 2, 3, 255, 256, 65537]), prop::sample::select(vec![0u32, 0, 200, 65000, 1 << 31, u32::MAX - 600]))
        .prop_map(|(pre, stride, base)| Pool::Dense { pre, stride, base })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MapCase {
    pub combo: u8,
    pub tree: bool,
    pub pool: Pool,
    pub ops: Vec<Op>,
    /// key indices looked at (prefixes too)
    pub probes: Vec<u32>,
}

/// Class 0: short histories over few, closely related keys; 1: longer ones with bulk steps over
/// up to 60 keys; 2: up to ~600 keys; 3: thousands; 4: tens of thousands.
pub fn mapcase(class: usize, combos: Vec<u8>) -> BoxedStrategy<MapCase> {
    let c = prop::sample::select(combos);
    let (pool, ops): (BoxedStrategy<Pool>, BoxedStrategy<Vec<Op>>) = match class {
        0 => (pool_raw(8), prop::collection::vec(op(48), 1..30).boxed()),
        1 => (
            prop_oneof![pool_raw(24), pool_dense()].boxed(),
            prop::collection::vec(prop_oneof![4 => op(60), 1 => bulk(60)], 1..70).boxed(),
        ),
        2 => (
            pool_dense(),
            prop::collection::vec(prop_oneof![1 => op(600), 2 => bulk(300)], 1..14).boxed(),
        ),
        3 => (
            pool_dense(),
            (bulk(2500), prop::collection::vec(prop_oneof![1 => op(3000), 3 => bulk(2500)], 1..6))
                .prop_map(|(a, mut v)| {
                    v.insert(0, a);
                    v
                })
                .boxed(),
        ),
        _ => (
            pool_dense(),
            (20_000u32..70_000, order(), 1u32..4, order(), 0u32..2)
                .prop_map(|(n, o, d, o2, back)| {
                    let mut v = vec![Op::Fill { n, from: 0, order: o, vs: 1 }, Op::Drain { n: n / d, from: n / 8, order: o2 }];
                    if back == 1 {
                        v.push(Op::Fill { n: n / 3, from: n / 2, order: o2, vs: 2 });
                    }
                    v
                })
                .boxed(),
        ),
    };
    (c, any::<bool>(), pool, ops, prop::collection::vec(0u32..600, 4..12))
        .prop_map(|(combo, tree, pool, ops, probes)| MapCase { combo, tree, pool, ops, probes })
        .boxed()
}

// ------------------------------------------------------------------ the collections

pub enum Ct<K: HK, V: HV> {
    Map(Map<K, V>),
    Tree(RbTree<K, V>),
}
impl<K: HK, V: HV> Ct<K, V> {
    pub fn new(tree: bool) -> Self {
        if tree {
            Ct::Tree(RbTree::new())
        } else {
            Ct::Map(Map::new())
        }
    }
    pub fn t(&self) -> &RbTree<K, V> {
        match self {
            Ct::Map(m) => m.as_tree(),
            Ct::Tree(t) => t,
        }
    }
    pub fn len(&self) -> usize {
        match self {
            Ct::Map(m) => m.len(),
            Ct::Tree(t) => t.len(),
        }
    }
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self {
            Ct::Map(m) => m.insert(k, v),
            Ct::Tree(t) => t.insert(k, v).0,
        }
    }
    pub fn remove(&mut self, k: &K::Q) -> Option<V> {
        match self {
            Ct::Map(m) => m.remove(k),
            Ct::Tree(t) => t.delete(k).map(|x| x.1),
        }
    }
    pub fn remove_entry(&mut self, k: &K) -> Option<(K, V)> {
        match self {
            Ct::Map(m) => m.remove_entry::<K>(k),
            Ct::Tree(t) => t.delete::<K>(k),
        }
    }
    pub fn edit(&mut self, k: &K, f: impl FnOnce(&mut V)) -> bool {
        match self {
            Ct::Map(m) => match m.get_mut::<K>(k) {
                Some(v) => {
                    f(v);
                    true
                }
                None => false,
            },
            Ct::Tree(t) => t.modify::<K, ()>(k, |v| f(v)).is_some(),
        }
    }
    pub fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self {
            Ct::Map(m) => m.entry(k),
            Ct::Tree(t) => t.entry(k),
        }
    }
    pub fn get(&self, k: &K::Q) -> Option<&V> {
        match self {
            Ct::Map(m) => m.get(k),
            Ct::Tree(t) => t.get(k),
        }
    }
    pub fn iter(&self) -> RbTreeIterator<'_, K, V> {
        match self {
            Ct::Map(m) => m.iter(),
            Ct::Tree(t) => RbTreeIterator::new(t),
        }
    }
    pub fn root(&self) -> H {
        match self {
            Ct::Map(m) => m.root_hash(),
            Ct::Tree(t) => t.root_hash(),
        }
    }
    pub fn tree(&self) -> T {
        T::from_ht(&match self {
            Ct::Map(m) => m.as_hash_tree(),
            Ct::Tree(t) => t.as_hash_tree(),
        })
    }
    pub fn w_key(&self, k: &K) -> T {
        T::from_ht(&match self {
            Ct::Map(m) => m.witness::<K>(k),
            Ct::Tree(t) => t.witness::<K>(k),
        })
    }
    pub fn w_q(&self, k: &K::Q) -> T {
        T::from_ht(&match self {
            Ct::Map(m) => m.witness(k),
            Ct::Tree(t) => t.witness(k),
        })
    }
    pub fn w_keys(&self) -> T {
        T::from_ht(&match self {
            Ct::Map(m) => m.witness_keys(),
            Ct::Tree(t) => t.keys(),
        })
    }
    pub fn w_range(&self, a: &K, b: &K, values: bool) -> T {
        T::from_ht(&match (self, values) {
            (Ct::Map(m), false) => m.witness_key_range::<K, K>(a, b),
            (Ct::Map(m), true) => m.witness_value_range::<K, K>(a, b),
            (Ct::Tree(t), false) => t.key_range::<K, K>(a, b),
            (Ct::Tree(t), true) => t.value_range::<K, K>(a, b),
        })
    }
}

pub struct Sut<K: HK, V: HV> {
    pub c: Ct<K, V>,
    pub m: BTreeMap<K, V::M>,
    pub pool: Pool,
}

struct DebugMap<'a, K, V>(Vec<(&'a K, &'a V)>);
impl<'a, K: Debug, V: Debug> Debug for DebugMap<'a, K, V> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_map().entries(self.0.iter().map(|x| (x.0, x.1))).finish()
    }
}

/// Result of `prefix_view`: positions of the matching keys and of the expected revealed range.
pub struct PrefixView {
    pub matches: Vec<usize>,
    pub lo: Option<usize>,
    pub hi: Option<usize>,
}

pub trait DynSut {
    fn name(&self) -> String;
    fn ordered(&self) -> bool;
    fn sig(&self) -> Option<&'static str>;
    fn has_prefix(&self) -> bool;
    fn apply(&mut self, op: &Op) -> Res;
    fn n(&self) -> usize;
    fn check_dict(&self, probes: &[u32]) -> Res;
    fn check_hash(&self) -> Res;
    /// Labels and certified contents of all entries in key order, checked against the model.
    fn entries(&self) -> Result<Vec<(Vec<u8>, T)>, String>;
    fn sub_labels(&self, pos: usize) -> Vec<Vec<u8>>;
    fn root(&self) -> H;
    fn tree(&self) -> T;
    /// Position of the key with this index among the entries.
    fn pos(&self, i: u32) -> Result<usize, usize>;
    fn lab(&self, i: u32) -> Vec<u8>;
    fn key_cmp(&self, i: u32, j: u32) -> Ordering;
    fn w_key(&self, i: u32) -> T;
    fn w_q(&self, i: u32) -> T;
    fn w_keys(&self) -> T;
    fn w_range(&self, i: u32, j: u32, values: bool) -> T;
    fn w_nested(&self, i: u32) -> (T, u32);
    fn w_prefix(&self, i: u32) -> Option<T>;
    fn prefix_view(&self, i: u32) -> PrefixView;
    fn check_max(&self, i: u32) -> Res;
    fn cbor(&self) -> Option<Vec<u8>>;
    fn contents(&self) -> Vec<u8>;
    /// Rebuilds a second collection with the same contents in another way.
    fn rebuilt(&self, order: Order, tree: bool) -> Box<dyn DynSut>;
    /// One read-only call.
    fn read(&self, w: u8, i: u32);
}

impl<K: HK + HKDense, V: HV> Sut<K, V> {
    pub fn new(tree: bool, pool: Pool) -> Self {
        Sut { c: Ct::new(tree), m: BTreeMap::new(), pool }
    }
    fn k(&self, i: u32) -> K {
        self.pool.key(i)
    }
    fn same_opt(what: &str, got: Option<V>, want: Option<V::M>) -> Res {
        match (&got, &want) {
            (None, None) => Ok(()),
            (Some(a), Some(b)) if a.same(b) => Ok(()),
            _ => Err(format!("{} returned {:?}, expected {:?}", what, got, want)),
        }
    }
    fn ent_edit(r: &mut V, e: Option<u32>, want: &mut V::M, what: &str) -> Res {
        ensure!(r.same(want), "{} refers to {:?}, expected {:?}", what, r, want);
        if let Some(e) = e {
            r.edit(e);
            V::edit_m(want, e);
        }
        Ok(())
    }
}

impl<K: HK + HKDense, V: HV> DynSut for Sut<K, V> {
    fn name(&self) -> String {
        format!("{}<{}, {}>", if matches!(self.c, Ct::Map(_)) { "Map" } else { "RbTree" }, K::NAME, V::NAME)
    }
    fn ordered(&self) -> bool {
        K::ORDERED
    }
    fn sig(&self) -> Option<&'static str> {
        K::SIG
    }
    fn has_prefix(&self) -> bool {
        K::HAS_PREFIX
    }
    fn n(&self) -> usize {
        self.m.len()
    }

    fn apply(&mut self, op: &Op) -> Res {
        match *op {
            Op::Insert(i, v) => {
                let k = self.k(i);
                let got = self.c.insert(k.clone(), V::mk(v));
                Self::same_opt("insert", got, self.m.insert(k, V::mk_m(v)))?;
            }
            Op::InsRef(i, v, e) => {
                let k = self.k(i);
                let old = self.m.insert(k.clone(), V::mk_m(v));
                let mm = self.m.get_mut::<K>(&k).unwrap();
                match &mut self.c {
                    Ct::Tree(t) => {
                        let (got, r) = t.insert(k, V::mk(v));
                        Self::ent_edit(r, Some(e), mm, "insert")?;
                        Self::same_opt("insert", got, old)?;
                    }
                    Ct::Map(m) => {
                        let got = m.insert(k.clone(), V::mk(v));
                        Self::ent_edit(m.get_mut::<K>(&k).ok_or("get_mut: key just inserted is missing")?, Some(e), mm, "get_mut")?;
                        Self::same_opt("insert", got, old)?;
                    }
                }
            }
            Op::Remove(i) => {
                let k = self.k(i);
                let got = self.c.remove(std::borrow::Borrow::<K::Q>::borrow(&k));
                Self::same_opt("remove", got, self.m.remove::<K>(&k))?;
            }
            Op::RemoveEntry(i) => {
                let k = self.k(i);
                let got = self.c.remove_entry(&k);
                match (&got, &self.m.remove_entry::<K>(&k)) {
                    (None, None) => {}
                    (Some((a, b)), Some((c, d))) if a == c && b.same(d) => {}
                    (a, b) => return Err(format!("remove_entry returned {:?}, expected {:?}", a, b)),
                }
            }
            Op::GetMut(i, e) => {
                let k = self.k(i);
                let found = self.c.edit(&k, |v| v.edit(e));
                let want = self.m.get_mut::<K>(&k).map(|v| V::edit_m(v, e)).is_some();
                ensure!(found == want, "get_mut/modify found the key: {}, expected {}", found, want);
            }
            Op::GetMut2(i, j, e) => {
                for (x, e) in [(i, e), (j, e / 3), (i, e / 2)] {
                    let k = self.k(x);
                    let found = self.c.edit(&k, |v| v.edit(e));
                    let want = self.m.get_mut::<K>(&k).map(|v| V::edit_m(v, e)).is_some();
                    ensure!(found == want, "get_mut/modify found the key: {}, expected {}", found, want);
                }
            }
            Op::ModMax(i, e) => {
                let raw = self.pool.raw(i);
                if let Ct::Tree(t) = &mut self.c {
                    let want: Option<K> = self.m.keys().rev().find(|k| k.carries(&raw)).cloned();
                    let mut seen = None;
                    let got = K::modify_max(t, &raw, &mut |k, v| {
                        seen = Some((k.clone(), v.back()));
                        v.edit(e);
                    });
                    if let Some(got) = got {
                        let wv = want.as_ref().map(|k| (k.clone(), self.m.get::<K>(k).unwrap().clone()));
                        ensure!(seen == wv && got == want.is_some(), "modify_max_with_prefix visited {:?}, expected {:?}", seen, wv);
                        if let Some(k) = want {
                            V::edit_m(self.m.get_mut::<K>(&k).unwrap(), e);
                        }
                    }
                }
            }
            Op::OrInsert(i, v, e) => {
                let k = self.k(i);
                let mm = self.m.entry(k.clone()).or_insert_with(|| V::mk_m(v));
                let r = self.c.entry(k).or_insert(V::mk(v));
                Self::ent_edit(r, e, mm, "or_insert")?;
            }
            Op::OrInsertWith(i, v, e) => {
                let k = self.k(i);
                let had = self.m.contains_key::<K>(&k);
                let mut called = 0;
                let mm = self.m.entry(k.clone()).or_insert_with(|| V::mk_m(v));
                let r = self.c.entry(k).or_insert_with(|| {
                    called += 1;
                    V::mk(v)
                });
                Self::ent_edit(r, e, mm, "or_insert_with")?;
                ensure!((called == 0) == had, "or_insert_with called its function {} times on a key that was {}", called, if had { "present" } else { "absent" });
            }
            Op::OrInsertWithKey(i, v, e) => {
                let k = self.k(i);
                let mm = self.m.entry(k.clone()).or_insert_with(|| V::mk_m(v));
                let mut ok = true;
                let r = self.c.entry(k.clone()).or_insert_with_key(|k2| {
                    ok = *k2 == k;
                    V::mk(v)
                });
                Self::ent_edit(r, e, mm, "or_insert_with_key")?;
                ensure!(ok, "or_insert_with_key passed another key");
            }
            Op::OrDefault(i, e) => {
                let k = self.k(i);
                let mm = self.m.entry(k.clone()).or_default();
                let r = self.c.entry(k).or_default();
                Self::ent_edit(r, e, mm, "or_default")?;
            }
            Op::AndModify(i, e, v) => {
                let k = self.k(i);
                let mm = self.m.entry(k.clone()).and_modify(|x| V::edit_m(x, e)).or_insert_with(|| V::mk_m(v));
                let r = self.c.entry(k).and_modify(|x| x.edit(e)).or_insert(V::mk(v));
                Self::ent_edit(r, None, mm, "and_modify.or_insert")?;
            }
            Op::EntryMut(i, e, v) => {
                let k = self.k(i);
                let had = self.m.contains_key::<K>(&k);
                let mm = self.m.entry(k.clone()).or_insert_with(|| V::mk_m(v));
                match self.c.entry(k.clone()) {
                    Entry::Occupied(mut o) => {
                        ensure!(had, "entry of an absent key is occupied");
                        ensure!(o.key() == &k && o.get().same(mm), "occupied entry shows {:?} {:?}, expected {:?} {:?}", o.key(), o.get(), k, mm);
                        o.get_mut().edit(e);
                        V::edit_m(mm, e);
                        ensure!(o.get().same(mm), "occupied entry shows {:?} after a change, expected {:?}", o.get(), mm);
                        o.get_mut().edit(e / 2);
                        V::edit_m(mm, e / 2);
                    }
                    Entry::Vacant(x) => {
                        ensure!(!had, "entry of a present key is vacant");
                        ensure!(x.key() == &k, "vacant entry has another key");
                        let r = x.insert(V::mk(v));
                        Self::ent_edit(r, Some(e), mm, "vacant insert")?;
                    }
                }
            }
            Op::IntoMut(i, e) => {
                let k = self.k(i);
                match (self.c.entry(k.clone()), self.m.get_mut::<K>(&k)) {
                    (Entry::Occupied(o), Some(mm)) => {
                        let r = o.into_mut();
                        Self::ent_edit(r, Some(e), mm, "into_mut")?;
                    }
                    (Entry::Vacant(x), None) => ensure!(x.into_key() == k, "into_key gave another key"),
                    (a, b) => return Err(format!("entry is {:?} but the contents are {:?}", a, b)),
                }
            }
            Op::EntryRemove(i) => {
                let k = self.k(i);
                match (self.c.entry(k.clone()), self.m.remove::<K>(&k)) {
                    (Entry::Occupied(o), Some(mm)) => {
                        let v = o.remove();
                        ensure!(v.same(&mm), "entry remove returned {:?}, expected {:?}", v, mm);
                    }
                    (Entry::Vacant(_), None) => {}
                    (a, b) => return Err(format!("entry is {:?} but the contents are {:?}", a, b)),
                }
            }
            Op::EntryRemoveEntry(i) => {
                let k = self.k(i);
                match (self.c.entry(k.clone()), self.m.remove::<K>(&k)) {
                    (Entry::Occupied(o), Some(mm)) => {
                        let (k2, v) = o.remove_entry();
                        ensure!(k2 == k && v.same(&mm), "remove_entry returned {:?} {:?}, expected {:?} {:?}", k2, v, k, mm);
                    }
                    (Entry::Vacant(_), None) => {}
                    (a, b) => return Err(format!("entry is {:?} but the contents are {:?}", a, b)),
                }
            }
            Op::EntryLook(i) => {
                let k = self.k(i);
                let e = self.c.entry(k.clone());
                ensure!(e.key() == &k, "entry has another key");
                let _ = format!("{:?}", e);
                match (e, self.m.get::<K>(&k)) {
                    (Entry::Occupied(o), Some(mm)) => ensure!(o.get().same(mm), "entry shows {:?}, expected {:?}", o.get(), mm),
                    (Entry::Vacant(_), None) => {}
                    (a, b) => return Err(format!("entry is {:?} but the contents are {:?}", a, b)),
                }
            }
            Op::Clear => {
                match &mut self.c {
                    Ct::Map(m) => m.clear(),
                    Ct::Tree(t) => *t = RbTree::default(),
                }
                self.m.clear();
            }
            Op::Collect(o) => {
                let src: Vec<(K, V::M)> = self.m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                // each pair twice, first with a value that has to be replaced
                let it = o.seq(src.len() as u32 * 2);
                let n = src.len();
                let mut seen = vec![false; n];
                let pairs: Vec<(K, V)> = it
                    .into_iter()
                    .map(|x| {
                        let x = x as usize % n;
                        let v = if seen[x] { V::of(&src[x].1) } else { V::default() };
                        seen[x] = true;
                        (src[x].0.clone(), v)
                    })
                    .collect();
                match &mut self.c {
                    Ct::Map(m) => *m = pairs.into_iter().collect(),
                    Ct::Tree(t) => {
                        let mut t2 = RbTree::new();
                        for (k, v) in pairs {
                            t2.insert(k, v);
                        }
                        *t = t2;
                    }
                }
            }
            Op::Codec(_) => {
                // (what encodings do in detail is C16's matter)
                if let Ct::Map(m) = &mut self.c {
                    if let Ok(b) = serde_cbor::to_vec(&*m) {
                        *m = serde_cbor::from_slice(&b).map_err(|e| format!("a map's own CBOR is refused: {}", e))?;
                    }
                }
            }
            Op::Fill { n, from, order, vs } => {
                for x in order.seq(n) {
                    let k = self.k(from.wrapping_add(x));
                    let v = vs.wrapping_add(x);
                    let got = self.c.insert(k.clone(), V::mk(v));
                    Self::same_opt("insert", got, self.m.insert(k, V::mk_m(v)))?;
                    ensure!(self.c.len() == self.m.len(), "len() is {}, expected {}", self.c.len(), self.m.len());
                }
            }
            Op::Drain { n, from, order } => {
                for x in order.seq(n) {
                    let k = self.k(from.wrapping_add(x));
                    let got = self.c.remove(std::borrow::Borrow::<K::Q>::borrow(&k));
                    Self::same_opt("remove", got, self.m.remove::<K>(&k))?;
                    ensure!(self.c.len() == self.m.len(), "len() is {}, expected {}", self.c.len(), self.m.len());
                }
            }
            Op::Read(w, i) => self.read(w, i),
        }
        ensure!(self.c.len() == self.m.len(), "len() is {}, expected {}", self.c.len(), self.m.len());
        Ok(())
    }

    fn read(&self, w: u8, i: u32) {
        let k = self.k(i);
        match w % 9 {
            0 => {
                self.c.root();
            }
            1 => {
                self.c.get(std::borrow::Borrow::<K::Q>::borrow(&k));
            }
            2 => {
                self.c.w_key(&k);
            }
            3 => {
                self.c.w_keys();
            }
            4 => {
                self.c.iter().count();
            }
            5 => {
                K::keys_with_prefix(&self.c, &self.pool.raw(i));
                K::max_with_prefix(self.c.t(), &self.pool.raw(i));
            }
            6 => {
                let k2 = self.k(i / 2);
                let (a, b) = if k <= k2 { (k, k2) } else { (k2, k) };
                self.c.w_range(&a, &b, w & 16 != 0);
            }
            7 => {
                if let Ct::Map(m) = &self.c {
                    let _ = format!("{:?}", m);
                    let _ = serde_cbor::to_vec(m);
                }
                self.c.t().for_each(|_, _| {});
            }
            _ => {
                self.c.tree();
            }
        }
    }

    fn check_dict(&self, probes: &[u32]) -> Res {
        let (c, m) = (&self.c, &self.m);
        let t = c.t();
        ensure!(c.len() == m.len() && t.len() == m.len(), "len() is {}, expected {}", c.len(), m.len());
        let emp = match c {
            Ct::Map(x) => x.is_empty(),
            Ct::Tree(x) => x.is_empty(),
        };
        ensure!(emp == m.is_empty(), "is_empty() is {} with {} entries", emp, m.len());
        // iteration
        let mut it = c.iter();
        let mut rest = m.len();
        for (k, v) in m {
            ensure!(it.size_hint() == (rest, Some(rest)), "size_hint is {:?} with {} entries left", it.size_hint(), rest);
            match it.next() {
                Some((k2, v2)) if k2 == k && v2.same(v) => {}
                x => return Err(format!("iteration yields {:?}, expected ({:?}, {:?})", x, k, v)),
            }
            rest -= 1;
        }
        for _ in 0..3 {
            ensure!(it.size_hint() == (0, Some(0)), "size_hint is {:?} at the end", it.size_hint());
            ensure!(it.next().is_none(), "iteration yields more entries than there are");
        }
        let seen = Rc::new(std::cell::Cell::new((0usize, None::<usize>)));
        let (seen2, mut it) = (seen.clone(), m.iter());
        t.for_each(move |k, v| {
            let (n, bad) = seen2.get();
            let ok = matches!(it.next(), Some((k2, v2)) if k == k2 && v.same(v2));
            seen2.set((n + 1, if ok { bad } else { bad.or(Some(n)) }));
        });
        ensure!(seen.get() == (m.len(), None), "for_each visited {} of {} entries, first wrong one: {:?}", seen.get().0, m.len(), seen.get().1);
        // lookups
        let look = |k: &K, want: Option<&V::M>| -> Res {
            let a = c.get(std::borrow::Borrow::<K::Q>::borrow(k));
            let b = t.get::<K>(k);
            let d = t.get_with(|x| k.cmp(x));
            for (n, g) in [("get (borrowed)", a), ("get", b), ("get_with", d)] {
                match (g, want) {
                    (None, None) => {}
                    (Some(x), Some(y)) if x.same(y) => {}
                    _ => return Err(format!("{}({:?}) is {:?}, expected {:?}", n, k, g, want)),
                }
            }
            Ok(())
        };
        for (k, v) in m {
            look(k, Some(v))?;
        }
        for p in probes {
            let k = self.k(*p);
            look(&k, m.get::<K>(&k))?;
        }
        if let Ct::Map(x) = c {
            {
                let want = format!("{:?}", DebugMap(m.keys().map(|k| (k, t.get::<K>(k).unwrap())).collect()));
                ensure!(format!("{:?}", x) == want, "Debug output {:?}, expected {}", x, want);
            }
            ensure!(std::ptr::eq(AsRef::<RbTree<K, V>>::as_ref(x), t), "as_ref is another tree");
        }
        Ok(())
    }

    fn entries(&self) -> Result<Vec<(Vec<u8>, T)>, String> {
        let t = self.c.t();
        self.m
            .iter()
            .map(|(k, mv)| {
                let v = t.get::<K>(k).ok_or_else(|| format!("key {:?} is missing", k))?;
                Ok((k.lab(), v.tree(mv)?))
            })
            .collect()
    }

    fn check_hash(&self) -> Res {
        let root = self.c.root();
        let t = self.c.tree();
        if self.m.is_empty() {
            ensure!(root == h_empty(), "root hash of an empty map is {}", hx(&root));
            ensure!(t == T::Empty, "tree of an empty map is {:?}", t);
            return Ok(());
        }
        let e = self.entries()?;
        full_tree(&t, root, &e)?;
        ensure!(self.c.root() == root, "root_hash() changed between two calls");
        Ok(())
    }

    fn sub_labels(&self, pos: usize) -> Vec<Vec<u8>> {
        self.m.values().nth(pos).map(|v| V::sub_labels(v)).unwrap_or_default()
    }
    fn root(&self) -> H {
        self.c.root()
    }
    fn tree(&self) -> T {
        self.c.tree()
    }
    fn pos(&self, i: u32) -> Result<usize, usize> {
        let k = self.k(i);
        let p = self.m.range::<K, _>(..&k).count();
        if self.m.contains_key::<K>(&k) {
            Ok(p)
        } else {
            Err(p)
        }
    }
    fn lab(&self, i: u32) -> Vec<u8> {
        self.k(i).lab()
    }
    fn key_cmp(&self, i: u32, j: u32) -> Ordering {
        self.k(i).cmp(&self.k(j))
    }
    fn w_key(&self, i: u32) -> T {
        self.c.w_key(&self.k(i))
    }
    fn w_q(&self, i: u32) -> T {
        let k = self.k(i);
        self.c.w_q(std::borrow::Borrow::<K::Q>::borrow(&k))
    }
    fn w_keys(&self) -> T {
        self.c.w_keys()
    }
    fn w_range(&self, i: u32, j: u32, values: bool) -> T {
        self.c.w_range(&self.k(i), &self.k(j), values)
    }
    fn w_nested(&self, i: u32) -> (T, u32) {
        let k = self.k(i);
        let mut called = 0;
        let t = T::from_ht(&self.c.t().nested_witness::<K>(&k, |v| {
            called += 1;
            certified_vars::HashTree::Pruned(v.root_hash())
        }));
        (t, called)
    }
    fn w_prefix(&self, i: u32) -> Option<T> {
        K::keys_with_prefix(&self.c, &self.pool.raw(i)).map(|t| T::from_ht(&t))
    }
    fn prefix_view(&self, i: u32) -> PrefixView {
        let raw = self.pool.raw(i);
        let ks: Vec<&K> = self.m.keys().collect();
        let matches: Vec<usize> = (0..ks.len()).filter(|x| ks[*x].carries(&raw)).collect();
        let eq = ks.iter().position(|k| k.pcmp(&raw) == Ordering::Equal);
        let below = ks.iter().rposition(|k| k.pcmp(&raw) == Ordering::Less);
        let above = ks.iter().position(|k| k.pcmp(&raw) == Ordering::Greater && !k.carries(&raw));
        PrefixView { matches, lo: if eq.is_some() { eq } else { below }, hi: above }
    }
    fn check_max(&self, i: u32) -> Res {
        let raw = self.pool.raw(i);
        let want = self.m.iter().rev().find(|(k, _)| k.carries(&raw));
        if let Some(got) = K::max_with_prefix(self.c.t(), &raw) {
            match (got, want) {
                (None, None) => {}
                (Some((k, v)), Some((k2, v2))) if k == k2 && v.same(v2) => {}
                (a, b) => return Err(format!("max_entry_with_prefix({}) is {:?}, expected {:?}", hx(&raw), a, b)),
            }
        }
        Ok(())
    }
    fn cbor(&self) -> Option<Vec<u8>> {
        match &self.c {
            Ct::Map(m) => serde_cbor::to_vec(m).ok(),
            Ct::Tree(_) => None,
        }
    }
    fn contents(&self) -> Vec<u8> {
        let mut o = Vec::new();
        for (k, v) in &self.m {
            let l = k.lab();
            cbor_bytes(&l, &mut o);
            cbor_bytes(&serde_cbor::to_vec(v).unwrap_or_else(|_| format!("{:?}", v).into_bytes()), &mut o);
        }
        o
    }
    fn rebuilt(&self, order: Order, tree: bool) -> Box<dyn DynSut> {
        let mut c = Ct::new(tree);
        let src: Vec<_> = self.m.iter().collect();
        for x in order.seq(src.len() as u32) {
            let (k, v) = src[x as usize];
            c.insert(k.clone(), V::of(v));
        }
        Box::new(Sut { c, m: self.m.clone(), pool: self.pool.clone() })
    }
}

macro_rules! combos {
    ($($n:expr => $k:ty, $v:ty;)*) => {
        pub const NCOMBO: u8 = [$($n),*].len() as u8;
        pub fn make(combo: u8, tree: bool, pool: Pool) -> Box<dyn DynSut> {
            match combo % NCOMBO {
                $($n => Box::new(Sut::<$k, $v>::new(tree, pool)),)*
                _ => unreachable!(),
            }
        }
    };
}
combos! {
    0 => Vec<u8>, u64;
    1 => String, String;
    2 => Vec<u8>, Vec<u8>;
    3 => u32, Seq<u32>;
    4 => CK, Map<u8, u16>;
    5 => [u8; 3], bool;
    6 => String, Map<String, Seq<u8>>;
    7 => u64, u128;
    8 => Box<[u8]>, Box<u64>;
    9 => u8, [u8; 5];
    10 => u16, u16;
    11 => i32, u64;
    12 => i8, Vec<u8>;
    13 => Principal, String;
    14 => bool, u64;
    15 => u128, u8;
    16 => usize, i64;
    17 => [u8; 8], Map<u16, Map<u8, u16>>;
    18 => Rc<String>, u32;
    19 => Arc<u16>, Vec<u8>;
    20 => Box<u32>, Seq<u8>;
    21 => i64, Seq<u32>;
    22 => [u8; 32], Vec<u8>;
    23 => CK, u32;
    24 => i16, bool;
    25 => i128, u16;
    26 => isize, u8;
    27 => [u8; 1], u32;
    28 => Box<String>, u16;
    29 => String, Nil;
}

pub const NFEW: u8 = 7;
/// A few combinations, for checks that need no more (and compile faster).
pub fn make_few(combo: u8, tree: bool, pool: Pool) -> Box<dyn DynSut> {
    match combo % NFEW {
        0 => Box::new(Sut::<Vec<u8>, u64>::new(tree, pool)),
        1 => Box::new(Sut::<String, Map<String, Seq<u8>>>::new(tree, pool)),
        2 => Box::new(Sut::<CK, Map<u8, u16>>::new(tree, pool)),
        3 => Box::new(Sut::<u32, Seq<u32>>::new(tree, pool)),
        4 => Box::new(Sut::<Vec<u8>, Vec<u8>>::new(tree, pool)),
        5 => Box::new(Sut::<[u8; 8], Map<u16, Map<u8, u16>>>::new(tree, pool)),
        _ => Box::new(Sut::<u64, bool>::new(tree, pool)),
    }
}

/// Combinations by weight: the general byte and string keys more often.
pub fn all_combos() -> Vec<u8> {
    let mut v: Vec<u8> = (0..NCOMBO).collect();
    v.extend([0, 0, 1, 2, 3, 4, 6, 0, 23]);
    v
}
pub fn prefix_combos() -> Vec<u8> {
    vec![0, 0, 0, 1, 1, 2, 4, 5, 6, 8, 17, 22, 23, 23, 27]
}
pub fn wide_combos() -> Vec<u8> {
    // enough distinct keys for large trees
    vec![0, 1, 2, 3, 4, 7, 8, 15, 16, 22, 23]
}
