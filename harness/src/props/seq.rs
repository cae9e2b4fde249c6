//! C15: Seq against a vector and an independent hash chain.
use super::vals::*;
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use certified_vars::{AsHashTree, Map, Seq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Borrow;

/// What only some item types can do.
pub trait Item15: HV {
    fn clone_seq(_s: &Seq<Self>) -> Option<Seq<Self>> {
        None
    }
    fn from_slice(_v: &[Self]) -> Option<Seq<Self>> {
        None
    }
    fn from_mut_slice(_v: &mut [Self]) -> Option<Seq<Self>> {
        None
    }
    fn extend_ref(_s: &mut Seq<Self>, _v: &[Self]) -> bool {
        false
    }
    fn eq_seq(_a: &Seq<Self>, _b: &Seq<Self>) -> Option<bool> {
        None
    }
}
macro_rules! cloneable {
    ($($t:ty),*; $copy:tt) => {$(
        impl Item15 for $t {
            fn clone_seq(s: &Seq<Self>) -> Option<Seq<Self>> {
                Some(s.clone())
            }
            fn from_slice(v: &[Self]) -> Option<Seq<Self>> {
                Some(Seq::from(v))
            }
            fn from_mut_slice(v: &mut [Self]) -> Option<Seq<Self>> {
                Some(Seq::from(v))
            }
            fn eq_seq(a: &Seq<Self>, b: &Seq<Self>) -> Option<bool> {
                assert!((a == b) != (a != b));
                Some(a == b)
            }
            cloneable!(@ $copy);
        }
    )*};
    (@ copy) => {
        fn extend_ref(s: &mut Seq<Self>, v: &[Self]) -> bool {
            s.extend(v.iter());
            true
        }
    };
    (@ no) => {};
}
cloneable!(u8, u32, u128, bool, [u8; 5], Nil; copy);
cloneable!(String, Vec<u8>, Box<u64>, Seq<u8>, Seq<u32>; no);
impl Item15 for Map<u8, u16> {}
impl Item15 for Map<String, Seq<u8>> {}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum S {
    Append(u32),
    Extend(Vec<u32>),
    /// an iterator that does not know its length
    ExtendFilter(Vec<u32>),
    ExtendRef(Vec<u32>),
    ExtendSelf,
    Clear,
    Shrink,
    Reserve(u16),
    ReserveExact(u16),
    FromVec,
    FromSlice,
    FromMutSlice,
    Collect(bool),
    Clone,
    /// out into a vector, changed there, and back
    EditVec(u32, u8, u32),
    Codec(u8),
    New(u8, u16),
    Many(u32, u32),
    /// n appended, one by one
    ManyAppend(u32, u32),
    Swap,
}

pub fn sop() -> BoxedStrategy<S> {
    let v = || 0u32..5000;
    let vs = || prop::collection::vec(0u32..5000, 0..12);
    prop_oneof![
        10 => v().prop_map(S::Append),
        5 => vs().prop_map(S::Extend),
        2 => vs().prop_map(S::ExtendFilter),
        2 => vs().prop_map(S::ExtendRef),
        1 => Just(S::ExtendSelf),
        2 => Just(S::Clear),
        1 => Just(S::Shrink),
        1 => any::<u16>().prop_map(S::Reserve),
        1 => any::<u16>().prop_map(S::ReserveExact),
        1 => Just(S::FromVec),
        1 => Just(S::FromSlice),
        1 => Just(S::FromMutSlice),
        1 => any::<bool>().prop_map(S::Collect),
        1 => Just(S::Clone),
        3 => (any::<u32>(), any::<u8>(), v()).prop_map(|(a, b, c)| S::EditVec(a, b, c)),
        2 => (0u8..2).prop_map(S::Codec),
        1 => (0u8..4, any::<u16>()).prop_map(|(a, b)| S::New(a, b)),
        1 => (prop_oneof![6 => 0u32..25, 1 => 0u32..300], v()).prop_map(|(n, v)| S::Many(n, v)),
        1 => Just(S::Swap),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SeqCase {
    pub ty: u8,
    pub ops: Vec<S>,
}

struct St<V: Item15> {
    a: Seq<V>,
    b: Seq<V>,
    ma: Vec<V::M>,
    mb: Vec<V::M>,
    big: bool,
}

fn item_hash<V: HV>(v: &V, m: &V::M) -> Result<H, String> {
    Ok(v.tree(m)?.hash())
}

/// Checks everything observable about `s` against the items `m`.
pub fn check<V: Item15>(s: &Seq<V>, m: &[V::M], deep: bool) -> Res {
    let n = m.len();
    ensure!(s.len() == n && s.is_empty() == (n == 0), "len() is {}, is_empty() {}, expected {}", s.len(), s.is_empty(), n);
    ensure!(s.capacity() >= n, "capacity() {} is below the length {}", s.capacity(), n);
    ensure!(s.as_vec().len() == n && s.iter().len() == n && AsRef::<[V]>::as_ref(s).len() == n && Borrow::<[V]>::borrow(s).len() == n, "the views of the sequence differ in length");
    let mut h = [0u8; 32];
    let mut it = s.iter();
    for (i, w) in m.iter().enumerate() {
        let x = it.next().ok_or("iteration ends early")?;
        ensure!(x.same(w), "item {} is {:?}, expected {:?}", i, x, w);
        ensure!(std::ptr::eq(x, &s[i]) && std::ptr::eq(x, &s.as_vec()[i]) && std::ptr::eq(x, &AsRef::<[V]>::as_ref(s)[i]) && std::ptr::eq(x, &Borrow::<[V]>::borrow(s)[i]), "the views of item {} differ", i);
        h = sha(&[&h, &item_hash(x, w)?]);
    }
    ensure!(it.next().is_none(), "iteration goes on after the last item");
    ensure!(s.root_hash() == h, "root_hash() is {}, the chain over the {} items is {}", hx(&s.root_hash()), n, hx(&h));
    let t = T::from_ht(&s.as_hash_tree());
    ensure!(t == T::Pruned(h), "as_hash_tree() is {:?}, expected the pruned {}", t, hx(&h));
    ensure!(s.as_hash_tree().reconstruct() == h, "as_hash_tree() hashes to something else");
    if deep {
        let (a, b) = (n / 3, n - n / 4);
        for (x, y) in [(&s[a..b], a..b), (&s[..b], 0..b), (&s[a..], a..n), (&s[..], 0..n)] {
            ensure!(x.len() == y.len() && x.iter().zip(&m[y.clone()]).all(|(v, w)| v.same(w)), "slice {:?} differs", y);
        }
        if n > 0 {
            ensure!(s[a..=a].len() == 1 && s[a..=a][0].same(&m[a]), "inclusive slice differs");
            ensure!(s[n - 1].same(&m[n - 1]), "last item differs");
            ensure!(s.iter().rev().zip(m.iter().rev()).all(|(x, y)| x.same(y)), "reverse iteration differs");
        }
        ensure!(panics(|| s[n].back()) && panics(|| s[n + 1..].len()) && panics(|| s[..n + 1].len()), "an index out of range is accepted");
    }
    Ok(())
}

impl<V: Item15> St<V> {
    fn items(vs: &[u32]) -> Vec<V> {
        vs.iter().map(|v| V::mk(*v)).collect()
    }
    fn models(vs: &[u32]) -> impl Iterator<Item = V::M> + '_ {
        vs.iter().map(|v| V::mk_m(*v))
    }
    fn again(&self) -> Vec<V> {
        self.ma.iter().map(V::of).collect()
    }

    fn step(&mut self, o: &S) -> Res {
        let s = &mut self.a;
        match o {
            S::Append(v) => {
                s.append(V::mk(*v));
                self.ma.push(V::mk_m(*v));
            }
            S::Extend(v) => {
                s.extend(Self::items(v));
                self.ma.extend(Self::models(v));
            }
            S::ExtendFilter(v) => {
                s.extend(v.iter().filter(|x| *x % 3 != 0).map(|x| V::mk(*x)));
                self.ma.extend(v.iter().filter(|x| *x % 3 != 0).map(|x| V::mk_m(*x)));
            }
            S::ExtendRef(v) => {
                if V::extend_ref(s, &Self::items(v)) {
                    self.ma.extend(Self::models(v));
                }
            }
            S::ExtendSelf => {
                if self.ma.len() < 60 || self.big && self.ma.len() < 80_000 {
                    let copy = self.again();
                    self.a.extend(copy);
                    self.ma.extend(self.ma.clone());
                }
            }
            S::Clear => {
                s.clear();
                self.ma.clear();
            }
            S::Shrink => s.shrink_to_fit(),
            S::Reserve(n) => {
                s.reserve(*n as usize);
                ensure!(s.capacity() >= s.len() + *n as usize, "reserve({}) gave capacity {} at length {}", n, s.capacity(), s.len());
            }
            S::ReserveExact(n) => {
                s.reserve_exact(*n as usize);
                ensure!(s.capacity() >= s.len() + *n as usize, "reserve_exact({}) gave capacity {} at length {}", n, s.capacity(), s.len());
            }
            S::FromVec => {
                let v: Vec<V> = std::mem::take(s).into();
                ensure!(v.len() == self.ma.len() && v.iter().zip(&self.ma).all(|(a, b)| a.same(b)), "conversion into a vector changed the items");
                self.a = Seq::from(v);
            }
            S::FromSlice => {
                if let Some(x) = V::from_slice(s.as_vec()) {
                    self.a = x;
                }
            }
            S::FromMutSlice => {
                let mut v: Vec<V> = self.again();
                if let Some(x) = V::from_mut_slice(&mut v) {
                    self.a = x;
                }
            }
            S::Collect(by_map) => {
                self.a = if *by_map { self.ma.iter().map(V::of).collect() } else { self.again().into_iter().collect() };
            }
            S::Clone => {
                if let Some(x) = V::clone_seq(s) {
                    check(&x, &self.ma, false)?;
                    // the copy is independent
                    let mut old = std::mem::replace(&mut self.a, x);
                    old.append(V::mk(7));
                    old.clear();
                }
            }
            S::EditVec(at, how, v) => {
                let mut x: Vec<V> = std::mem::take(s).into();
                let m = &mut self.ma;
                let n = m.len();
                let at = if n == 0 { 0 } else { *at as usize % n };
                match how % 6 {
                    _ if n == 0 => {
                        x.push(V::mk(*v));
                        m.push(V::mk_m(*v));
                    }
                    0 => {
                        x.remove(at);
                        m.remove(at);
                    }
                    1 => {
                        x.insert(at, V::mk(*v));
                        m.insert(at, V::mk_m(*v));
                    }
                    2 => {
                        x.swap(at, n - 1);
                        m.swap(at, n - 1);
                    }
                    3 => {
                        x[at].edit(*v);
                        V::edit_m(&mut m[at], *v);
                    }
                    4 => {
                        x.reverse();
                        m.reverse();
                    }
                    _ => {
                        x.truncate(at);
                        m.truncate(at);
                    }
                }
                self.a = x.into();
            }
            S::Codec(json) => {
                let h = s.root_hash();
                // (not every number fits into CBOR)
                let (ours, std) = if *json == 0 {
                    (serde_json::to_vec(s).ok(), serde_json::to_vec(&self.ma).ok())
                } else {
                    (serde_cbor::to_vec(s).ok(), serde_cbor::to_vec(&self.ma).ok())
                };
                ensure!(ours.is_some() == std.is_some(), "encoding gives a result: {}, that of a vector: {}", ours.is_some(), std.is_some());
                let b = match ours {
                    Some(b) => b,
                    None => return Ok(()),
                };
                let x: Seq<V> = if *json == 0 {
                    serde_json::from_slice(&b).map_err(|e| format!("decoding its own JSON fails: {}", e))?
                } else {
                    serde_cbor::from_slice(&b).map_err(|e| format!("decoding its own CBOR fails: {}", e))?
                };
                // (a decoded map with the same entries may have another tree)
                ensure!(x.root_hash() == h || V::eq_seq(&x, &x).is_none(), "decoding changed the root hash");
                self.a = x;
            }
            S::New(how, n) => {
                self.a = match how {
                    0 => Seq::new(),
                    1 => Seq::default(),
                    2 => Seq::with_capacity(*n as usize),
                    _ => Seq::from(Vec::with_capacity(*n as usize)),
                };
                ensure!(*how != 2 || self.a.capacity() >= *n as usize, "with_capacity({}) gave {}", n, self.a.capacity());
                self.ma.clear();
            }
            S::Many(n, v) => {
                s.extend((0..*n).map(|i| V::mk(v.wrapping_add(i))));
                self.ma.extend((0..*n).map(|i| V::mk_m(v.wrapping_add(i))));
            }
            S::ManyAppend(n, v) => {
                for i in 0..*n {
                    s.append(V::mk(v.wrapping_add(i)));
                    self.ma.push(V::mk_m(v.wrapping_add(i)));
                }
            }
            S::Swap => {
                std::mem::swap(&mut self.a, &mut self.b);
                std::mem::swap(&mut self.ma, &mut self.mb);
            }
        }
        Ok(())
    }
}

/// For twin runs (C21).
pub trait DynSeq {
    fn step(&mut self, o: &S) -> Res;
    /// Read-only calls and changes of the capacity.
    fn perturb(&mut self, w: u32);
    fn observe(&self) -> Vec<(String, Vec<u8>)>;
}
impl<V: Item15> DynSeq for St<V> {
    fn step(&mut self, o: &S) -> Res {
        St::step(self, o)
    }
    fn perturb(&mut self, w: u32) {
        let s = &mut self.a;
        match w % 8 {
            0 => drop(s.root_hash()),
            1 => drop(T::from_ht(&s.as_hash_tree())),
            2 => drop(serde_json::to_vec(s)),
            3 => s.reserve((w >> 8) as usize % 3000),
            4 => s.shrink_to_fit(),
            5 => s.reserve_exact((w >> 8) as usize % 3000),
            6 => drop((s.iter().count(), s.as_vec().len(), s.capacity())),
            _ => drop((V::clone_seq(s), V::eq_seq(s, &self.b))),
        }
    }
    fn observe(&self) -> Vec<(String, Vec<u8>)> {
        let mut v = vec![];
        for (n, s) in [("a", &self.a), ("b", &self.b)] {
            v.push((format!("root hash of {}", n), s.root_hash().to_vec()));
            v.push((format!("tree of {}", n), T::from_ht(&s.as_hash_tree()).cbor()));
            v.push((format!("JSON of {}", n), serde_json::to_vec(s).unwrap_or_default()));
            v.push((format!("CBOR of {}", n), serde_cbor::to_vec(s).unwrap_or_default()));
            v.push((format!("Debug of {}", n), format!("{:?}", s).into_bytes()));
        }
        v
    }
}
pub fn make_few(ty: u8) -> Box<dyn DynSeq> {
    fn new<V: Item15>() -> Box<dyn DynSeq> {
        Box::new(St::<V> { a: Seq::new(), b: Seq::new(), ma: vec![], mb: vec![], big: false })
    }
    match ty % 5 {
        0 => new::<u32>(),
        1 => new::<Vec<u8>>(),
        2 => new::<String>(),
        3 => new::<Seq<u8>>(),
        _ => new::<Map<u8, u16>>(),
    }
}

fn run<V: Item15>(c: &SeqCase, st: &mut Stats) -> Res {
    let big = c.ops.iter().any(|o| matches!(o, S::Many(n, _) | S::ManyAppend(n, _) if *n > 1000));
    let mut s = St::<V> { a: Seq::new(), b: Seq::new(), ma: vec![], mb: vec![], big };
    let (mut max, mut kinds) = (0, std::collections::HashSet::new());
    for o in &c.ops {
        s.step(o)?;
        kinds.insert(std::mem::discriminant(o));
        max = max.max(s.ma.len());
        check(&s.a, &s.ma, !big)?;
        // the hash depends on the items alone; equality is that of the items
        let again: Seq<V> = s.again().into_iter().collect();
        if let Some(e) = V::eq_seq(&again, &s.a) {
            // (a map with the same entries may have another tree, and is not comparable either)
            ensure!(again.root_hash() == s.a.root_hash(), "the same items built anew have another root hash");
            ensure!(e, "sequences of the same items are not equal");
        }
        if let Some(e) = V::eq_seq(&s.a, &s.b) {
            ensure!(e == (s.ma == s.mb), "sequences of items {:?} and {:?}: equal is {}", s.ma, s.mb, e);
        }
    }
    check(&s.b, &s.mb, true)?;
    if max >= 3 && kinds.len() >= 3 {
        st.mark();
    }
    st.class(V::NAME);
    if max > 65_536 {
        st.class("more than 65536 items");
    }
    Ok(())
}

pub struct C15;
impl Prop for C15 {
    type Case = SeqCase;
    fn id(&self) -> &'static str {
        "C15"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if its sequence reached 3 items and its history used at least 3 different operations; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 30_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn class_of(&self, i: u64, t: Tier) -> usize {
        match (i, t) {
            (0..=15, _) => 1,
            (_, Tier::Thorough) if i % 5000 < 2 => 1,
            _ if i % 300 == 150 => 2,
            _ => 0,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<SeqCase> {
        if class == 1 {
            // past 16-bit lengths
            let b = (prop::sample::select(vec![65_535u32, 65_536, 66_000, 70_000]), any::<u32>(), any::<bool>()).prop_map(|(n, v, b)| if b { S::ManyAppend(n, v % 1000) } else { S::Many(n, v % 1000) });
            return (0u8..3, b, prop::collection::vec(sop(), 0..5)).prop_map(|(ty, b, mut ops)| {
                ops.insert(0, b);
                SeqCase { ty, ops }
            })
            .boxed();
        }
        if class == 2 {
            // thousands of items, in one go or piecemeal
            let b = (prop_oneof![1000u32..4300, prop::sample::select(vec![1023u32, 1024, 1025, 4096, 4097, 8193])], any::<u32>(), any::<bool>())
                .prop_map(|(n, v, b)| if b { S::ManyAppend(n, v % 1000) } else { S::Many(n, v % 1000) });
            return (any::<u8>(), prop::collection::vec(sop(), 0..4), b, prop::collection::vec(sop(), 0..5))
                .prop_map(|(ty, mut ops, b, more)| {
                    ops.push(b);
                    ops.extend(more);
                    SeqCase { ty, ops }
                })
                .boxed();
        }
        (any::<u8>(), prop::collection::vec(sop(), 1..30)).prop_map(|(ty, ops)| SeqCase { ty, ops }).boxed()
    }
    fn check(&self, c: &SeqCase, st: &mut Stats) -> Res {
        match c.ty % 13 {
            0 => run::<u32>(c, st),
            1 => run::<u8>(c, st),
            2 => run::<bool>(c, st),
            3 => run::<u128>(c, st),
            4 => run::<[u8; 5]>(c, st),
            5 => run::<String>(c, st),
            6 => run::<Vec<u8>>(c, st),
            7 => run::<Box<u64>>(c, st),
            8 => run::<Seq<u8>>(c, st),
            9 => run::<Seq<u32>>(c, st),
            10 => run::<Map<u8, u16>>(c, st),
            11 => run::<Nil>(c, st),
            _ => run::<Map<String, Seq<u8>>>(c, st),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["item types whose equality is that of their certified content (a float's two zeros are equal but certify differently)".into()]
    }
}
