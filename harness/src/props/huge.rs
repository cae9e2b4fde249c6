//! Encodings of collections with very many entries (C16, C25): lengths around the powers of two at which counters,
//! length fields and buffers change.
use super::paged::{CMirror, Mirror, PK};
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use candid::CandidType;
use certified_vars::{AsHashTree, Map, Paged, Seq};
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::ser::{SerializeMap, SerializeSeq};
use serde::{Deserialize, Serialize, Serializer};
use std::collections::BTreeMap;
use std::fmt::Debug;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Huge {
    pub ty: u8,
    pub n: u32,
    pub seed: u32,
    /// order of insertion
    pub order: u8,
    pub fmt: u8,
    /// (C25) entries written a second time at another place, with another value
    pub dups: Vec<(u32, u32)>,
    /// (C25) without an announced length
    pub open: bool,
    /// (C25) a change of the bytes: kind, place
    pub byte: Option<(u8, u32)>,
}
/// `kind`: collection and format; from 12 on with a change of the bytes, or of any length.
pub fn huge(kind: usize) -> BoxedStrategy<Huge> {
    let (coll, fmt, any_len) = (kind % 3, (kind / 3 % 4) as u8, kind >= 12);
    let n = if any_len {
        prop_oneof![
            2 => prop::sample::select(vec![65_535u32, 65_536]),
            2 => 65_537u32..150_000,
            1 => prop::sample::select(vec![4095u32, 4096, 4097, 8192, 16_383, 16_384, 16_385, 32_767, 32_768, 32_769]),
            1 => 2000u32..65_000,
        ]
        .boxed()
    } else {
        prop_oneof![1 => Just(65_537u32), 2 => 65_537u32..80_000].boxed()
    };
    let byte = if any_len { proptest::option::weighted(0.6, any::<(u8, u32)>()).boxed() } else { Just(None).boxed() };
    let ty = (0usize..[4, 3, 3][coll]).prop_map(move |x| ([0, 4, 7][coll] + x) as u8);
    let dups = prop_oneof![1 => Just(vec![]).boxed(), 1 => prop::collection::vec(any::<(u32, u32)>(), 1..4).boxed()];
    (ty, n, any::<u32>(), any::<u8>(), Just(fmt), dups, any::<bool>(), byte)
        .prop_map(|(ty, n, seed, order, fmt, dups, open, byte)| Huge { ty, n, seed, order, fmt, dups, open, byte })
        .boxed()
}

trait Num: AsHashTree + Serialize + DeserializeOwned + CandidType + Clone + PartialEq + Debug + 'static {
    fn of(x: u32) -> Self;
}
impl Num for u8 {
    fn of(x: u32) -> u8 {
        x as u8
    }
}
impl Num for u16 {
    fn of(x: u32) -> u16 {
        x as u16
    }
}
impl Num for u32 {
    fn of(x: u32) -> u32 {
        x
    }
}
impl Num for u64 {
    fn of(x: u32) -> u64 {
        (x as u64) << 9
    }
}
impl Num for String {
    fn of(x: u32) -> String {
        format!("{:x}", x)
    }
}

/// A collection and its standard shapes.
trait Coll: Sized + Serialize + DeserializeOwned + CandidType {
    const NAME: &'static str;
    const JSON: bool;
    type S: Serialize + DeserializeOwned;
    type C: CandidType + DeserializeOwned;
    fn make(h: &Huge) -> (Self, Self::S);
    fn to_c(s: &Self::S) -> Self::C;
    fn from_c(c: Self::C) -> Self::S;
    fn same(&self, s: &Self::S) -> Res;
    fn std_same(a: &Self::S, b: &Self::S) -> bool;
    fn more(&mut self, s: &mut Self::S, x: u32);
    /// The encoding of `s` with the changes of C25.
    fn odd(h: &Huge, s: &Self::S, json: bool) -> Vec<u8>;
}
struct Pairs<'a, K, V>(&'a [(K, V)], bool);
impl<K: Serialize, V: Serialize> Serialize for Pairs<'_, K, V> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let mut m = z.serialize_map(if self.1 { None } else { Some(self.0.len()) })?;
        for (k, v) in self.0 {
            m.serialize_entry(k, v)?;
        }
        m.end()
    }
}
struct Items<'a, T>(&'a [T], bool);
impl<T: Serialize> Serialize for Items<'_, T> {
    fn serialize<Z: Serializer>(&self, z: Z) -> Result<Z::Ok, Z::Error> {
        let mut m = z.serialize_seq(if self.1 { None } else { Some(self.0.len()) })?;
        for x in self.0 {
            m.serialize_element(x)?;
        }
        m.end()
    }
}
fn ser<X: Serialize>(x: &X, json: bool) -> Vec<u8> {
    if json {
        serde_json::to_vec(x).unwrap()
    } else {
        serde_cbor::to_vec(x).unwrap()
    }
}
fn dup<X: Clone>(h: &Huge, v: &mut Vec<X>, f: impl Fn(X, u32) -> X) {
    for (a, b) in &h.dups {
        let x = f(v[*a as usize % v.len()].clone(), *b);
        let at = *b as usize % (v.len() + 1);
        v.insert(at, x);
    }
}
fn order(h: &Huge, i: u32) -> u32 {
    match h.order % 3 {
        0 => i,
        1 => h.n - 1 - i,
        _ => {
            // an odd number below a power of two above n: a permutation of 0..2^k
            let k = h.n.next_power_of_two();
            i.wrapping_mul(2_654_435_761).wrapping_add(h.seed) % k
        }
    }
}
fn root_is_tree(x: &impl AsHashTree) -> Result<T, String> {
    let t = T::from_ht(&x.as_hash_tree());
    ensure!(t.hash() == x.root_hash(), "root_hash is {}, the hash of the tree {}", hx(&x.root_hash()), hx(&t.hash()));
    Ok(t)
}

impl<K: Num + Ord + certified_vars::label::Label, V: Num> Coll for Map<K, V> {
    const NAME: &'static str = "Map";
    const JSON: bool = true;
    type S = BTreeMap<K, V>;
    type C = Vec<(K, V)>;
    fn make(h: &Huge) -> (Self, Self::S) {
        let (mut m, mut s) = (Map::new(), BTreeMap::new());
        for i in 0..h.n {
            let k = order(h, i);
            m.insert(K::of(k), V::of(k ^ h.seed));
            s.insert(K::of(k), V::of(k ^ h.seed));
        }
        (m, s)
    }
    fn to_c(s: &Self::S) -> Self::C {
        s.iter().map(|(k, v)| (k.clone(), v.clone())).collect()
    }
    fn from_c(c: Self::C) -> Self::S {
        c.into_iter().collect()
    }
    fn same(&self, s: &Self::S) -> Res {
        ensure!(self.len() == s.len(), "{} entries, expected {}", self.len(), s.len());
        for (i, (a, b)) in self.iter().zip(s).enumerate() {
            ensure!(a == b, "entry {} is {:?}, expected {:?}", i, a, b);
        }
        ensure!(self.iter().count() == s.len(), "iteration yields {} entries, expected {}", self.iter().count(), s.len());
        let t = root_is_tree(self)?;
        let mut l = vec![];
        t.labels(&mut l);
        ensure!(l.len() == s.len() && l.iter().zip(s.keys()).all(|(a, k)| a[..] == *k.as_label()), "the labels of the tree are not the keys");
        for (k, v) in s.iter().step_by(s.len() / 7 + 1) {
            let w = T::from_ht(&self.witness(k));
            let want = T::from_ht(&v.as_hash_tree());
            ensure!(w.hash() == self.root_hash() && lookup(&w, &[&k.as_label()]) == Look::Found(&want), "witness of {:?}: {:?}", k, w);
            ensure!(self.get(k) == Some(v), "get({:?}) is {:?}", k, self.get(k));
        }
        Ok(())
    }
    fn std_same(a: &Self::S, b: &Self::S) -> bool {
        a == b
    }
    fn more(&mut self, s: &mut Self::S, x: u32) {
        self.insert(K::of(x), V::of(x));
        s.insert(K::of(x), V::of(x));
        let k = s.keys().nth(x as usize % s.len()).unwrap().clone();
        self.remove(&k);
        s.remove(&k);
    }
    fn odd(h: &Huge, s: &Self::S, json: bool) -> Vec<u8> {
        let mut v = Self::to_c(s);
        dup(h, &mut v, |(k, _), x| (k, V::of(x)));
        ser(&Pairs(&v, h.open), json)
    }
}
impl<V: Num> Coll for Seq<V> {
    const NAME: &'static str = "Seq";
    const JSON: bool = true;
    type S = Vec<V>;
    type C = Vec<V>;
    fn make(h: &Huge) -> (Self, Self::S) {
        let s: Vec<V> = (0..h.n).map(|i| V::of(order(h, i) ^ h.seed)).collect();
        (s.iter().cloned().collect(), s)
    }
    fn to_c(s: &Self::S) -> Self::C {
        s.clone()
    }
    fn from_c(c: Self::C) -> Self::S {
        c
    }
    fn same(&self, s: &Self::S) -> Res {
        ensure!(self.len() == s.len(), "{} items, expected {}", self.len(), s.len());
        if let Some(i) = (0..s.len()).find(|i| self[*i] != s[*i]) {
            return Err(format!("item {} is {:?}, expected {:?}", i, self[i], s[i]));
        }
        let h = s.iter().fold([0; 32], |h, x| sha(&[&h, &T::from_ht(&x.as_hash_tree()).hash()]));
        ensure!(h == self.root_hash(), "root hash {}, expected {}", hx(&self.root_hash()), hx(&h));
        root_is_tree(self).map(|_| ())
    }
    fn std_same(a: &Self::S, b: &Self::S) -> bool {
        a == b
    }
    fn more(&mut self, s: &mut Self::S, x: u32) {
        self.append(V::of(x));
        s.push(V::of(x));
    }
    fn odd(h: &Huge, s: &Self::S, json: bool) -> Vec<u8> {
        let mut v = s.clone();
        dup(h, &mut v, |_, x| V::of(x));
        ser(&Items(&v, h.open), json)
    }
}
impl<K: Num + Ord + certified_vars::label::Label, V: Num, const S: usize> Coll for Paged<K, V, S> {
    const NAME: &'static str = "Paged";
    const JSON: bool = false;
    type S = Mirror<K, V>;
    type C = CMirror<K, V>;
    fn make(h: &Huge) -> (Self, Self::S) {
        let (mut p, mut s) = (Paged::new(), BTreeMap::<PK<K>, Vec<V>>::new());
        let keys = if h.order % 2 == 0 { 3 } else { h.n / 2 + 1 };
        let mut last = BTreeMap::new();
        for i in 0..h.n {
            let k = K::of(i.wrapping_mul(2_654_435_761).wrapping_add(h.seed) % keys);
            p.insert(k.clone(), V::of(i));
            let page = last.entry(k.clone()).or_insert(0u32);
            let key = PK { key: k.clone(), page: *page };
            if s.get(&key).map_or(false, |v| v.len() == S) {
                *page += 1;
            }
            s.entry(PK { key: k, page: *page }).or_default().push(V::of(i));
        }
        (p, Mirror { data: s })
    }
    fn to_c(s: &Self::S) -> Self::C {
        CMirror { data: s.data.iter().map(|(k, v)| (PK { key: k.key.clone(), page: k.page }, v.clone())).collect() }
    }
    fn from_c(c: Self::C) -> Self::S {
        Mirror { data: c.data.into_iter().collect() }
    }
    fn same(&self, s: &Self::S) -> Res {
        for (k, v) in &s.data {
            let p = self.get(&k.key, k.page as usize);
            ensure!(p.map(|x| x.as_vec()) == Some(v), "page {} of {:?} is {:?}, expected {:?}", k.page, k.key, p, v);
        }
        let last: BTreeMap<&K, u32> = s.data.keys().map(|k| (&k.key, k.page)).collect();
        for (k, p) in last {
            ensure!(self.get_last_page_number(k) == Some(p as usize), "last page of {:?} is {:?}, expected {}", k, self.get_last_page_number(k), p);
        }
        let t = root_is_tree(self)?;
        let mut l = vec![];
        t.labels(&mut l);
        ensure!(l.len() == s.data.len(), "{} pages in the tree, expected {}", l.len(), s.data.len());
        Ok(())
    }
    fn std_same(a: &Self::S, b: &Self::S) -> bool {
        a.data == b.data
    }
    fn more(&mut self, s: &mut Self::S, x: u32) {
        // a key not used yet, or the next page of the last one
        let l = s.data.keys().last().unwrap();
        let (k, p) = (l.key.clone(), l.page);
        self.insert(k.clone(), V::of(x));
        let full = s.data.values().last().unwrap().len() == S;
        s.data.entry(PK { key: k, page: p + full as u32 }).or_default().push(V::of(x));
    }
    fn odd(h: &Huge, s: &Self::S, json: bool) -> Vec<u8> {
        let mut v: Vec<(PK<K>, Vec<V>)> = s.data.iter().map(|(k, v)| (PK { key: k.key.clone(), page: k.page }, v.clone())).collect();
        // (a duplicate of the same contents: pages stay full)
        for (a, b) in &h.dups {
            let (k, x) = &v[*a as usize % v.len()];
            let x = (PK { key: k.key.clone(), page: k.page }, x.clone());
            let at = *b as usize % (v.len() + 1);
            v.insert(at, x);
        }
        let p = Pairs(&v, h.open);
        ser(&BTreeMap::from([("data", &p)]), json)
    }
}

fn de<X: DeserializeOwned>(fmt: u8, b: &[u8]) -> Result<X, String> {
    match fmt {
        0 => serde_cbor::from_slice(b).map_err(|e| e.to_string()),
        1 => serde_cbor::from_reader(b).map_err(|e| e.to_string()),
        _ => serde_json::from_slice(b).map_err(|e| e.to_string()),
    }
}
const FMT: [&str; 4] = ["CBOR", "CBOR reader", "JSON", "Candid"];

fn round<X: Coll>(h: &Huge, st: &mut Stats) -> Res {
    let fmt = match h.fmt % 4 {
        2 if !X::JSON => 0,
        x => x,
    };
    st.class(&format!("{} of {} through {}", X::NAME, if h.n > 65_536 { "more than 65536" } else { "up to 65536" }, FMT[fmt as usize]));
    let (x, mut s) = X::make(h);
    let mut back: Vec<(&str, X)> = vec![];
    if fmt == 3 {
        let b = candid::encode_one(&x).map_err(|e| e.to_string())?;
        back.push(("itself", candid::decode_one(&b).map_err(|e| format!("decoding failed: {}", e))?));
        let d: X::C = candid::decode_one(&b).map_err(|e| format!("decoding as the standard shape failed: {}", e))?;
        ensure!(X::std_same(&X::from_c(d), &s), "{} decodes as another standard value", X::NAME);
        let b = candid::encode_one(&X::to_c(&s)).map_err(|e| e.to_string())?;
        back.push(("the standard shape", candid::decode_one(&b).map_err(|e| format!("decoding the standard shape failed: {}", e))?));
    } else {
        let b = ser(&x, fmt == 2);
        back.push(("itself", de(fmt, &b).map_err(|e| format!("decoding failed: {}", e))?));
        let d: X::S = de(fmt, &b).map_err(|e| format!("decoding as the standard shape failed: {}", e))?;
        ensure!(X::std_same(&d, &s), "{} decodes as another standard value", X::NAME);
        back.push(("the standard shape", de(fmt, &ser(&s, fmt == 2)).map_err(|e| format!("decoding the standard shape failed: {}", e))?));
    }
    drop(x);
    let n = back.len();
    for (i, (from, mut y)) in back.into_iter().enumerate() {
        let ctx = |e: String| format!("{} of {} decoded from {} ({}): {}", X::NAME, h.n, from, FMT[fmt as usize], e);
        y.same(&s).map_err(ctx)?;
        if i + 1 == n {
            y.more(&mut s, h.seed);
            y.same(&s).map_err(|e| ctx(format!("after a change: {}", e)))?;
        }
    }
    st.mark();
    Ok(())
}
fn decode<X: Coll>(h: &Huge, st: &mut Stats) -> Res {
    let fmt = match h.fmt % 3 {
        2 if !X::JSON => 0,
        x => x,
    };
    let s = X::make(h).1;
    let mut b = X::odd(h, &s, fmt == 2);
    let mut plain = h.dups.is_empty() && !h.open;
    if let Some((how, at)) = h.byte {
        plain = false;
        let at = at as usize % b.len();
        match how % 4 {
            0 => b.truncate(at),
            1 => b[at] ^= 1 << (how >> 5),
            2 => b.push(how),
            _ => {
                b.remove(at);
            }
        }
    }
    let ctx = |e: String| format!("{} of {} ({}): {}", X::NAME, h.n, FMT[fmt as usize], e);
    let (x, want) = (de::<X>(fmt, &b), de::<X::S>(fmt, &b));
    match (x, want) {
        (Ok(mut x), Ok(mut w)) => {
            st.class(&format!("{} of many entries accepted", X::NAME));
            if !plain {
                st.mark();
            }
            // (a page whose length was changed is checked no further: which page takes the next item is C18's matter)
            x.same(&w).map_err(ctx)?;
            if h.byte.is_none() {
                x.more(&mut w, h.seed);
                x.same(&w).map_err(|e| ctx(format!("after a change: {}", e)))?;
            }
            Ok(())
        }
        (Err(_), Err(_)) => {
            st.class(&format!("{} of many entries refused", X::NAME));
            st.mark();
            Ok(())
        }
        (Ok(_), Err(e)) => Err(ctx(format!("accepted, but the standard shape refuses it: {}", e))),
        (Err(e), Ok(_)) => Err(ctx(format!("refused ({}), but the standard shape accepts it", e))),
    }
}
macro_rules! by_type {
    ($f:ident, $h:expr, $st:expr) => {
        match $h.ty % 10 {
            0 => $f::<Map<u32, u8>>($h, $st),
            1 => $f::<Map<u64, u16>>($h, $st),
            2 => $f::<Map<String, u32>>($h, $st),
            3 => $f::<Map<u32, String>>($h, $st),
            4 => $f::<Seq<u8>>($h, $st),
            5 => $f::<Seq<u32>>($h, $st),
            6 => $f::<Seq<String>>($h, $st),
            7 => $f::<Paged<u32, u32, 1>>($h, $st),
            8 => $f::<Paged<u8, u16, 2>>($h, $st),
            _ => $f::<Paged<u64, u8, 3>>($h, $st),
        }
    };
}
pub fn huge_round(h: &Huge, st: &mut Stats) -> Res {
    by_type!(round, h, st)
}
pub fn huge_decode(h: &Huge, st: &mut Stats) -> Res {
    by_type!(decode, h, st)
}
