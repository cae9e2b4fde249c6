//! C17, C18: Paged against a map of vectors cut into pages.
use super::keys::*;
use super::sut::{pool_dense, pool_raw, HKDense, Pool};
use super::vals::*;
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use candid::{CandidType, Principal};
use certified_vars::{AsHashTree, Map, Paged, Seq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum POp {
    Ins(u32, u32),
    /// many items for one key
    Many { i: u32, n: u32, v: u32 },
    /// items for several keys in turn
    Round { from: u32, keys: u32, times: u32, v: u32 },
    /// through an encoding and back
    Recode(u8),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PCase {
    pub combo: u8,
    pub pool: Pool,
    pub ops: Vec<POp>,
    pub probes: Vec<u32>,
}

/// The standard shape of a Paged.
#[derive(CandidType, Serialize, Deserialize, Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct PK<K> {
    pub key: K,
    pub page: u32,
}
#[derive(CandidType, Serialize, Deserialize, Debug, Clone, PartialEq)]
#[serde(bound(deserialize = "K: Deserialize<'de> + Ord, M: Deserialize<'de>"))]
pub struct Mirror<K: Ord, M> {
    pub data: BTreeMap<PK<K>, Vec<M>>,
}
#[derive(CandidType, Serialize, Deserialize, Debug, Clone, PartialEq)]
pub struct CMirror<K, M> {
    pub data: Vec<(PK<K>, Vec<M>)>,
}

pub struct PSut<K: HK, V: HV, const S: usize> {
    pub p: Paged<K, V, S>,
    /// what the pages have to hold
    pub m: BTreeMap<PK<K>, Vec<V::M>>,
    /// every key's items in insertion order (unless the contents came from arbitrary bytes)
    pub flat: Option<BTreeMap<K, Vec<V::M>>>,
    pub pool: Pool,
}

pub trait DynPaged {
    fn name(&self) -> String;
    fn insert(&mut self, i: u32, v: u32) -> Res;
    fn pages(&self) -> usize;
    fn keys(&self) -> usize;
    fn check_pages(&self, probes: &[u32]) -> Res;
    fn check_cert(&self, probes: &[u32], st: &mut Stats) -> Res;
    fn recode(&mut self, how: u8) -> Res;
    fn root(&self) -> H;
    fn tree(&self) -> T;
    fn encoded(&self) -> Vec<u8>;
    fn contents(&self) -> Vec<u8>;
    fn witnesses(&self, i: u32, page: usize) -> (T, T);
    fn read(&self, w: u32);
}

fn plabel<K: HK>(k: &K, page: u32) -> Vec<u8> {
    let mut l = k.lab();
    l.extend(page.to_be_bytes());
    l
}

impl<K: HK + HKDense, V: HV, const S: usize> PSut<K, V, S> {
    pub fn new(pool: Pool) -> Self {
        PSut { p: Paged::default(), m: BTreeMap::new(), flat: Some(BTreeMap::new()), pool }
    }
    fn last(&self, k: &K) -> Option<u32> {
        let a = PK { key: k.clone(), page: 0 };
        let b = PK { key: k.clone(), page: u32::MAX };
        self.m.range(a..=b).next_back().map(|x| x.0.page)
    }
    fn keys_seen(&self, probes: &[u32]) -> Vec<K> {
        let mut v: Vec<K> = vec![];
        for k in self.m.keys() {
            if v.last() != Some(&k.key) {
                v.push(k.key.clone());
            }
        }
        // all keys while they are few, a sample of many
        if v.len() > 200 {
            let n = v.len();
            v = (0..100).map(|i| v[i * n / 100].clone()).collect();
        }
        v.extend(probes.iter().map(|p| self.pool.key::<K>(*p)));
        v
    }
    fn odd_pages(last: Option<u32>, probes: &[u32]) -> Vec<usize> {
        let mut v: Vec<usize> = vec![0, 1, 2, 255, 256, 257, 65535, 65536, u32::MAX as usize - 1, u32::MAX as usize, u32::MAX as usize + 1, usize::MAX, usize::MAX - 1];
        v.extend(probes.iter().map(|p| *p as usize));
        if let Some(l) = last {
            let l = l as usize;
            for d in [0usize, 8, 16, 24, 32, 40, 63] {
                v.push(l.wrapping_add(1 << d));
                v.push(1usize << d);
                v.push(l | 1 << d);
            }
            v.extend([l, l.saturating_sub(1), l / 2, l + 1, l + 2]);
        }
        v.sort();
        v.dedup();
        v
    }
    fn same_page(&self, k: &K, page: usize, want: Option<&Vec<V::M>>) -> Res {
        let got = self.p.get(k, page);
        match (got, want) {
            (None, None) => Ok(()),
            (Some(s), Some(w)) => {
                ensure!(s.len() == w.len() && s.iter().zip(w).all(|(a, b)| a.same(b)), "page {} of {:?} is {:?}, expected {:?}", page, k, s.as_vec(), w);
                Ok(())
            }
            (a, b) => Err(format!("get({:?}, {}) is {:?}, expected {:?}", k, page, a.map(|x| x.as_vec()), b)),
        }
    }
    fn page_tree(&self, k: &PK<K>, w: &[V::M]) -> Result<T, String> {
        let s = self.p.get(&k.key, k.page as usize).ok_or_else(|| format!("page {} of {:?} is missing", k.page, k.key))?;
        ensure!(s.len() == w.len(), "page {} of {:?} has {} items, expected {}", k.page, k.key, s.len(), w.len());
        let mut hs = vec![];
        for (a, b) in s.iter().zip(w) {
            hs.push(a.tree(b)?.hash());
        }
        Ok(T::Pruned(chain(hs.into_iter())))
    }
}

impl<K: HK + HKDense + CandidType, V: HV + CandidType, const S: usize> DynPaged for PSut<K, V, S>
where
    V::M: CandidType,
{
    fn name(&self) -> String {
        format!("Paged<{}, {}, {}>", K::NAME, V::NAME, S)
    }
    fn pages(&self) -> usize {
        self.m.len()
    }
    fn keys(&self) -> usize {
        let mut n = 0;
        let mut prev = None;
        for k in self.m.keys() {
            if prev != Some(&k.key) {
                n += 1;
                prev = Some(&k.key);
            }
        }
        n
    }

    fn insert(&mut self, i: u32, v: u32) -> Res {
        let k: K = self.pool.key(i);
        if let Some(f) = &mut self.flat {
            f.entry(k.clone()).or_default().push(V::mk_m(v));
        }
        let last = self.last(&k);
        let page = match last {
            None => 0,
            Some(l) => {
                let n = self.m[&PK { key: k.clone(), page: l }].len();
                if n > S {
                    // only from decoded data; both going on and opening the next page are fine
                    ensure!(self.flat.is_none(), "a page of more than {} items", S);
                    if l == u32::MAX && panics(|| self.p.insert(k.clone(), V::mk(v))) {
                        return Ok(());
                    }
                    if l < u32::MAX {
                        self.p.insert(k.clone(), V::mk(v));
                    }
                    let now = self.p.get_last_page_number(&k).ok_or("last page vanished")?;
                    ensure!(now == l as usize || now == l as usize + 1, "last page went from {} to {}", l, now);
                    self.m.entry(PK { key: k, page: now as u32 }).or_default().push(V::mk_m(v));
                    return Ok(());
                } else if n == S {
                    if l == u32::MAX {
                        // no page number left: nothing but a refusal is right
                        ensure!(panics(|| self.p.insert(k.clone(), V::mk(v))), "insert after the full page {} succeeded", l);
                        return Ok(());
                    }
                    l + 1
                } else {
                    l
                }
            }
        };
        self.p.insert(k.clone(), V::mk(v));
        self.m.entry(PK { key: k, page }).or_default().push(V::mk_m(v));
        Ok(())
    }

    fn check_pages(&self, probes: &[u32]) -> Res {
        if let Some(f) = &self.flat {
            // the model itself: pages are the items cut into pieces of S
            let mut want = BTreeMap::new();
            for (k, items) in f {
                for (p, c) in items.chunks(S).enumerate() {
                    want.insert(PK { key: k.clone(), page: p as u32 }, c.to_vec());
                }
            }
            ensure!(want == self.m, "the model of the check is inconsistent");
        }
        for (k, w) in &self.m {
            self.same_page(&k.key, k.page as usize, Some(w))?;
        }
        for k in self.keys_seen(probes) {
            let last = self.last(&k);
            let got = self.p.get_last_page_number(&k);
            ensure!(got == last.map(|x| x as usize), "get_last_page_number({:?}) is {:?}, expected {:?}", k, got, last);
            for page in Self::odd_pages(last, probes) {
                let w = u32::try_from(page).ok().and_then(|page| self.m.get(&PK { key: k.clone(), page }));
                self.same_page(&k, page, w)?;
            }
        }
        Ok(())
    }

    fn check_cert(&self, probes: &[u32], st: &mut Stats) -> Res {
        let root = self.root();
        let t = self.tree();
        ensure!(t.hash() == root, "root_hash is {}, the hash of the tree {}", hx(&root), hx(&t.hash()));
        if self.m.is_empty() {
            ensure!(t == T::Empty, "tree of an empty Paged is {:?}", t);
        }
        let mut want = vec![];
        for (k, w) in &self.m {
            want.push((plabel(&k.key, k.page), self.page_tree(k, w)?));
        }
        if !self.m.is_empty() {
            full_tree(&t, root, &want)?;
        }
        let sorted = want.windows(2).all(|w| w[0].0 < w[1].0);
        // only that a fixed-width page number after a key of variable width (or with an
        // ill-ordered label) cannot keep the order
        let sig = format!("paged-label-order:{}", K::NAME);
        let explained = |a: &PK<K>, b: &PK<K>| {
            let (x, y) = (a.key.lab(), b.key.lab());
            a.key != b.key && (x.starts_with(&y) || y.starts_with(&x) || !K::ORDERED)
        };
        if !sorted {
            // labels out of order although the entries are the right ones in key order
            let i = want.windows(2).position(|w| w[0].0 >= w[1].0).unwrap();
            let (a, b) = {
                let mut it = self.m.keys().skip(i);
                (it.next().unwrap(), it.next().unwrap())
            };
            let d = || format!("{}: page {} of {:?} (label {}) comes before page {} of {:?} (label {})", self.name(), a.page, a.key, hx(&want[i].0), b.page, b.key, hx(&want[i + 1].0));
            ensure!(explained(a, b) && st.known(&sig, d), "{}", d());
        }
        // a missing page: absent, or the listed finding about the order of labels
        let mut missing = |what: &str, pk: &PK<K>, t: &T| -> Res {
            let l = plabel(&pk.key, pk.page);
            let r = lookup(t, &[&l]);
            if r == Look::Absent {
                return Ok(());
            }
            ensure!(!matches!(r, Look::Found(_)), "{} shows the missing page {} of {:?}: {:?}", what, pk.page, pk.key, t);
            let d = || format!("{}: {}: the missing page {} of {:?} is {:?} instead of absent in {:?}", self.name(), what, pk.page, pk.key, r, t);
            // the order of this page and of the existing ones differs from that of the labels
            let odd = self.m.keys().zip(&want).any(|(e, w)| e.cmp(pk) != w.0.cmp(&l) && explained(e, pk));
            ensure!((odd || !sorted) && st.known(&sig, d), "{}", d());
            Ok(())
        };
        for k in self.keys_seen(probes) {
            let last = self.last(&k);
            let t = T::from_ht(&self.p.witness_last_page_number(&k));
            ensure!(t.hash() == root, "witness_last_page_number({:?}) has hash {}, the root hash is {}", k, hx(&t.hash()), hx(&root));
            if let Some(l) = last {
                ensure!(matches!(lookup(&t, &[&plabel(&k, l)]), Look::Found(_)), "witness_last_page_number({:?}) does not show page {}: {:?}", k, l, t);
            }
            let next = last.map(|x| x as u64 + 1).unwrap_or(0);
            if next <= u32::MAX as u64 {
                missing("witness_last_page_number", &PK { key: k.clone(), page: next as u32 }, &t)?;
            }
            let pages = Self::odd_pages(last, probes);
            // all of them for small collections, a part of them (another one each time) else
            let step = if self.m.len() <= 3 { 1 } else { 4 };
            for page in pages.into_iter().skip(self.m.len() % step).step_by(step) {
                let t = T::from_ht(&self.p.witness(&k, page));
                ensure!(t.hash() == root, "witness({:?}, {}) has hash {}, the root hash is {}", k, page, hx(&t.hash()), hx(&root));
                let page = match u32::try_from(page) {
                    Ok(p) => p,
                    // not a page that could have a label
                    Err(_) => continue,
                };
                let l = plabel(&k, page);
                let r = lookup(&t, &[&l]);
                let pk = PK { key: k.clone(), page };
                match self.m.get(&pk) {
                    Some(w) => {
                        let c = self.page_tree(&pk, w)?;
                        ensure!(r == Look::Found(&c), "witness({:?}, {}) shows {:?}, expected {:?}", k, page, r, c);
                    }
                    None => missing("witness", &pk, &t)?,
                }
            }
        }
        Ok(())
    }

    fn recode(&mut self, how: u8) -> Res {
        let e = |w: &str, e: &dyn std::fmt::Display| format!("{}: {}: {}", self.name(), w, e);
        match how % 6 {
            0 => {
                let b = serde_cbor::to_vec(&self.p).map_err(|x| e("CBOR", &x))?;
                super::short_output(&self.name(), b.len(), |w| serde_cbor::to_writer(w, &self.p).is_ok())?;
                let std: Mirror<K, V::M> = serde_cbor::from_slice(&b).map_err(|x| e("own CBOR as a standard map", &x))?;
                ensure!(std.data == self.m, "{}: own CBOR read as a standard map is {:?}, expected {:?}", self.name(), std.data, self.m);
                self.p = serde_cbor::from_slice(&b).map_err(|x| e("own CBOR", &x))?;
            }
            1 => {
                let b = serde_cbor::to_vec(&Mirror { data: self.m.clone() }).map_err(|x| e("CBOR", &x))?;
                self.p = serde_cbor::from_reader(&b[..]).map_err(|x| e("CBOR of the standard map", &x))?;
            }
            2 => {
                let b = candid::encode_one(&self.p).map_err(|x| e("Candid", &x))?;
                let std: CMirror<K, V::M> = candid::decode_one(&b).map_err(|x| e("own Candid as a vector of pairs", &x))?;
                let want: Vec<_> = self.m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                ensure!(std.data == want, "{}: own Candid read as a vector of pairs is {:?}, expected {:?}", self.name(), std.data, want);
                self.p = candid::decode_one(&b).map_err(|x| e("own Candid", &x))?;
            }
            3 => {
                let mut data: Vec<_> = self.m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
                // a vector of pairs in another order
                let n = data.len();
                if n > 1 {
                    data.rotate_left(n / 3);
                    data.swap(0, n / 2);
                }
                let b = candid::encode_one(&CMirror { data }).map_err(|x| e("Candid", &x))?;
                self.p = candid::decode_one(&b).map_err(|x| e("Candid of the vector of pairs", &x))?;
            }
            4 => {
                let b = serde_cbor::ser::to_vec_packed(&self.p).map_err(|x| e("packed CBOR", &x))?;
                self.p = serde_cbor::from_slice(&b).map_err(|x| e("packed CBOR", &x))?;
            }
            _ => {
                let v = serde_cbor::value::to_value(&self.p).map_err(|x| e("CBOR value", &x))?;
                self.p = serde_cbor::value::from_value(v).map_err(|x| e("CBOR value", &x))?;
            }
        }
        Ok(())
    }

    fn root(&self) -> H {
        self.p.root_hash()
    }
    fn tree(&self) -> T {
        T::from_ht(&self.p.as_hash_tree())
    }
    fn encoded(&self) -> Vec<u8> {
        let mut v = serde_cbor::to_vec(&self.p).unwrap_or_default();
        v.extend(candid::encode_one(&self.p).unwrap());
        v
    }
    fn contents(&self) -> Vec<u8> {
        serde_cbor::to_vec(&Mirror { data: self.m.clone() }).unwrap_or_else(|_| format!("{:?}", self.m).into_bytes())
    }
    fn witnesses(&self, i: u32, page: usize) -> (T, T) {
        let k: K = self.pool.key(i);
        (T::from_ht(&self.p.witness(&k, page)), T::from_ht(&self.p.witness_last_page_number(&k)))
    }
    fn read(&self, w: u32) {
        let k: K = self.pool.key(w / 6);
        match w % 6 {
            0 => {
                self.p.get(&k, w as usize % 3);
            }
            1 => {
                self.p.get_last_page_number(&k);
            }
            2 => {
                let _ = self.p.witness(&k, w as usize % 4);
            }
            3 => {
                let _ = self.p.witness_last_page_number(&k);
            }
            4 => {
                self.p.root_hash();
                let _ = self.p.as_hash_tree();
            }
            _ => {
                let _ = serde_cbor::to_vec(&self.p);
                let _ = format!("{:?}", self.p);
            }
        }
    }
}

macro_rules! pcombos {
    ($($n:expr => $k:ty, $v:ty, $s:expr;)*) => {
        pub const NPC: u8 = [$($n),*].len() as u8;
        pub fn make(combo: u8, pool: Pool) -> Box<dyn DynPaged> {
            match combo % NPC {
                $($n => Box::new(PSut::<$k, $v, $s>::new(pool)),)*
                _ => unreachable!(),
            }
        }
    };
}
pcombos! {
    0 => String, u64, 3;
    1 => u32, String, 2;
    2 => Vec<u8>, Vec<u8>, 1;
    3 => u8, u16, 7;
    4 => u64, Seq<u8>, 1;
    5 => [u8; 3], bool, 64;
    6 => String, Vec<u8>, 1;
    7 => u16, u32, 1000;
    8 => Principal, u64, 2;
    9 => i16, u8, 1;
    10 => bool, u64, 1;
    11 => u64, Map<u8, u16>, 2;
    12 => usize, u64, 3;
    13 => [u8; 1], u32, 5;
    14 => u32, u64, { usize::MAX };
    15 => String, u16, { 1 << 20 };
}

/// A few of them (see `sut::make_few`).
pub fn make_few(combo: u8, pool: Pool) -> Box<dyn DynPaged> {
    match combo % 4 {
        0 => Box::new(PSut::<String, u64, 3>::new(pool)),
        1 => Box::new(PSut::<u32, String, 2>::new(pool)),
        2 => Box::new(PSut::<Vec<u8>, Vec<u8>, 1>::new(pool)),
        _ => Box::new(PSut::<u64, Map<u8, u16>, 2>::new(pool)),
    }
}

pub fn apply(s: &mut dyn DynPaged, o: &POp) -> Res {
    match *o {
        POp::Ins(i, v) => s.insert(i, v)?,
        POp::Many { i, n, v } => {
            for x in 0..n {
                s.insert(i, v.wrapping_add(x))?;
            }
        }
        POp::Round { from, keys, times, v } => {
            for t in 0..times {
                for k in 0..keys {
                    s.insert(from.wrapping_add(k), v.wrapping_add(t * keys + k))?;
                }
            }
        }
        POp::Recode(h) => s.recode(h)?,
    }
    Ok(())
}

pub fn pop(class: usize) -> BoxedStrategy<POp> {
    let v = || 0u32..5000;
    match class {
        0 => prop_oneof![
            8 => (0u32..16, v()).prop_map(|(i, v)| POp::Ins(i, v)),
            3 => (0u32..6, v()).prop_map(|(i, v)| POp::Ins(i, v)),
            3 => (0u32..16, 1u32..12, v()).prop_map(|(i, n, v)| POp::Many { i, n, v }),
            1 => (0u32..16, 1u32..6, 1u32..5, v()).prop_map(|(from, keys, times, v)| POp::Round { from, keys, times, v }),
            1 => any::<u8>().prop_map(POp::Recode),
        ]
        .boxed(),
        _ => prop_oneof![
            2 => (0u32..16, v()).prop_map(|(i, v)| POp::Ins(i, v)),
            2 => (0u32..6, prop_oneof![1u32..80, 250u32..700]).prop_map(|(i, n)| POp::Many { i, n, v: n }),
            2 => (0u32..16, 1u32..60, 1u32..12, v()).prop_map(|(from, keys, times, v)| POp::Round { from, keys, times, v }),
            1 => any::<u8>().prop_map(POp::Recode),
        ]
        .boxed(),
    }
}
/// Class 0: small; 1: hundreds of pages; 2: over 65536 pages of one key.
pub fn pcase(class: usize) -> BoxedStrategy<PCase> {
    let probes = || prop::collection::vec(0u32..300, 3..7);
    match class {
        0 | 1 => (
            0..NPC,
            prop_oneof![3 => pool_raw(6), 1 => pool_dense()],
            prop::collection::vec(pop(class), 1..if class == 0 { 30 } else { 8 }),
            probes(),
        )
            .prop_map(|(combo, pool, ops, probes)| PCase { combo, pool, ops, probes })
            .boxed(),
        _ => (prop::sample::select(vec![4u8, 6, 9, 10]), pool_raw(3), 0u32..3, 65_530u32..65_700, probes())
            .prop_map(|(combo, pool, i, n, probes)| PCase {
                combo,
                pool,
                ops: vec![POp::Round { from: 0, keys: 3, times: 2, v: 7 }, POp::Many { i, n, v: 1 }, POp::Ins(i, 3), POp::Ins(i + 1, 4)],
                probes,
            })
            .boxed(),
    }
}

fn run(c: &PCase, st: &mut Stats, look: &mut dyn FnMut(&dyn DynPaged, &mut Stats) -> Res) -> Res {
    let mut s = make(c.combo, c.pool.clone());
    st.class(&format!("type {}", s.name()));
    let every = [1usize, 1, 2, usize::MAX][c.probes[0] as usize % 4];
    let n = c.ops.len();
    for (i, o) in c.ops.iter().enumerate() {
        apply(&mut *s, o).map_err(|e| format!("{} step {} {:?}: {}", s.name(), i, o, e))?;
        if i + 1 == n || (every != usize::MAX && i % every == 0 && s.pages() < 2000) {
            look(&*s, st).map_err(|e| format!("{} with {} pages of {} keys after step {} {:?}: {}", s.name(), s.pages(), s.keys(), i, o, e))?;
        }
    }
    if n == 0 {
        look(&*s, st)?;
    }
    let (p, k) = (s.pages(), s.keys());
    st.class(match p {
        0..=3 => "final pages: 0-3",
        4..=50 => "final pages: 4-50",
        51..=256 => "final pages: 51-256",
        257..=65536 => "final pages: 257-65536",
        _ => "final pages: >65536",
    });
    st.class(if k <= 1 { "final keys: 0-1" } else { "final keys: 2 or more" });
    if k >= 2 && p > k {
        st.mark();
    }
    Ok(())
}

const RULE: &str = "a case is non-trivial if it ended with at least two keys, one of them with at least two pages; duplicates removed by hashing the case";
fn size(i: u64) -> usize {
    if i % 6007 == 6006 {
        2
    } else if i % 31 == 30 {
        1
    } else {
        0
    }
}
fn assume() -> Vec<String> {
    vec!["page size at least 1".into(), "SHA-256 of the sha2 crate".into(), "at most some 65,700 pages are built by insertion; larger page numbers only as arguments (and, in C25, from decoded data)".into()]
}

pub struct C17;
impl Prop for C17 {
    type Case = PCase;
    fn id(&self) -> &'static str {
        "C17"
    }
    fn rule(&self) -> &'static str {
        RULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 5_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        size(i)
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<PCase> {
        pcase(class)
    }
    fn check(&self, c: &PCase, st: &mut Stats) -> Res {
        run(c, st, &mut |s, _| s.check_pages(&c.probes))
    }
    fn assumptions(&self) -> Vec<String> {
        assume()
    }
}

pub struct C18;
impl Prop for C18 {
    type Case = PCase;
    fn id(&self) -> &'static str {
        "C18"
    }
    fn rule(&self) -> &'static str {
        RULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 25_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        size(i)
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<PCase> {
        pcase(class)
    }
    fn check(&self, c: &PCase, st: &mut Stats) -> Res {
        run(c, st, &mut |s, st| s.check_cert(&c.probes, st))
    }
    fn known_demo(&self, sig: &str) -> Option<String> {
        fn demo<K: HK>(a: K, b: K) -> Option<String> {
            // page 1 of the smaller key against page 0 of the larger one
            let mut p = Paged::<K, u8, 1>::new();
            p.insert(a.clone(), 1);
            p.insert(a.clone(), 2);
            p.insert(b.clone(), 3);
            let t = T::from_ht(&p.as_hash_tree());
            let mut l = vec![];
            t.labels(&mut l);
            let i = l.windows(2).position(|w| w[0] >= w[1])?;
            Some(format!("full tree with pages 0, 1 of {:?} and page 0 of {:?}: label {} before {}", a, b, hx(&l[i]), hx(&l[i + 1])))
        }
        match sig.strip_prefix("paged-label-order:")? {
            "String" => demo("a".to_string(), "a\0".to_string()),
            "Vec<u8>" => demo(vec![97u8], vec![97, 0]),
            "i16" => demo(-1i16, 0),
            "Principal" => demo(<Principal as HK>::mk(&[2]), <Principal as HK>::mk(&[1, 0])),
            _ => None,
        }
    }
    fn assumptions(&self) -> Vec<String> {
        assume()
    }
}
