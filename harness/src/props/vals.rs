//! Value types with a plain-data model, and validation of their certified form against it.
use super::keys::mk_string;
use crate::spec::*;
use certified_vars::{AsHashTree, Map, Seq};
use serde::de::DeserializeOwned;
use serde::Serialize;
use std::collections::BTreeMap;
use std::fmt::Debug;

fn mixs(s: u32) -> u64 {
    let mut x = (s as u64).wrapping_add(0x9E3779B97F4A7C15);
    x = (x ^ (x >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    x = (x ^ (x >> 27)).wrapping_mul(0x94D049BB133111EB);
    x ^ (x >> 31)
}
/// Deterministic bytes of a value seed: mostly short, sometimes empty or long.
pub fn seed_bytes(s: u32) -> Vec<u8> {
    let m = mixs(s);
    let n = match m % 16 {
        0 => 0,
        1 => 40,
        2 => 200,
        3 => 300,
        k => (k as usize) % 9,
    };
    (0..n).map(|i| (mixs(s ^ (i as u32 + 1).wrapping_mul(0x01000193)) >> 11) as u8).collect()
}

pub trait HV: AsHashTree + Debug + Serialize + DeserializeOwned + Default + 'static {
    const NAME: &'static str;
    type M: Clone + PartialEq + Debug + Serialize + DeserializeOwned + Default + Ord;
    fn mk(seed: u32) -> Self {
        Self::of(&Self::mk_m(seed))
    }
    fn mk_m(seed: u32) -> Self::M;
    fn of(m: &Self::M) -> Self;
    /// A change in place, chosen by the seed.
    fn edit(&mut self, seed: u32);
    fn edit_m(m: &mut Self::M, seed: u32);
    fn back(&self) -> Self::M;
    fn same(&self, m: &Self::M) -> bool {
        self.back() == *m
    }
    /// The certified form, checked against the model contents.
    fn tree(&self, m: &Self::M) -> Result<T, String>;
    /// The paths below this value and what the specification's lookup must find there.
    fn sub_labels(_m: &Self::M) -> Vec<Vec<u8>> {
        vec![]
    }
}

fn leaf_check(t: T, want: &[u8], name: &str) -> Result<T, String> {
    if t == T::Leaf(want.to_vec()) {
        Ok(t)
    } else {
        Err(format!("value of type {} certified as {:?}, expected leaf {}", name, t, hx(want)))
    }
}

macro_rules! leafy {
    ($t:ty, $name:expr, $s:ident => $mk:expr, $m:ident => $bytes:expr) => {
        impl HV for $t {
            const NAME: &'static str = $name;
            type M = $t;
            fn mk_m($s: u32) -> $t {
                $mk
            }
            fn of(m: &$t) -> $t {
                m.clone()
            }
            fn edit(&mut self, seed: u32) {
                *self = Self::mk_m(seed);
            }
            fn edit_m(m: &mut $t, seed: u32) {
                *m = Self::mk_m(seed);
            }
            fn back(&self) -> $t {
                self.clone()
            }
            fn tree(&self, $m: &$t) -> Result<T, String> {
                leaf_check(T::from_ht(&self.as_hash_tree()), &$bytes, $name)
            }
        }
    };
}
fn be(mut x: u128, n: usize) -> Vec<u8> {
    let mut v = vec![0; n];
    for b in v.iter_mut().rev() {
        *b = x as u8;
        x >>= 8;
    }
    v
}
leafy!(u64, "u64", s => mixs(s) >> (mixs(s ^ 7) % 64), m => be(*m as u128, 8));
leafy!(u8, "u8", s => mixs(s) as u8, m => be(*m as u128, 1));
leafy!(u16, "u16", s => mixs(s) as u16, m => be(*m as u128, 2));
leafy!(u32, "u32", s => mixs(s) as u32 >> (s % 32), m => be(*m as u128, 4));
leafy!(i64, "i64", s => mixs(s) as i64, m => be(*m as u64 as u128, 8));
leafy!(u128, "u128", s => (mixs(s) as u128) << 64 | mixs(!s) as u128, m => be(*m, 16));
leafy!(bool, "bool", s => mixs(s) & 1 == 1, m => vec![*m as u8]);
leafy!(String, "String", s => mk_string(&seed_bytes(s)), m => m.as_bytes().to_vec());
leafy!(Vec<u8>, "Vec<u8>", s => seed_bytes(s), m => m.clone());
leafy!(Box<u64>, "Box<u64>", s => Box::new(mixs(s)), m => be(**m as u128, 8));
leafy!([u8; 5], "[u8;5]", s => { let b = mixs(s).to_le_bytes(); [b[0], b[1], b[2], b[3], b[4]] }, m => m.to_vec());

/// A value without a size.
#[derive(Clone, Copy, Debug, Default, PartialEq, Eq, PartialOrd, Ord, Serialize, serde::Deserialize)]
pub struct Nil;
impl AsHashTree for Nil {
    fn as_hash_tree(&self) -> certified_vars::HashTree<'_> {
        certified_vars::HashTree::Leaf(b"nil"[..].into())
    }
}
leafy!(Nil, "a type without a size", _s => Nil, m => { let Nil = m; b"nil".to_vec() });

/// The chain hash of a sequence, from the item hashes.
pub fn chain(hs: impl Iterator<Item = H>) -> H {
    let mut h = [0u8; 32];
    for x in hs {
        h = sha(&[&h, &x]);
    }
    h
}

impl HV for Seq<u32> {
    const NAME: &'static str = "Seq<u32>";
    type M = Vec<u32>;
    fn mk_m(seed: u32) -> Vec<u32> {
        (0..mixs(seed) % 6).map(|i| mixs(seed ^ (i as u32) << 8) as u32).collect()
    }
    fn of(m: &Vec<u32>) -> Self {
        m.clone().into()
    }
    fn edit(&mut self, seed: u32) {
        match seed % 5 {
            0 => self.clear(),
            1 => self.extend([seed, seed ^ 1]),
            2 => *self = Self::mk(seed),
            _ => self.append(seed),
        }
    }
    fn edit_m(m: &mut Vec<u32>, seed: u32) {
        match seed % 5 {
            0 => m.clear(),
            1 => m.extend([seed, seed ^ 1]),
            2 => *m = Self::mk_m(seed),
            _ => m.push(seed),
        }
    }
    fn back(&self) -> Vec<u32> {
        self.as_vec().clone()
    }
    fn tree(&self, m: &Vec<u32>) -> Result<T, String> {
        let t = T::from_ht(&self.as_hash_tree());
        let want = T::Pruned(chain(m.iter().map(|x| h_leaf(&x.to_be_bytes()))));
        if t != want {
            return Err(format!("Seq {:?} certified as {:?}, expected {:?}", m, t, want));
        }
        Ok(t)
    }
}

impl HV for Seq<u8> {
    const NAME: &'static str = "Seq<u8>";
    type M = Vec<u8>;
    fn mk_m(seed: u32) -> Vec<u8> {
        seed_bytes(seed)
    }
    fn of(m: &Vec<u8>) -> Self {
        m.clone().into()
    }
    fn edit(&mut self, seed: u32) {
        match seed % 4 {
            0 => self.clear(),
            1 => self.extend(seed_bytes(seed)),
            _ => self.append(seed as u8),
        }
    }
    fn edit_m(m: &mut Vec<u8>, seed: u32) {
        match seed % 4 {
            0 => m.clear(),
            1 => m.extend(seed_bytes(seed)),
            _ => m.push(seed as u8),
        }
    }
    fn back(&self) -> Vec<u8> {
        self.as_vec().clone()
    }
    fn tree(&self, m: &Vec<u8>) -> Result<T, String> {
        let t = T::from_ht(&self.as_hash_tree());
        let want = T::Pruned(chain(m.iter().map(|x| h_leaf(&[*x]))));
        if t != want {
            return Err(format!("Seq {:?} certified as {:?}, expected {:?}", m, t, want));
        }
        Ok(t)
    }
}

/// Checks that `t` (the full tree of a map) lists exactly `want`, in this order, and hashes to `root`.
pub fn full_tree(t: &T, root: H, want: &[(Vec<u8>, T)]) -> Result<(), String> {
    if t.hash() != root {
        return Err(format!("root hash {} but the full tree hashes to {}", hx(&root), hx(&t.hash())));
    }
    let it = items(t)?;
    if it.len() != want.len() {
        return Err(format!("full tree has {} entries, expected {}: {}", it.len(), want.len(), show_items(&it)));
    }
    for (x, (l, c)) in it.iter().zip(want) {
        match x {
            Item::Lab(l2, c2) if l2 == l && c2 == c => {}
            _ => return Err(format!("full tree {} has {:?}, expected label {} with {:?}", show_items(&it), x, hx(l), c)),
        }
    }
    Ok(())
}

macro_rules! mapval {
    ($k:ty, $v:ty, $name:expr, $s:ident => $mk:expr, $kk:ident => $lab:expr) => {
        impl HV for Map<$k, $v> {
            const NAME: &'static str = $name;
            type M = BTreeMap<$k, <$v as HV>::M>;
            fn mk_m(seed: u32) -> Self::M {
                (0..mixs(seed) % 7)
                    .map(|i| {
                        let $s = mixs(seed ^ (i as u32) << 12) as u32;
                        ($mk, <$v as HV>::mk_m($s))
                    })
                    .collect()
            }
            fn of(m: &Self::M) -> Self {
                m.iter().map(|(k, v)| (k.clone(), <$v as HV>::of(v))).collect()
            }
            fn edit(&mut self, seed: u32) {
                let $s = mixs(seed) as u32;
                let k = $mk;
                match seed % 6 {
                    0 => {
                        self.remove(&k);
                        if self.len() > 0 && seed % 12 == 0 {
                            let k = self.iter().next().unwrap().0.clone();
                            self.remove(&k);
                        }
                    }
                    1 => {
                        if let Some(v) = self.get_mut(&k) {
                            v.edit(seed)
                        }
                        let last = self.iter().last().map(|x| x.0.clone());
                        if let Some(v) = last.and_then(|k| self.get_mut(&k)) {
                            v.edit(seed / 7)
                        }
                    }
                    2 => self.entry(k).or_default().edit(seed / 6),
                    3 if seed % 18 == 3 => self.clear(),
                    _ => {
                        self.insert(k, <$v as HV>::mk(seed));
                    }
                }
            }
            fn edit_m(m: &mut Self::M, seed: u32) {
                let $s = mixs(seed) as u32;
                let k = $mk;
                match seed % 6 {
                    0 => {
                        m.remove(&k);
                        if m.len() > 0 && seed % 12 == 0 {
                            let k = m.keys().next().unwrap().clone();
                            m.remove(&k);
                        }
                    }
                    1 => {
                        if let Some(v) = m.get_mut(&k) {
                            <$v as HV>::edit_m(v, seed)
                        }
                        let last = m.keys().next_back().cloned();
                        if let Some(v) = last.and_then(|k| m.get_mut(&k)) {
                            <$v as HV>::edit_m(v, seed / 7)
                        }
                    }
                    2 => <$v as HV>::edit_m(m.entry(k).or_default(), seed / 6),
                    3 if seed % 18 == 3 => m.clear(),
                    _ => {
                        m.insert(k, <$v as HV>::mk_m(seed));
                    }
                }
            }
            fn back(&self) -> Self::M {
                self.iter().map(|(k, v)| (k.clone(), v.back())).collect()
            }
            fn same(&self, m: &Self::M) -> bool {
                self.len() == m.len()
                    && self.iter().count() == m.len()
                    && self.iter().zip(m).all(|(a, b)| a.0 == b.0 && a.1.same(b.1))
            }
            fn tree(&self, m: &Self::M) -> Result<T, String> {
                let root = self.root_hash();
                let t = T::from_ht(&self.as_hash_tree());
                if m.is_empty() {
                    if t != T::Empty || root != h_empty() {
                        return Err(format!("empty map certified as {:?}", t));
                    }
                    return Ok(t);
                }
                let mut want = Vec::new();
                for ((k, v), (k2, mv)) in self.iter().zip(m) {
                    if k != k2 {
                        return Err(format!("nested map has key {:?} where {:?} is expected", k, k2));
                    }
                    let $kk = k;
                    want.push(($lab, v.tree(mv)?));
                }
                full_tree(&t, root, &want)?;
                Ok(t)
            }
            fn sub_labels(m: &Self::M) -> Vec<Vec<u8>> {
                m.keys().map(|$kk| $lab).collect()
            }
        }
    };
}
mapval!(u8, u16, "Map<u8,u16>", s => (s % 11) as u8, k => vec![*k]);
mapval!(String, Seq<u8>, "Map<String,Seq<u8>>", s => mk_string(&(s % 11).to_be_bytes()[3..]), k => k.as_bytes().to_vec());
mapval!(u16, Map<u8, u16>, "Map<u16,Map<u8,u16>>", s => (s % 5) as u16 * 100, k => k.to_be_bytes().to_vec());
mapval!(Vec<u8>, u16, "Map<Vec<u8>,u16>", s => { let b = mixs(s).to_le_bytes(); b[1..1 + (b[0] % 4) as usize].iter().map(|x| [0u8, 1, 0x61, 0xff][(*x % 4) as usize]).collect() }, k => k.clone());
