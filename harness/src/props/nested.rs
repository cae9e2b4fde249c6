//! C08: witnesses of maps of maps.
use super::keys::*;
use super::sut::*;
use super::vals::*;
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use certified_vars::{AsHashTree, HashTree, Map};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NCase {
    pub shape: u8,
    pub pool: Pool,
    pub ops: Vec<Op>,
    /// (outer key index, inner witness kind, two inner seeds)
    pub asks: Vec<(u32, u8, u32, u32)>,
}

/// Key types of the inner maps: a key from a seed, over the same range as the edits use.
trait InnerKey: Ord + Clone + certified_vars::label::Label + std::fmt::Debug + 'static {
    fn ik(s: u32) -> Self;
    fn il(&self) -> Vec<u8>;
    fn prefix<'a, V: HV>(_m: &'a Map<Self, V>, _s: u32) -> Option<(HashTree<'a>, Vec<u8>)> {
        None
    }
}
impl InnerKey for u8 {
    fn ik(s: u32) -> u8 {
        (s % 13) as u8
    }
    fn il(&self) -> Vec<u8> {
        vec![*self]
    }
}
impl InnerKey for u16 {
    fn ik(s: u32) -> u16 {
        (s % 5) as u16 * 100 + (s % 3 == 2) as u16
    }
    fn il(&self) -> Vec<u8> {
        vec![(*self >> 8) as u8, *self as u8]
    }
}
impl InnerKey for String {
    fn ik(s: u32) -> String {
        mk_string(&[(s % 13) as u8])
    }
    fn il(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
    fn prefix<'a, V: HV>(m: &'a Map<Self, V>, s: u32) -> Option<(HashTree<'a>, Vec<u8>)> {
        let p = if s % 4 == 0 { String::new() } else { Self::ik(s) };
        Some((m.witness_keys_with_prefix::<str>(&p), p.into_bytes()))
    }
}
impl InnerKey for Vec<u8> {
    fn ik(s: u32) -> Vec<u8> {
        let b = s.to_le_bytes();
        let n = (s / 3 % 5) as usize;
        [b[0], b[1], b[0] >> 3, b[1] >> 2].iter().take(n).map(|x| [0u8, 1, 0x61, 0xff][(*x % 4) as usize]).collect()
    }
    fn il(&self) -> Vec<u8> {
        self.clone()
    }
    fn prefix<'a, V: HV>(m: &'a Map<Self, V>, s: u32) -> Option<(HashTree<'a>, Vec<u8>)> {
        let p = Self::ik(s);
        Some((m.witness_keys_with_prefix::<[u8]>(&p), p))
    }
}

/// Which inner labels the witness has to decide.
enum Decides {
    One(Vec<u8>),
    Between(Vec<u8>, Vec<u8>, bool),
    Prefix(Vec<u8>),
    All(bool),
    Nothing,
}

fn inner_witness<'a, K: InnerKey, V: HV>(m: &'a Map<K, V>, kind: u8, a: u32, b: u32) -> (HashTree<'a>, Decides) {
    let (x, y) = (K::ik(a), K::ik(b));
    let (x, y) = if x <= y { (x, y) } else { (y, x) };
    match kind % 8 {
        0 | 1 => (m.witness::<K>(&x), Decides::One(x.il())),
        2 => (m.witness_key_range::<K, K>(&x, &y), Decides::Between(x.il(), y.il(), false)),
        3 => (m.witness_value_range::<K, K>(&x, &y), Decides::Between(x.il(), y.il(), true)),
        4 => (m.witness_keys(), Decides::All(false)),
        5 => (m.as_hash_tree(), Decides::All(true)),
        6 => match K::prefix(m, a) {
            Some((t, p)) => (t, Decides::Prefix(p)),
            None => (m.as_tree().nested_witness::<K>(&x, |v| v.as_hash_tree()), Decides::One(x.il())),
        },
        _ => (HashTree::Pruned(m.root_hash()), Decides::Nothing),
    }
}

fn check_lookups<K: InnerKey, V: HV>(w: &T, path: &[&[u8]], m: &Map<K, V>, d: &Decides, asked: &[u32]) -> Res {
    let actual: Vec<(Vec<u8>, T)> = m.iter().map(|(k, v)| (k.il(), T::from_ht(&v.as_hash_tree()))).collect();
    let mut labs: Vec<Vec<u8>> = actual.iter().map(|x| x.0.clone()).collect();
    labs.extend((0..14).map(|s| K::ik(s).il()));
    labs.extend(asked.iter().map(|s| K::ik(*s).il()));
    for l in labs {
        let mut p = path.to_vec();
        p.push(&l);
        let got = lookup(w, &p);
        let want = actual.iter().find(|x| x.0 == l).map(|x| &x.1);
        let (must, full) = match d {
            Decides::One(x) => (*x == l, true),
            Decides::Between(a, b, v) => (*a <= l && l <= *b, *v),
            Decides::Prefix(p) => (l.starts_with(p), false),
            Decides::All(v) => (true, *v),
            Decides::Nothing => (false, false),
        };
        let ok = match (&got, want) {
            (Look::Unknown, _) => !must,
            (Look::Absent, None) => true,
            (Look::Found(t), Some(v)) => {
                if must && full {
                    *t == v
                } else {
                    t.hash() == v.hash()
                }
            }
            _ => false,
        };
        ensure!(
            ok,
            "path {:?}: the specification's lookup gives {:?}, the data is {:?}; the witness is {:?}",
            p.iter().map(|x| hx(x)).collect::<Vec<_>>(),
            got,
            want,
            w
        );
    }
    Ok(())
}

fn outer_items<K: HK + HKDense, V: HV>(s: &Sut<K, V>, k: &K, inner: T, w: &T) -> Res {
    let pos = s.m.range::<K, _>(..k).count();
    let mut want = vec![];
    if pos > 0 {
        want.push(Item::Gap);
    }
    want.push(Item::Lab(k.lab(), inner));
    if pos + 1 < s.m.len() {
        want.push(Item::Gap);
    }
    let got = items(w)?;
    ensure!(got == want, "nested witness shows {}, expected {}", show_items(&got), show_items(&want));
    Ok(())
}

fn absent<K: HK>(w: &T, k: &K, called: bool) -> Res {
    ensure!(!called, "nested_witness called its function although the key is absent");
    let l = k.lab();
    let got = lookup(w, &[&l]);
    ensure!(got == Look::Absent, "nested witness of an absent key {}: lookup gives {:?} in {:?}", hx(&l), got, w);
    let mut v = vec![];
    w.leaves(&mut v);
    ensure!(v.is_empty(), "nested witness of an absent key shows values");
    Ok(())
}

fn two<K: HK + HKDense, K2: InnerKey, V2: HV>(c: &NCase, st: &mut Stats) -> Res
where
    Map<K2, V2>: HV,
{
    let mut s = Sut::<K, Map<K2, V2>>::new(c.shape & 16 != 0, c.pool.clone());
    for (n, o) in c.ops.iter().enumerate() {
        s.apply(o)?;
        if n % 3 != 0 && n + 1 != c.ops.len() {
            continue;
        }
        for (i, kind, a, b) in &c.asks {
            let k: K = c.pool.key(*i);
            let mut d = None;
            let w = T::from_ht(&s.c.t().nested_witness::<K>(&k, |m| {
                let (t, dd) = inner_witness(m, *kind, *a, *b);
                d = Some((T::from_ht(&t), dd, m));
                t
            }));
            let root = s.c.root();
            ensure!(w.hash() == root, "nested witness (kind {}) of key {:?} hashes to {}, the root hash is {}: {:?}", kind, k, hx(&w.hash()), hx(&root), w);
            match (&d, s.m.contains_key::<K>(&k)) {
                (None, true) => return Err("nested_witness did not call its function for a present key".into()),
                (x, false) => {
                    st.class("outer key absent");
                    absent(&w, &k, x.is_some())?;
                }
                (Some((t, dd, m)), true) => {
                    st.class(&format!("inner witness kind {}", kind % 8));
                    if m.len() >= 2 && s.m.len() >= 2 {
                        st.mark();
                    }
                    outer_items(&s, &k, t.clone(), &w)?;
                    let l = k.lab();
                    check_lookups(&w, &[&l], m, dd, &[*a, *b])?;
                }
            }
        }
    }
    Ok(())
}

fn three(c: &NCase, st: &mut Stats) -> Res {
    type K = [u8; 8];
    let mut s = Sut::<K, Map<u16, Map<u8, u16>>>::new(c.shape & 16 != 0, c.pool.clone());
    for (n, o) in c.ops.iter().enumerate() {
        s.apply(o)?;
        if n % 3 != 0 && n + 1 != c.ops.len() {
            continue;
        }
        for (i, kind, a, b) in &c.asks {
            let k: K = c.pool.key(*i);
            let k2 = u16::ik(*b);
            let mut called = (false, None);
            let w = T::from_ht(&s.c.t().nested_witness::<K>(&k, |m| {
                called.0 = true;
                m.as_tree().nested_witness::<u16>(&k2, |m2| {
                    let (t, d) = inner_witness(m2, *kind, *a, *b / 5);
                    called.1 = Some((m2, d));
                    t
                })
            }));
            let root = s.c.root();
            ensure!(w.hash() == root, "3-level witness (kind {}) of {:?} / {} hashes to {}, the root hash is {}: {:?}", kind, k, k2, hx(&w.hash()), hx(&root), w);
            let mm = s.m.get(&k[..]);
            match mm {
                None => absent(&w, &k, called.0)?,
                Some(mm) => {
                    ensure!(called.0, "nested_witness did not call its function for a present key");
                    let (l, l2) = (k.lab(), k2.to_be_bytes());
                    if mm.contains_key(&k2) {
                        let (m2, d) = called.1.ok_or("nested_witness did not call the inner function for a present key")?;
                        if m2.len() >= 2 {
                            st.mark();
                        }
                        st.class(&format!("innermost witness kind {}", kind % 8));
                        check_lookups(&w, &[&l, &l2], m2, &d, &[*a, *b / 5])?;
                    } else {
                        ensure!(called.1.is_none(), "the inner nested_witness called its function for an absent key");
                        st.class("middle key absent");
                        let got = lookup(&w, &[&l, &l2]);
                        ensure!(got == Look::Absent, "absent path: lookup gives {:?} in {:?}", got, w);
                    }
                }
            }
        }
    }
    Ok(())
}

pub struct C08;
impl Prop for C08 {
    type Case = NCase;
    fn id(&self) -> &'static str {
        "C08"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if a witness was taken into an inner map with at least 2 entries (in a 2-level map with at least 2 outer entries); duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 40_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        (i % 6 == 5) as usize
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<NCase> {
        let n = if class == 0 { 10u32 } else { 60 };
        let pool = if class == 0 { pool_raw(4) } else { prop_oneof![pool_raw(20), pool_dense()].boxed() };
        let ops = prop::collection::vec(prop_oneof![3 => op(n), 1 => (0..n, 0u32..5000).prop_map(|(k, e)| Op::GetMut(k, e)), 1 => bulk(n)], 1..if class == 0 { 25 } else { 40 });
        let asks = prop::collection::vec((0..n, 0u8..8, any::<u32>(), any::<u32>()), 3..9);
        (0u8..32, pool, ops, asks).prop_map(|(shape, pool, ops, asks)| NCase { shape, pool, ops, asks }).boxed()
    }
    fn check(&self, c: &NCase, st: &mut Stats) -> Res {
        match c.shape % 5 {
            0 => two::<CK, u8, u16>(c, st),
            1 => two::<String, String, certified_vars::Seq<u8>>(c, st),
            2 => two::<Vec<u8>, Vec<u8>, u16>(c, st),
            3 => two::<u16, Vec<u8>, u16>(c, st),
            _ => three(c, st),
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the lookup procedure of the Internet Computer interface specification as transcribed in spec.rs".into()]
    }
}
