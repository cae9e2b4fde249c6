//! C13: leaf encodings of values. C14: labels of keys.
use super::keys::*;
use super::mapprops::label_order_demo;
use super::sut::{all_combos, mapcase, make, rawkey, MapCase, Op};
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use candid::{Nat, Principal};
use certified_vars::label::Label;
use certified_vars::{AsHashTree, HashTree, Map};
use num_bigint::BigUint;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::Cow;
use std::fmt::Debug;
use std::ptr::NonNull;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EncCase {
    pub ty: u8,
    /// each value is made from some bytes; neighbours in the list are often close to each other
    pub raws: Vec<Vec<u8>>,
    /// so many more bytes in front of each of them, or behind
    #[serde(default)]
    pub long: u32,
    #[serde(default)]
    pub behind: bool,
}
impl EncCase {
    fn raws(&self, most: u32) -> Vec<Vec<u8>> {
        let fill = vec![b'x'; self.long.min(most) as usize];
        let join = |a: &[u8], b: &[u8]| [a, b].concat();
        self.raws.iter().map(|r| if self.behind { join(r, &fill) } else { join(&fill, r) }).collect()
    }
}
/// Lengths around which something may change.
fn long() -> BoxedStrategy<(u32, bool)> {
    let n = prop_oneof![
        3 => 32u32..600,
        3 => (prop::sample::select(vec![256u32, 512, 1000, 1024, 2048, 4096, 8192, 10_000, 16_384, 32_768]), 0u32..40).prop_map(|(n, d)| n + 20 - d),
        3 => (65_536u32 - 40)..65_536 + 10,
        1 => 65_536u32..80_000,
    ];
    (n, any::<bool>()).boxed()
}

fn raws() -> BoxedStrategy<Vec<Vec<u8>>> {
    let special = prop_oneof![
        prop::sample::select(vec![vec![], vec![0], vec![0xff; 16], vec![0x80], vec![0x7f, 0xff], vec![0; 32], vec![0x80, 0, 0, 0, 0, 0, 0, 0], vec![0xff; 32]]),
        prop::collection::vec(any::<u8>(), 0..40),
        prop::collection::vec(prop::sample::select(vec![0u8, 1, 0x7f, 0x80, 0xff]), 0..36),
        rawkey(),
    ];
    (special, prop::collection::vec((0u8..8, any::<u16>(), any::<u8>()), 1..6))
        .prop_map(|(first, edits)| {
            let mut out = vec![first];
            for (how, at, x) in edits {
                let mut v = out.last().unwrap().clone();
                let n = v.len();
                match how {
                    0 => v.push(x),
                    1 => drop(v.pop()),
                    2 if n > 0 => v[at as usize % n] ^= 1 << (x % 8),
                    3 => v.insert(at as usize % (n + 1), x),
                    4 if n > 1 => v.swap(at as usize % n, x as usize % n),
                    5 => v.reverse(),
                    6 => v.insert(0, 0),
                    _ => v = vec![x; at as usize % 40],
                }
                out.push(v);
            }
            out
        })
        .boxed()
}

fn be(raw: &[u8], n: usize) -> Vec<u8> {
    // the last n bytes, so that small numbers are common
    let mut v = vec![0; n];
    let k = raw.len().min(n);
    v[n - k..].copy_from_slice(&raw[raw.len() - k..]);
    v
}

/// Everything that must hold of one value whose documented bytes are `want`.
fn leaf<V: AsHashTree + ?Sized>(what: &str, v: &V, want: &[u8]) -> Res {
    let h = h_leaf(want);
    let t = T::from_ht(&v.as_hash_tree());
    ensure!(t == T::Leaf(want.to_vec()), "{} certifies as {:?}, expected the leaf {}", what, t, hx(want));
    ensure!(v.root_hash() == h, "{}: root_hash() is {}, the leaf {} has {}", what, hx(&v.root_hash()), hx(want), hx(&h));
    ensure!(v.as_hash_tree().reconstruct() == h, "{}: the tree hashes to something else", what);
    Ok(())
}

fn wrapped<V: AsHashTree + Clone + 'static>(name: &str, v: &V, want: &[u8]) -> Res {
    leaf(name, v, want)?;
    leaf(&format!("Box<{}>", name), &Box::new(v.clone()), want)?;
    leaf(&format!("Rc<{}>", name), &Rc::new(v.clone()), want)?;
    leaf(&format!("Arc<{}>", name), &Arc::new(v.clone()), want)?;
    leaf(&format!("Box<Rc<Arc<{}>>>", name), &Box::new(Rc::new(Arc::new(v.clone()))), want)?;
    let mut x = v.clone();
    leaf(&format!("NonNull<{}>", name), &NonNull::from(&mut x), want)?;
    let mut y = Arc::new(v.clone());
    leaf(&format!("NonNull<Arc<{}>>", name), &NonNull::from(&mut y), want)?;
    leaf(&format!("dyn {}", name), &*(Box::new(v.clone()) as Box<dyn AsHashTree>), want)
}

/// A value type of a user, with the default `root_hash`, certifying as some tree.
struct Own(T);
impl AsHashTree for Own {
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.to_ht()
    }
}

/// Checks the values made from all raws; returns (documented bytes) of each.
type CheckFn = fn(&[Vec<u8>]) -> Result<Vec<Vec<u8>>, String>;
type Entry = (&'static str, CheckFn);

macro_rules! num {
    ($($t:ty),*) => {
        &[$((stringify!($t), |raws| {
            let mut out = vec![];
            for r in raws {
                const N: usize = std::mem::size_of::<$t>();
                let b = be(r, N);
                // value built by reading the big-endian bytes back
                let v = <$t>::from_be_bytes(b.clone().try_into().unwrap());
                wrapped(stringify!($t), &v, &b)?;
                out.push(b);
            }
            Ok(out)
        })),*]
    };
}
macro_rules! arrays {
    ($($n:expr),*) => {
        &[$((concat!("[u8; ", $n, "]"), |raws| {
            let mut out = vec![];
            for r in raws {
                let v = fixed::<$n>(r);
                wrapped(concat!("[u8; ", $n, "]"), &v, &v.to_vec())?;
                out.push(v.to_vec());
            }
            Ok(out)
        })),*]
    };
}
const NUM: &[Entry] = num!(u8, i8, u16, i16, u32, i32, u64, i64, u128, i128, usize, isize, f32, f64);
const ARR: &[Entry] = arrays!(
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 21, 22, 23, 24, 25, 26, 27, 28, 29, 30, 31, 32
);
const OTHER: &[Entry] = &[
    ("Vec<u8>", |raws| {
        for r in raws {
            wrapped("Vec<u8>", r, r)?;
            // spare capacity does not matter
            let mut v = Vec::with_capacity(r.len() + 100);
            v.extend_from_slice(r);
            leaf("Vec<u8>", &v, r)?;
            leaf("&[u8]", &&r[..], r)?;
            let s: &'static [u8] = Box::leak(r.clone().into_boxed_slice());
            let res = wrapped("&[u8]", &s, r);
            drop(unsafe { Box::from_raw(s as *const [u8] as *mut [u8]) });
            res?;
        }
        Ok(raws.to_vec())
    }),
    ("bool", |raws| {
        let mut out = vec![];
        for r in raws {
            let v = r.iter().fold(0, |a, b| a ^ b) & 1 == 1;
            let b = vec![if v { 1u8 } else { 0 }];
            wrapped("bool", &v, &b)?;
            out.push(b);
        }
        Ok(out)
    }),
    ("String", |raws| {
        let mut out = vec![];
        for r in raws {
            let v = mk_string(r);
            // independent UTF-8
            let mut b = Vec::new();
            for c in v.chars() {
                let c = c as u32;
                match c {
                    0..=0x7f => b.push(c as u8),
                    0x80..=0x7ff => b.extend([0xc0 | (c >> 6) as u8, 0x80 | (c & 63) as u8]),
                    0x800..=0xffff => b.extend([0xe0 | (c >> 12) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]),
                    _ => b.extend([0xf0 | (c >> 18) as u8, 0x80 | (c >> 12 & 63) as u8, 0x80 | (c >> 6 & 63) as u8, 0x80 | (c & 63) as u8]),
                }
            }
            wrapped("String", &v, &b)?;
            leaf("&str", &&v[..], &b)?;
            let s: &'static str = Box::leak(v.clone().into_boxed_str());
            let res = wrapped("&str", &s, &b);
            drop(unsafe { Box::from_raw(s as *const str as *mut str) });
            res?;
            out.push(b);
        }
        Ok(out)
    }),
    ("Principal", |raws| {
        let mut out = vec![];
        for r in raws {
            let b = r[..r.len().min(29)].to_vec();
            wrapped("Principal", &Principal::try_from_slice(&b).unwrap(), &b)?;
            out.push(b);
        }
        Ok(out)
    }),
    ("Nat", |raws| {
        let mut out = vec![];
        for r in raws {
            // minimal: no leading zeros, but zero itself is one zero byte
            let mut b: Vec<u8> = r.iter().copied().skip_while(|x| *x == 0).collect();
            // the number is built by arithmetic
            let mut n = BigUint::from(0u8);
            for x in r {
                n = n * 256u32 + *x as u32;
            }
            if b.is_empty() {
                b.push(0);
            }
            wrapped("Nat", &Nat(n), &b)?;
            out.push(b);
        }
        Ok(out)
    }),
    ("own type", |raws| {
        for r in raws {
            let t = r.iter().fold(T::Leaf(r.clone()), |t, x| match x % 4 {
                0 => T::Lab(vec![*x], Box::new(t)),
                1 => T::Fork(Box::new(t), Box::new(T::Leaf(vec![*x]))),
                2 => T::Fork(Box::new(T::Empty), Box::new(t)),
                _ => t,
            });
            let o = Own(t);
            ensure!(o.root_hash() == o.0.hash(), "default root_hash() of {:?} is {}, expected {}", o.0, hx(&o.root_hash()), hx(&o.0.hash()));
            let want = o.0.clone();
            let b = Box::new(Rc::new(Arc::new(o)));
            ensure!(T::from_ht(&b.as_hash_tree()) == want && b.root_hash() == want.hash(), "Box<Rc<Arc<_>>> certifies differently");
        }
        Ok(raws.to_vec())
    }),
];

pub struct C13;
impl Prop for C13 {
    type Case = EncCase;
    fn id(&self) -> &'static str {
        "C13"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if at least two of its values differ (then their hashes are compared); duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 400_000,
            Tier::Thorough => 20_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        (i % 2000 == 1999) as usize
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<EncCase> {
        if class == 1 {
            let at = |name: &str| (NUM.len() + ARR.len() + OTHER.iter().position(|e| e.0 == name).unwrap()) as u8;
            let tys = vec![at("String"), at("Vec<u8>"), at("String"), at("Vec<u8>"), at("Nat"), at("own type")];
            return (prop::sample::select(tys), raws(), long()).prop_map(|(ty, raws, (long, behind))| EncCase { ty, raws, long, behind }).boxed();
        }
        let n = (NUM.len() + ARR.len() + OTHER.len()) as u8;
        let (a, b) = (NUM.len() as u8, (NUM.len() + ARR.len()) as u8);
        (prop_oneof![4 => 0..a, 4 => a..b, 4 => b..n], raws()).prop_map(|(ty, raws)| EncCase { ty, raws, long: 0, behind: false }).boxed()
    }
    fn check(&self, c: &EncCase, st: &mut Stats) -> Res {
        let all: Vec<&Entry> = NUM.iter().chain(ARR).chain(OTHER).collect();
        let (name, f) = all[c.ty as usize % all.len()];
        st.class(name);
        // (numbers are built with quadratic work, trees with one level for each byte)
        let docs = f(&c.raws(if matches!(name, &"Nat" | &"own type") { 4200 } else { u32::MAX }))?;
        if c.long > 0 {
            st.class("long values");
        }
        // distinct documented bytes have distinct hashes (the hashes were checked to be those of the leaves)
        for (i, a) in docs.iter().enumerate() {
            for b in &docs[..i] {
                if a != b {
                    st.mark();
                    ensure!(h_leaf(a) != h_leaf(b), "hash collision");
                }
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "SHA-256 of the sha2 crate".into(),
            "NonNull is exercised with live pointers only".into(),
            "usize and isize are 64 bits wide on the platform of the check".into(),
        ]
    }
}

// ------------------------------------------------------------------ labels

/// One key type: (label as documented, label given) and the order of all pairs.
struct Labels {
    given: Vec<Vec<u8>>,
    doc: Vec<Vec<u8>>,
    /// cmp[i][j]
    cmp: Vec<Vec<std::cmp::Ordering>>,
    sig: Option<&'static str>,
    /// the map over all of these keys: its full tree
    map: T,
}
fn collect<K: Label + Ord + Clone + Debug + 'static>(ks: Vec<K>, doc: Vec<Vec<u8>>, sig: Option<&'static str>) -> Result<Labels, String> {
    let given: Vec<Vec<u8>> = ks.iter().map(|k| k.as_label().into_owned()).collect();
    for (k, d) in ks.iter().zip(&doc) {
        // smart pointers are transparent
        let p: [Cow<[u8]>; 4] = [k.as_label(), Cow::Owned(Box::new(k.clone()).as_label().to_vec()), Cow::Owned(Rc::new(k.clone()).as_label().to_vec()), Cow::Owned(Arc::new(Box::new(k.clone())).as_label().to_vec())];
        ensure!(p.iter().all(|x| x == d), "label of {:?} is {:?} (plain, Box, Rc, Arc<Box>), expected {}", k, p.iter().map(|x| hx(x)).collect::<Vec<_>>(), hx(d));
        let mut k2 = k.clone();
        ensure!(NonNull::from(&mut k2).as_label() == d.as_slice(), "label of NonNull to {:?} differs", k);
    }
    let cmp = ks.iter().map(|a| ks.iter().map(|b| a.cmp(b)).collect()).collect();
    let mut m = Map::<K, u8>::new();
    for k in &ks {
        m.insert(k.clone(), 0);
    }
    let mut m2 = Map::<Box<K>, u8>::new();
    for k in ks.iter().rev() {
        m2.insert(Box::new(k.clone()), 0);
    }
    let (map, map2) = (T::from_ht(&m.as_hash_tree()), T::from_ht(&m2.as_hash_tree()));
    let (mut a, mut b) = (vec![], vec![]);
    map.labels(&mut a);
    map2.labels(&mut b);
    ensure!(a == b, "the labels of the map and of the map with boxed keys differ");
    Ok(Labels { given, doc, cmp, sig, map })
}
macro_rules! klist {
    ($($t:ty => $r:ident => $mk:expr, $doc:expr, $sig:expr;)*) => {
        const KN: &[&str] = &[$(stringify!($t)),*];
        fn klabels(ty: usize, raws: &[Vec<u8>]) -> Result<Labels, String> {
            let fs: &[fn(&[Vec<u8>]) -> Result<Labels, String>] = &[$(|raws| {
                let ks: Vec<$t> = raws.iter().map(|$r| $mk).collect();
                let ds: Vec<Vec<u8>> = raws.iter().map(|$r| $doc).collect();
                collect(ks, ds, $sig)
            }),*];
            fs[ty](raws)
        }
    };
}
macro_rules! n {
    ($t:ty, $r:ident) => {
        <$t>::from_be_bytes(be($r, std::mem::size_of::<$t>()).try_into().unwrap())
    };
}
klist! {
    u8 => r => n!(u8, r), be(r, 1), None;
    u16 => r => n!(u16, r), be(r, 2), None;
    u32 => r => n!(u32, r), be(r, 4), None;
    u64 => r => n!(u64, r), be(r, 8), None;
    u128 => r => n!(u128, r), be(r, 16), None;
    usize => r => n!(usize, r), be(r, 8), None;
    i8 => r => n!(i8, r), be(r, 1), Some("label-order:i8");
    i16 => r => n!(i16, r), be(r, 2), Some("label-order:i16");
    i32 => r => n!(i32, r), be(r, 4), Some("label-order:i32");
    i64 => r => n!(i64, r), be(r, 8), Some("label-order:i64");
    i128 => r => n!(i128, r), be(r, 16), Some("label-order:i128");
    isize => r => n!(isize, r), be(r, 8), Some("label-order:isize");
    bool => r => r.iter().fold(0, |a, b| a ^ b) & 1 == 1, vec![r.iter().fold(0, |a, b| a ^ b) & 1], None;
    String => r => mk_string(r), mk_string(r).into_bytes(), None;
    Vec<u8> => r => r.clone(), r.clone(), None;
    Box<[u8]> => r => r.clone().into_boxed_slice(), r.clone(), None;
    Principal => r => Principal::try_from_slice(&r[..r.len().min(29)]).unwrap(), r[..r.len().min(29)].to_vec(), Some("label-order:Principal");
    [u8; 1] => r => fixed(r), fixed::<1>(r).to_vec(), None;
    [u8; 2] => r => fixed(r), fixed::<2>(r).to_vec(), None;
    [u8; 3] => r => fixed(r), fixed::<3>(r).to_vec(), None;
    [u8; 4] => r => fixed(r), fixed::<4>(r).to_vec(), None;
    [u8; 5] => r => fixed(r), fixed::<5>(r).to_vec(), None;
    [u8; 6] => r => fixed(r), fixed::<6>(r).to_vec(), None;
    [u8; 7] => r => fixed(r), fixed::<7>(r).to_vec(), None;
    [u8; 8] => r => fixed(r), fixed::<8>(r).to_vec(), None;
    [u8; 9] => r => fixed(r), fixed::<9>(r).to_vec(), None;
    [u8; 10] => r => fixed(r), fixed::<10>(r).to_vec(), None;
    [u8; 11] => r => fixed(r), fixed::<11>(r).to_vec(), None;
    [u8; 12] => r => fixed(r), fixed::<12>(r).to_vec(), None;
    [u8; 13] => r => fixed(r), fixed::<13>(r).to_vec(), None;
    [u8; 14] => r => fixed(r), fixed::<14>(r).to_vec(), None;
    [u8; 15] => r => fixed(r), fixed::<15>(r).to_vec(), None;
    [u8; 16] => r => fixed(r), fixed::<16>(r).to_vec(), None;
    [u8; 17] => r => fixed(r), fixed::<17>(r).to_vec(), None;
    [u8; 18] => r => fixed(r), fixed::<18>(r).to_vec(), None;
    [u8; 19] => r => fixed(r), fixed::<19>(r).to_vec(), None;
    [u8; 20] => r => fixed(r), fixed::<20>(r).to_vec(), None;
    [u8; 21] => r => fixed(r), fixed::<21>(r).to_vec(), None;
    [u8; 22] => r => fixed(r), fixed::<22>(r).to_vec(), None;
    [u8; 23] => r => fixed(r), fixed::<23>(r).to_vec(), None;
    [u8; 24] => r => fixed(r), fixed::<24>(r).to_vec(), None;
    [u8; 25] => r => fixed(r), fixed::<25>(r).to_vec(), None;
    [u8; 26] => r => fixed(r), fixed::<26>(r).to_vec(), None;
    [u8; 27] => r => fixed(r), fixed::<27>(r).to_vec(), None;
    [u8; 28] => r => fixed(r), fixed::<28>(r).to_vec(), None;
    [u8; 29] => r => fixed(r), fixed::<29>(r).to_vec(), None;
    [u8; 30] => r => fixed(r), fixed::<30>(r).to_vec(), None;
    [u8; 31] => r => fixed(r), fixed::<31>(r).to_vec(), None;
    [u8; 32] => r => fixed(r), fixed::<32>(r).to_vec(), None;
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum LabCase {
    Keys(EncCase),
    Map(MapCase),
}

/// Disorder of key order and label order: a listed finding for this type or a violation.
fn disorder(st: &mut Stats, sig: Option<&'static str>, m: impl Fn() -> String) -> Res {
    match sig {
        Some(s) if st.known(s, &m) => Ok(()),
        _ => Err(m()),
    }
}

pub struct C14;
impl Prop for C14 {
    type Case = LabCase;
    fn id(&self) -> &'static str {
        "C14"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if at least two different keys' labels were compared, or the full tree of a map of at least 3 entries was; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 200_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        match i % 200 {
            0..=9 => 1,
            10 => 2,
            11 if i % 1000 == 11 => 3,
            _ => 0,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<LabCase> {
        if class == 3 {
            let tys: Vec<u8> = (0..KN.len()).filter(|i| ["String", "Vec<u8>", "Box<[u8]>"].contains(&KN[*i])).map(|i| i as u8).collect();
            assert!(tys.len() == 3);
            return (prop::sample::select(tys), raws(), long()).prop_map(|(ty, raws, (long, behind))| LabCase::Keys(EncCase { ty, raws, long, behind })).boxed();
        }
        if class > 0 {
            return mapcase(class - 1, all_combos()).prop_map(LabCase::Map).boxed();
        }
        let n = KN.len() as u8;
        (prop_oneof![2 => 0u8..17, 1 => 17..n], raws()).prop_map(|(ty, raws)| LabCase::Keys(EncCase { ty, raws, long: 0, behind: false })).boxed()
    }
    fn check(&self, c: &LabCase, st: &mut Stats) -> Res {
        match c {
            LabCase::Keys(c) => {
                let ty = c.ty as usize % KN.len();
                st.class(KN[ty]);
                let l = klabels(ty, &c.raws(u32::MAX))?;
                if c.long > 0 {
                    st.class("long keys");
                }
                let n = l.doc.len();
                for i in 0..n {
                    for j in 0..n {
                        let eq = l.cmp[i][j] == std::cmp::Ordering::Equal;
                        ensure!(
                            eq == (l.given[i] == l.given[j]),
                            "keys of type {} with documented labels {} and {}: equal: {}, but labels are {} and {}",
                            KN[ty],
                            hx(&l.doc[i]),
                            hx(&l.doc[j]),
                            eq,
                            hx(&l.given[i]),
                            hx(&l.given[j])
                        );
                        if !eq {
                            st.mark();
                        }
                        if l.cmp[i][j] != l.given[i].cmp(&l.given[j]) {
                            disorder(st, l.sig, || {
                                format!("keys of type {} with labels {} and {} compare {:?}, their labels {:?}", KN[ty], hx(&l.given[i]), hx(&l.given[j]), l.cmp[i][j], l.given[i].cmp(&l.given[j]))
                            })?;
                        }
                    }
                }
                // the full tree shows each key's label once, and in ascending order
                let mut labs = vec![];
                l.map.labels(&mut labs);
                let mut want = l.doc.clone();
                want.sort();
                want.dedup();
                // (in the order of the keys, whatever that is)
                let mut ix: Vec<usize> = (0..n).collect();
                ix.sort_by(|a, b| l.cmp[*a][*b]);
                ix.dedup_by(|a, b| l.doc[*a] == l.doc[*b]);
                let by_key: Vec<Vec<u8>> = ix.iter().map(|i| l.doc[*i].clone()).collect();
                ensure!(labs == by_key, "a map of keys of type {} shows the tree {:?}", KN[ty], l.map);
                if labs != want {
                    disorder(st, l.sig, || format!("a map of keys of type {} shows the labels {:?}, out of order", KN[ty], labs.iter().map(|x| hx(x)).collect::<Vec<_>>()))?;
                }
                Ok(())
            }
            LabCase::Map(m) => {
                let mut s = make(m.combo, m.tree, m.pool.clone());
                for o in &m.ops {
                    s.apply(o)?;
                    if matches!(o, Op::Read(..)) {
                        continue;
                    }
                    let mut fl = vec![];
                    let t = s.tree();
                    t.flatten(&mut fl);
                    let labs: Vec<&Vec<u8>> = fl.iter().filter_map(|x| if let T::Lab(l, _) = x { Some(l) } else { None }).collect();
                    if let Some(w) = labs.windows(2).find(|w| w[0] >= w[1]) {
                        // a listed finding covers only the right entries in key order
                        let e = s.entries()?;
                        let by_key = e.len() == labs.len() && e.iter().zip(&labs).all(|(a, b)| a.0 == **b);
                        let sig = if by_key && !s.ordered() { s.sig() } else { None };
                        disorder(st, sig, || format!("{}: the full tree shows label {} before {}", s.name(), hx(w[0]), hx(w[1])))?;
                    }
                    if s.n() >= 3 {
                        st.mark();
                    }
                }
                st.class("full trees of maps");
                Ok(())
            }
        }
    }
    fn known_demo(&self, sig: &str) -> Option<String> {
        label_order_demo(sig)
    }
}
