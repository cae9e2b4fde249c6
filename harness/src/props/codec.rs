//! C16, C25: encodings.
use super::huge::*;
use super::keys::*;
use super::paged::{self, DynPaged, Mirror, PCase, PSut, PK};
use super::seq::check as seq_check;
use super::seq::Item15;
use super::sut::*;
use super::vals::*;
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use candid::{CandidType, Principal};
use certified_vars::{AsHashTree, Map, Paged, Seq};
use proptest::prelude::*;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_cbor::Value as CV;
use std::collections::BTreeMap;
use std::fmt::Debug;

/// Witnesses of a state: all verify, and the specification's lookup agrees with the contents.
pub fn verify(s: &dyn DynSut, probes: &[u32]) -> Res {
    let root = s.root();
    let e = s.entries()?;
    let hash = |t: &T, what: &str| -> Res {
        ensure!(t.hash() == root, "{} has hash {}, the root hash is {}", what, hx(&t.hash()), hx(&root));
        Ok(())
    };
    let ks = s.w_keys();
    hash(&ks, "the key-list witness")?;
    let mut ls = vec![];
    ks.labels(&mut ls);
    ensure!(ls.len() == e.len() && ls.iter().zip(&e).all(|(a, b)| *a == b.0), "the key-list witness shows other keys: {:?}", ks);
    for (i, p) in probes.iter().enumerate() {
        let t = s.w_key(*p);
        hash(&t, "a single-key witness")?;
        let r = lookup(&t, &[&s.lab(*p)]).clone();
        match s.pos(*p) {
            Ok(x) => ensure!(r == Look::Found(&e[x].1), "witness of a present key {} shows {:?}, expected {:?}", hx(&s.lab(*p)), r, e[x].1),
            Err(_) if s.ordered() => ensure!(r == Look::Absent, "witness of an absent key {} shows {:?}", hx(&s.lab(*p)), r),
            Err(_) => ensure!(!matches!(r, Look::Found(_)), "witness of an absent key {} shows {:?}", hx(&s.lab(*p)), r),
        }
        let q = probes[(i * 3 + 1) % probes.len()];
        let (a, b) = if s.key_cmp(*p, q) == std::cmp::Ordering::Greater { (q, *p) } else { (*p, q) };
        hash(&s.w_range(a, b, false), "a key range witness")?;
        hash(&s.w_range(a, b, true), "a value range witness")?;
        if let Some(t) = s.w_prefix(*p) {
            hash(&t, "a prefix witness")?;
        }
    }
    Ok(())
}
fn all(s: &dyn DynSut, probes: &[u32]) -> Res {
    s.check_dict(probes)?;
    s.check_hash()?;
    verify(s, probes)
}

// ------------------------------------------------------------------ C16

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum RtCase {
    Map { c: MapCase, hows: Vec<u8> },
    Candid { c: MapCase, hows: Vec<u8> },
    Seq { ty: u8, vals: Vec<u32>, hows: Vec<u8>, more: Vec<u32> },
    /// a long sequence: `n` items made from `seed`
    Long { ty: u8, n: u32, seed: u32, hows: Vec<u8> },
    Paged { c: PCase, hows: Vec<u8> },
    Huge(Huge),
}

macro_rules! codec_combos {
    ($($n:expr => $k:ty, $v:ty;)*) => {
        const NCODEC: u8 = [$($n),*].len() as u8;
        fn map_run(c: &MapCase, hows: &[u8], candid: bool, st: &mut Stats) -> Res {
            match (c.combo % NCODEC, candid) {
                $(($n, true) => candid_one::<$k, $v>(c, hows, st),
                ($n, false) => serde_one::<$k, $v>(c, hows, st),)*
                _ => unreachable!(),
            }
        }
        fn map_dec(c: &DecCase, st: &mut Stats) -> Res {
            match c.combo % NCODEC {
                $($n => map_one::<$k, $v>(c, st),)*
                _ => unreachable!(),
            }
        }
    };
}
// (combinations of `sut`, so that they are compiled once)
codec_combos! {
    0 => Vec<u8>, u64;
    1 => String, String;
    2 => u32, Seq<u32>;
    3 => [u8; 3], bool;
    4 => String, Map<String, Seq<u8>>;
    5 => u64, u128;
    6 => u16, u16;
    7 => i32, u64;
    8 => Principal, String;
    9 => bool, u64;
    10 => CK, Map<u8, u16>;
    11 => i8, Vec<u8>;
}

#[derive(CandidType, Deserialize)]
#[serde(bound(deserialize = "M: Deserialize<'de>, N: Deserialize<'de>"))]
struct Rec<M, N> {
    before: Option<u8>,
    map: M,
    after: N,
}

/// A writer that runs full must fail the encoding.
fn short_outputs<X: Serialize>(name: &str, x: &X) -> Res {
    if let Ok(b) = serde_cbor::to_vec(x) {
        super::short_output(name, b.len(), |w| serde_cbor::to_writer(w, x).is_ok())?;
    }
    if let Ok(b) = serde_json::to_vec(x) {
        super::short_output(name, b.len(), |w| serde_json::to_writer(w, x).is_ok())?;
    }
    Ok(())
}

/// Through an encoding and back (Map only); the encodings of the standard map must agree.
fn recode<K: HK + HKDense, V: HV>(s: &mut Sut<K, V>, how: u8) -> Result<&'static str, String> {
    let n = s.name();
    let m = match &mut s.c {
        Ct::Map(m) => m,
        Ct::Tree(_) => return Ok("no encoding"),
    };
    // encodes both; Ok(None) if neither can be
    fn both<A, B>(n: &str, a: Result<A, impl Debug>, b: Result<B, impl Debug>) -> Result<Option<(A, B)>, String> {
        match (a, b) {
            (Ok(a), Ok(b)) => Ok(Some((a, b))),
            (Err(_), Err(_)) => Ok(None),
            (Ok(_), Err(e)) => Err(format!("{}: encodes although the standard map gives {:?}", n, e)),
            (Err(e), Ok(_)) => Err(format!("{}: encoding fails: {:?}", n, e)),
        }
    }
    type B<K, M> = BTreeMap<K, M>;
    // what `from` accepts and what the standard map makes of it must agree
    fn take<X, Y: PartialEq + Debug>(n: &str, what: &str, a: Result<X, impl Debug>, b: Result<Y, impl Debug>, want: &Y) -> Result<Option<X>, String> {
        match (a, b) {
            (Ok(a), Ok(b)) => {
                ensure!(b == *want, "{}: {} read as a standard map is {:?}, expected {:?}", n, what, b, want);
                Ok(Some(a))
            }
            (Err(_), Err(_)) => Ok(None),
            (Ok(_), Err(e)) => Err(format!("{}: {} is accepted although a standard map gives {:?}", n, what, e)),
            (Err(e), Ok(_)) => Err(format!("{}: {} is refused: {:?}", n, what, e)),
        }
    }
    macro_rules! go {
        ($what:expr, $own:expr, $std:expr, $dec:expr, $decstd:expr, $which:expr) => {{
            if let Some((a, b)) = both(&n, $own, $std)? {
                let x = if $which { a } else { b };
                if let Some(new) = take::<Map<K, V>, B<K, V::M>>(&n, $what, $dec(&x), $decstd(&x), &s.m)? {
                    *m = new;
                    return Ok($what);
                }
            }
            Ok("cannot be encoded, as the standard map")
        }};
    }
    let own = how % 16 < 8;
    if how % 8 < 2 {
        short_outputs(&n, &*m)?;
    }
    match how % 8 {
        0 => go!("CBOR", serde_cbor::to_vec(&*m), serde_cbor::to_vec(&s.m), |b: &Vec<u8>| serde_cbor::from_slice(b), |b: &Vec<u8>| serde_cbor::from_slice(b), own),
        1 => go!("JSON", serde_json::to_vec(&*m), serde_json::to_vec(&s.m), |b: &Vec<u8>| serde_json::from_slice(b), |b: &Vec<u8>| serde_json::from_slice(b), own),
        2 => go!("CBOR reader", serde_cbor::to_vec(&*m), serde_cbor::to_vec(&s.m), |b: &Vec<u8>| serde_cbor::from_reader(&b[..]), |b: &Vec<u8>| serde_cbor::from_reader(&b[..]), own),
        3 => go!("JSON reader", serde_json::to_vec_pretty(&*m), serde_json::to_vec_pretty(&s.m), |b: &Vec<u8>| serde_json::from_reader(&b[..]), |b: &Vec<u8>| serde_json::from_reader(&b[..]), own),
        4 => go!("CBOR value", serde_cbor::value::to_value(&*m), serde_cbor::value::to_value(&s.m), |b: &serde_cbor::Value| serde_cbor::value::from_value(b.clone()), |b: &serde_cbor::Value| serde_cbor::value::from_value(b.clone()), own),
        5 => go!("JSON value", serde_json::to_value(&*m), serde_json::to_value(&s.m), |b: &serde_json::Value| serde_json::from_value(b.clone()), |b: &serde_json::Value| serde_json::from_value(b.clone()), own),
        6 => go!("packed CBOR", serde_cbor::ser::to_vec_packed(&*m), serde_cbor::ser::to_vec_packed(&s.m), |b: &Vec<u8>| serde_cbor::from_slice(b), |b: &Vec<u8>| serde_cbor::from_slice(b), own),
        _ => go!("JSON text", serde_json::to_string(&*m), serde_json::to_string(&s.m), |b: &String| serde_json::from_str(b), |b: &String| serde_json::from_str(b), own),
    }
}

fn candid_one<K: HK + HKDense + CandidType, V: HV + CandidType>(c: &MapCase, hows: &[u8], st: &mut Stats) -> Res
where
    V::M: CandidType,
{
    let mut s = Sut::<K, V>::new(false, c.pool.clone());
    st.class(&format!("Candid {}", s.name()));
    let per = c.ops.len() / hows.len() + 1;
    let mut ops = c.ops.chunks(per);
    let e = |w: &str, e: &dyn std::fmt::Display| format!("Candid Map<{}, {}>: {}: {}", K::NAME, V::NAME, w, e);
    for how in hows {
        for o in ops.next().unwrap_or(&[]) {
            s.apply(o)?;
        }
        let want: Vec<(K, V::M)> = s.m.iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        let m = match &mut s.c {
            Ct::Map(m) => m,
            _ => unreachable!(),
        };
        *m = match how % 6 {
            0 => {
                let b = candid::encode_one(&*m).map_err(|x| e("encoding", &x))?;
                let std: Vec<(K, V::M)> = candid::decode_one(&b).map_err(|x| e("own encoding as a vector of pairs", &x))?;
                ensure!(std == want, "own Candid read as a vector of pairs is {:?}, expected {:?}", std, want);
                candid::decode_one(&b).map_err(|x| e("own encoding", &x))?
            }
            1 => {
                // a vector of pairs in any order, some keys twice (the last one counts)
                let mut v = want.clone();
                if v.len() > 2 {
                    let n = v.len();
                    v.swap(0, n / 2);
                    v.rotate_left(n / 3);
                    let x = (v[n / 4].0.clone(), V::M::default());
                    v.insert(n / 4, x);
                }
                let b = candid::encode_one(&v).map_err(|x| e("encoding pairs", &x))?;
                candid::decode_one(&b).map_err(|x| e("a vector of pairs", &x))?
            }
            2 => {
                let b = candid::encode_args((7u8, &*m, "x")).map_err(|x| e("encoding as an argument", &x))?;
                let (a, std, z): (u8, Vec<(K, V::M)>, String) = candid::decode_args(&b).map_err(|x| e("own argument as a vector of pairs", &x))?;
                ensure!(a == 7 && z == "x" && std == want, "own Candid argument read as a vector of pairs is {:?}, expected {:?}", std, want);
                let (_, m2, _): (u8, Map<K, V>, String) = candid::decode_args(&b).map_err(|x| e("own argument", &x))?;
                m2
            }
            3 => {
                let b = candid::encode_one(Rec { before: Some(3), map: &*m, after: &*m }).map_err(|x| e("encoding in a record", &x))?;
                let r: Rec<Map<K, V>, Vec<(K, V::M)>> = candid::decode_one(&b).map_err(|x| e("in a record", &x))?;
                ensure!(r.before == Some(3) && r.after == want, "in a record: {:?}, expected {:?}", r.after, want);
                r.map
            }
            4 => {
                let b = candid::encode_one(Some(&*m)).map_err(|x| e("encoding an option", &x))?;
                let r: Option<Map<K, V>> = candid::decode_one(&b).map_err(|x| e("an option", &x))?;
                r.ok_or("an optional map is lost")?
            }
            _ => {
                let b = candid::encode_one(vec![&*m, &*m]).map_err(|x| e("encoding a vector of maps", &x))?;
                let mut r: Vec<Map<K, V>> = candid::decode_one(&b).map_err(|x| e("a vector of maps", &x))?;
                ensure!(r.len() == 2, "a vector of maps changed its length");
                r.pop().unwrap()
            }
        };
        if s.m.len() > 1 {
            st.mark();
        }
        all(&s, &c.probes).map_err(|e| format!("{} after Candid {}: {}", s.name(), how % 6, e))?;
    }
    for o in ops.flatten() {
        s.apply(o)?;
    }
    all(&s, &c.probes).map_err(|e| format!("{} after further changes: {}", s.name(), e))
}

fn serde_one<K: HK + HKDense, V: HV>(c: &MapCase, hows: &[u8], st: &mut Stats) -> Res {
    let mut s = Sut::<K, V>::new(false, c.pool.clone());
    st.class(&s.name());
    let per = c.ops.len() / hows.len() + 1;
    let mut ops = c.ops.chunks(per);
    for how in hows {
        for o in ops.next().unwrap_or(&[]) {
            s.apply(o).map_err(|e| format!("{}: {:?}: {}", s.name(), o, e))?;
        }
        let what = recode(&mut s, *how)?;
        st.class(what);
        if s.n() > 1 && !what.starts_with("cannot") {
            st.mark();
        }
        all(&s, &c.probes).map_err(|e| format!("{} after {} (variant {}): {}", s.name(), what, how % 16, e))?;
    }
    for o in ops.flatten() {
        s.apply(o).map_err(|e| format!("{}: {:?}: {}", s.name(), o, e))?;
    }
    all(&s, &c.probes).map_err(|e| format!("{} after further changes: {}", s.name(), e))
}

fn seq_one<V: Item15 + CandidType>(vals: &[u32], hows: &[u8], more: &[u32], st: &mut Stats) -> Res
where
    V::M: CandidType,
{
    let mut s: Seq<V> = vals.iter().map(|v| V::mk(*v)).collect();
    let mut m: Vec<V::M> = vals.iter().map(|v| V::mk_m(*v)).collect();
    st.class(&format!("Seq<{}>", V::NAME));
    let e = |w: &str, e: &dyn std::fmt::Display| format!("Seq<{}>: {}: {}", V::NAME, w, e);
    for (i, how) in hows.iter().enumerate() {
        let before = s.root_hash();
        macro_rules! go {
            ($what:expr, $own:expr, $std:expr, $dec:expr, $decstd:expr) => {{
                match ($own, $std) {
                    (Ok(a), Ok(b)) => {
                        let x = if how % 2 == 0 { a } else { b };
                        let std: Vec<V::M> = $decstd(&x).map_err(|x| e(concat!("as a vector: ", $what), &x))?;
                        ensure!(std == m, "{} read as a vector is {:?}, expected {:?}", $what, std, m);
                        s = $dec(&x).map_err(|x| e($what, &x))?;
                    }
                    (Err(_), Err(_)) => continue,
                    (Err(x), _) => return Err(e(concat!("encoding ", $what), &x)),
                    (_, Err(x)) => return Err(e(concat!("encodes although a vector does not: ", $what), &x)),
                }
            }};
        }
        type R<X, E> = Result<X, E>;
        if i == 0 && how / 2 % 6 < 2 && m.len() < 300 {
            short_outputs(&format!("Seq<{}>", V::NAME), &s)?;
        }
        match how / 2 % 6 {
            0 => go!("CBOR", serde_cbor::to_vec(&s), serde_cbor::to_vec(&m), |b: &Vec<u8>| -> R<_, _> { serde_cbor::from_slice(b) }, |b: &Vec<u8>| -> R<_, _> { serde_cbor::from_slice(b) }),
            1 => go!("JSON", serde_json::to_vec(&s), serde_json::to_vec(&m), |b: &Vec<u8>| -> R<_, _> { serde_json::from_slice(b) }, |b: &Vec<u8>| -> R<_, _> { serde_json::from_slice(b) }),
            2 => go!("Candid", candid::encode_one(&s), candid::encode_one(&m), |b: &Vec<u8>| -> R<_, _> { candid::decode_one(b) }, |b: &Vec<u8>| -> R<_, _> { candid::decode_one(b) }),
            3 => go!("CBOR reader", serde_cbor::to_vec(&s), serde_cbor::to_vec(&m), |b: &Vec<u8>| -> R<_, _> { serde_cbor::from_reader(&b[..]) }, |b: &Vec<u8>| -> R<_, _> { serde_cbor::from_reader(&b[..]) }),
            4 => go!("JSON value", serde_json::to_value(&s), serde_json::to_value(&m), |b: &serde_json::Value| -> R<_, _> { serde_json::from_value(b.clone()) }, |b: &serde_json::Value| -> R<_, _> { serde_json::from_value(b.clone()) }),
            _ => go!("CBOR value", serde_cbor::value::to_value(&s), serde_cbor::value::to_value(&m), |b: &CV| -> R<_, _> { serde_cbor::value::from_value(b.clone()) }, |b: &CV| -> R<_, _> { serde_cbor::value::from_value(b.clone()) }),
        }
        // (items that contain maps may certify with another shape)
        if V::eq_seq(&s, &s).is_some() {
            ensure!(s.root_hash() == before, "encoding {} changed the root hash from {} to {}", how / 2 % 6, hx(&before), hx(&s.root_hash()));
        }
        if m.len() > 1 {
            st.mark();
        }
        seq_check(&s, &m, true).map_err(|x| format!("Seq<{}> after encoding {}: {}", V::NAME, how / 2 % 6, x))?;
        for v in more.iter().skip(i).step_by(hows.len()) {
            s.append(V::mk(*v));
            m.push(V::mk_m(*v));
        }
        seq_check(&s, &m, true).map_err(|x| format!("Seq<{}> after encoding and appending: {}", V::NAME, x))?;
    }
    Ok(())
}

pub struct C16;
impl Prop for C16 {
    type Case = RtCase;
    fn id(&self) -> &'static str {
        "C16"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if a collection of at least two entries, items or pages went through an encoding; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 36_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        match i % 3000 {
            100 | 700 | 1300 | 1900 | 2500 => return 7,
            400 => return 10 + (i / 3000 % 24) as usize,
            200 | 1700 => return 8,
            300 | 1800 => return 9,
            _ => {}
        }
        match i % 60 {
            0..=19 => 0,
            20..=28 => 1,
            29 => 2,
            30..=39 => 3,
            40..=44 => 4,
            45..=52 => 5,
            _ => 6,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<RtCase> {
        let hows = || prop::collection::vec(any::<u8>(), 1..5);
        match class {
            0..=2 => (mapcase(class, (0..NCODEC).collect()), hows())
                .prop_map(|(mut c, hows)| {
                    c.tree = false;
                    RtCase::Map { c, hows }
                })
                .boxed(),
            3 | 4 => (mapcase(class - 3, (0..NCODEC).collect()), hows()).prop_map(|(c, hows)| RtCase::Candid { c, hows }).boxed(),
            5 => (any::<u8>(), prop::collection::vec(0u32..5000, 0..40), hows(), prop::collection::vec(0u32..5000, 0..8))
                .prop_map(|(ty, vals, hows, more)| RtCase::Seq { ty, vals, hows, more })
                .boxed(),
            6 => (paged::pcase(0), hows()).prop_map(|(c, hows)| RtCase::Paged { c, hows }).boxed(),
            7 => {
                let n = prop_oneof![
                    3 => 1000u32..4300,
                    1 => prop::sample::select(vec![1023u32, 1024, 1025, 2048, 4095, 4096, 4097, 8192, 8193]),
                    1 => 4000u32..12_000,
                ];
                (any::<u8>(), n, any::<u32>(), hows()).prop_map(|(ty, n, seed, hows)| RtCase::Long { ty, n, seed, hows }).boxed()
            }
            8 => (mapcase(3, (0..NCODEC).collect()), hows(), any::<bool>())
                .prop_map(|(mut c, hows, candid)| {
                    c.tree = false;
                    match candid {
                        true => RtCase::Candid { c, hows },
                        false => RtCase::Map { c, hows },
                    }
                })
                .boxed(),
            9 => (paged::pcase(1), hows()).prop_map(|(c, hows)| RtCase::Paged { c, hows }).boxed(),
            k => huge(k - 10).prop_map(RtCase::Huge).boxed(),
        }
    }
    fn check(&self, c: &RtCase, st: &mut Stats) -> Res {
        match c {
            RtCase::Huge(h) => huge_round(h, st),
            RtCase::Map { c, hows } => map_run(c, hows, false, st),
            RtCase::Candid { c, hows } => map_run(c, hows, true, st),
            RtCase::Seq { .. } | RtCase::Long { .. } => {
                let made;
                let (ty, vals, hows, more): (&u8, &[u32], &[u8], &[u32]) = match c {
                    RtCase::Seq { ty, vals, hows, more } => (ty, vals, hows, more),
                    RtCase::Long { ty, n, seed, hows } => {
                        made = (0..*n).map(|i| i.wrapping_mul(2_654_435_761).wrapping_add(*seed) % 5000).collect::<Vec<u32>>();
                        st.class(if *n <= 4096 { "Seq of 1000 to 4096 items" } else { "Seq of more than 4096 items" });
                        (ty, &made, hows, &made[..3])
                    }
                    _ => unreachable!(),
                };
                let f: [fn(&[u32], &[u8], &[u32], &mut Stats) -> Res; 11] = [
                    seq_one::<u32>,
                    seq_one::<u8>,
                    seq_one::<bool>,
                    seq_one::<u128>,
                    seq_one::<[u8; 5]>,
                    seq_one::<String>,
                    seq_one::<Vec<u8>>,
                    seq_one::<Seq<u8>>,
                    seq_one::<Seq<u32>>,
                    seq_one::<Map<u8, u16>>,
                    seq_one::<Map<String, Seq<u8>>>,
                ];
                f[*ty as usize % f.len()](vals, hows, more, st)
            }
            RtCase::Paged { c, hows } => {
                let mut s = paged::make(c.combo, c.pool.clone());
                st.class(&s.name());
                let per = c.ops.len() / hows.len() + 1;
                let mut ops = c.ops.chunks(per);
                // (the order of labels is C18's matter)
                let mut quiet = Stats { listed: listed("C18"), ..Stats::default() };
                let mut look = |s: &dyn DynPaged, w: &str| -> Res {
                    s.check_pages(&c.probes).and_then(|_| s.check_cert(&c.probes, &mut quiet)).map_err(|e| format!("{} {}: {}", s.name(), w, e))
                };
                for how in hows {
                    for o in ops.next().unwrap_or(&[]) {
                        paged::apply(&mut *s, o)?;
                    }
                    s.recode(*how)?;
                    if s.pages() > 1 {
                        st.mark();
                    }
                    look(&*s, &format!("after encoding {}", how % 6))?;
                }
                for o in ops.flatten() {
                    paged::apply(&mut *s, o)?;
                }
                look(&*s, "after further changes")
            }
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "serde_cbor, serde_json and candid are correct for the standard map, vector and struct (they are the oracle)".into(),
            "a Paged has no JSON form, as the standard map with struct keys has none".into(),
            "root hashes of decoded Seqs are compared unless items contain Maps (their shape depends on history)".into(),
        ]
    }
}

// ------------------------------------------------------------------ C25

/// A change to the encoded value at a node chosen by the first number.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Struc(pub u32, pub u8, pub u32);
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Byte {
    Trunc(u32),
    Flip(u32, u8),
    Set(u32, u8),
    Ins(u32, Vec<u8>),
    Del(u32, u8),
    Dup(u32, u8),
    Tail(Vec<u8>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DecCase {
    pub kind: Kind,
    pub combo: u8,
    pub pool: Pool,
    /// pairs in this order; key index, value seed, and the page or length
    pub pairs: Vec<(u32, u32, u32)>,
    pub strucs: Vec<Struc>,
    /// chooses the form of every head; 0: canonical
    pub form: u32,
    pub bytes: Vec<Byte>,
    pub after: Vec<Op>,
    pub probes: Vec<u32>,
    /// instead of all this: very many entries
    #[serde(default)]
    pub huge: Option<Huge>,
}
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Kind {
    MapCbor,
    MapJson,
    SeqCbor,
    SeqJson,
    PagedCbor,
}

/// Generic encodable value: what both formats are written from.
#[derive(Clone, Debug)]
pub enum G {
    Int(i128),
    Float(f64),
    Bool(bool),
    Null,
    Bytes(Vec<u8>),
    Text(String),
    Arr(Vec<G>),
    Map(Vec<(G, G)>),
    Tag(u64, Box<G>),
    /// a head that announces much more than there is
    Huge(u8, u64, Vec<u8>),
}
impl G {
    fn of(v: CV) -> G {
        match v {
            CV::Null => G::Null,
            CV::Bool(b) => G::Bool(b),
            CV::Integer(i) => G::Int(i),
            CV::Float(f) => G::Float(f),
            CV::Bytes(b) => G::Bytes(b),
            CV::Text(t) => G::Text(t),
            CV::Array(a) => G::Arr(a.into_iter().map(G::of).collect()),
            CV::Map(m) => G::Map(m.into_iter().map(|(k, v)| (G::of(k), G::of(v))).collect()),
            _ => G::Null,
        }
    }
    fn count(&self) -> u32 {
        1 + match self {
            G::Arr(a) => a.iter().map(|x| x.count()).sum(),
            G::Map(m) => m.iter().map(|(k, v)| k.count() + v.count()).sum(),
            G::Tag(_, x) => x.count(),
            _ => 0,
        }
    }
    /// The `n`th node, depth first.
    fn node(&mut self, n: &mut u32) -> Option<&mut G> {
        if *n == 0 {
            return Some(self);
        }
        *n -= 1;
        match self {
            G::Arr(a) => {
                for x in a {
                    let c = x.count();
                    if *n < c {
                        return x.node(n);
                    }
                    *n -= c;
                }
                None
            }
            G::Map(m) => {
                for (k, v) in m {
                    for x in [k, v] {
                        let c = x.count();
                        if *n < c {
                            return x.node(n);
                        }
                        *n -= c;
                    }
                }
                None
            }
            G::Tag(_, x) => x.node(n),
            _ => None,
        }
    }
    fn mutate(&mut self, how: u8, arg: u32) {
        let old = std::mem::replace(self, G::Null);
        let a = arg as usize;
        *self = match (how % 20, old) {
            (0, x) => G::Arr(vec![x]),
            (1, x) => G::Tag([0, 1, 2, 4, 23, 24, 55799, 1 << 20][a % 8], Box::new(x)),
            (2, _) => G::Null,
            (3, _) => G::Bool(a % 2 == 1),
            (4, _) => G::Float([0.0, -0.0, 1.0, 1.5, f64::NAN, f64::INFINITY, 1e300, 255.0][a % 8]),
            (5, _) => G::Text(["", "a", "0", "-1", "255", "true", "\u{0}", "\u{1F600}"][a % 8].into()),
            (6, _) => G::Bytes(vec![a as u8; a % 5]),
            (7, _) => G::Int([-1, 0, 255, 256, 65536, u32::MAX as i128, u64::MAX as i128, -(1i128 << 64)][a % 8]),
            (8, _) => G::Map(vec![]),
            (9, _) => G::Arr(vec![]),
            (10, G::Map(mut m)) if !m.is_empty() => {
                // the same key again, with another value
                let n = m.len();
                let (k, v) = (m[a % n].0.clone(), m[a / 7 % n].1.clone());
                m.insert(a / 3 % (n + 1), (k, v));
                G::Map(m)
            }
            (11, G::Map(mut m)) if m.len() > 1 => {
                let n = m.len();
                m.swap(a % n, a / 5 % n);
                G::Map(m)
            }
            (12, G::Map(mut m)) => {
                m.reverse();
                G::Map(m)
            }
            (10, G::Arr(mut m)) if !m.is_empty() => {
                let x = m[a % m.len()].clone();
                m.push(x);
                G::Arr(m)
            }
            (11, G::Arr(mut m)) if !m.is_empty() => {
                let n = m.len();
                m.remove(a % n);
                G::Arr(m)
            }
            (13, G::Map(m)) => {
                if a % 2 == 0 {
                    G::Arr(m.into_iter().map(|(k, v)| G::Arr(vec![k, v])).collect())
                } else {
                    G::Arr(m.into_iter().flat_map(|(k, v)| [k, v]).collect())
                }
            }
            (13, G::Arr(m)) => G::Map(m.into_iter().enumerate().map(|(i, x)| (G::Int(i as i128), x)).collect()),
            (14, G::Int(i)) => G::Text(i.to_string()),
            (14, G::Text(t)) => G::Bytes(t.into_bytes()),
            (14, G::Bytes(b)) => G::Arr(b.into_iter().map(|x| G::Int(x as i128)).collect()),
            (14, G::Arr(v)) if v.iter().all(|x| matches!(x, G::Int(0..=255))) => {
                G::Bytes(v.iter().map(|x| if let G::Int(i) = x { *i as u8 } else { 0 }).collect())
            }
            (15, G::Int(i)) => G::Int(i.wrapping_add([1, -1, 256, -256, 1 << 32, 1 << 16][a % 6])),
            (15, G::Text(mut t)) => {
                t.push(if a % 2 == 0 { 'a' } else { '\u{0}' });
                G::Text(t)
            }
            (15, G::Bytes(mut b)) => {
                b.push(a as u8);
                G::Bytes(b)
            }
            (15, G::Arr(mut v)) => {
                v.push(G::Int((a % 256) as i128));
                G::Arr(v)
            }
            (16, x @ (G::Arr(_) | G::Map(_) | G::Text(_) | G::Bytes(_))) if a % 3 == 0 => {
                let major = match x {
                    G::Arr(_) => 4,
                    G::Map(_) => 5,
                    G::Text(_) => 3,
                    _ => 2,
                };
                let mut o = vec![];
                x.cbor(0, &mut o);
                G::Huge(major, [100, 70_000, 1 << 31, 1 << 40, u64::MAX][a / 3 % 5], o[1..].to_vec())
            }
            (17, G::Map(mut m)) if !m.is_empty() => {
                // a field or an entry missing
                let n = m.len();
                m.remove(a % n);
                G::Map(m)
            }
            (18, G::Map(mut m)) => {
                // one field or entry more
                m.push((G::Text(["", "data", "key", "page", "zzz"][a % 5].into()), G::Int(1)));
                G::Map(m)
            }
            (_, x) => x,
        };
    }

    fn head(major: u8, n: u64, f: u32, o: &mut Vec<u8>) {
        let m = major << 5;
        match f % 7 {
            1 if n < 256 => o.extend([m | 24, n as u8]),
            2 if n < 65536 => {
                o.push(m | 25);
                o.extend((n as u16).to_be_bytes());
            }
            3 if n < 1 << 32 => {
                o.push(m | 26);
                o.extend((n as u32).to_be_bytes());
            }
            4 => {
                o.push(m | 27);
                o.extend(n.to_be_bytes());
            }
            _ => cbor_head(major, n, o),
        }
    }
    /// CBOR with the form of each head chosen by `f` (0: canonical).
    fn cbor(&self, f: u32, o: &mut Vec<u8>) {
        // every node gets its own
        let g = if f == 0 { 0 } else { (f ^ o.len() as u32).wrapping_mul(2654435761) >> 8 };
        match self {
            G::Int(i) => {
                if *i >= 0 {
                    Self::head(0, (*i).min(u64::MAX as i128) as u64, g, o)
                } else {
                    Self::head(1, (-1 - *i).min(u64::MAX as i128) as u64, g, o)
                }
            }
            G::Float(x) => {
                if g % 3 == 1 {
                    o.push(0xfa);
                    o.extend((*x as f32).to_be_bytes());
                } else {
                    o.push(0xfb);
                    o.extend(x.to_be_bytes());
                }
            }
            G::Bool(b) => o.push(0xf4 + *b as u8),
            G::Null => o.push(if g % 5 == 1 { 0xf7 } else { 0xf6 }),
            G::Bytes(b) => {
                if f != 0 && g % 11 == 5 {
                    o.push(0x5f);
                    for c in b.chunks(3) {
                        cbor_bytes(c, o);
                    }
                    o.push(0xff);
                } else {
                    Self::head(2, b.len() as u64, g, o);
                    o.extend(b);
                }
            }
            G::Text(t) => {
                if f != 0 && g % 11 == 5 {
                    o.push(0x7f);
                    for c in t.chars() {
                        let c = c.to_string();
                        cbor_head(3, c.len() as u64, o);
                        o.extend(c.as_bytes());
                    }
                    o.push(0xff);
                } else {
                    Self::head(3, t.len() as u64, g, o);
                    o.extend(t.as_bytes());
                }
            }
            G::Arr(a) => {
                let ind = f != 0 && g % 4 == 1;
                if ind {
                    o.push(0x9f)
                } else {
                    Self::head(4, a.len() as u64, g, o);
                }
                for x in a {
                    x.cbor(f, o);
                }
                if ind {
                    o.push(0xff)
                }
            }
            G::Map(m) => {
                let ind = f != 0 && g % 3 == 1;
                if ind {
                    o.push(0xbf)
                } else {
                    Self::head(5, m.len() as u64, g, o);
                }
                for (k, v) in m {
                    k.cbor(f, o);
                    v.cbor(f, o);
                }
                if ind {
                    o.push(0xff)
                }
            }
            G::Tag(t, x) => {
                Self::head(6, *t, g, o);
                x.cbor(f, o);
            }
            G::Huge(m, n, rest) => {
                Self::head(*m, *n, 4, o);
                o.extend(rest);
            }
        }
    }
    fn json(&self, f: u32, key: bool, o: &mut String) {
        let g = if f == 0 { 0 } else { (f ^ o.len() as u32).wrapping_mul(2654435761) >> 8 };
        if f != 0 && g % 7 == 1 {
            o.push_str([" ", "\n", "\t\r ", ""][(g / 7 % 4) as usize]);
        }
        match self {
            G::Int(i) => {
                let s = match (f != 0, g % 13) {
                    (true, 1) => format!("{}.0", i),
                    (true, 2) => format!("{}e0", i),
                    (true, 3) if *i == 0 => "-0".into(),
                    (true, 4) => format!("0{}", i),
                    _ => i.to_string(),
                };
                if key {
                    *o += &format!("\"{}\"", s)
                } else {
                    *o += &s
                }
            }
            G::Float(x) => *o += &if key { format!("\"{:?}\"", x) } else { format!("{:?}", x) },
            G::Bool(b) => *o += &if key { format!("\"{}\"", b) } else { b.to_string() },
            G::Null => *o += "null",
            G::Bytes(b) => {
                *o += &format!("{:?}", b);
            }
            G::Text(t) => {
                o.push('"');
                for c in t.chars() {
                    match c {
                        '"' | '\\' => {
                            o.push('\\');
                            o.push(c);
                        }
                        c if (c as u32) < 32 || (f != 0 && g % 3 == 1 && (c as u32) < 0xd800) => *o += &format!("\\u{:04x}", c as u32),
                        c => o.push(c),
                    }
                }
                o.push('"');
            }
            G::Arr(a) => {
                o.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.json(f, false, o);
                }
                o.push(']');
            }
            G::Map(m) => {
                o.push('{');
                for (i, (k, v)) in m.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    k.json(f, true, o);
                    o.push(':');
                    v.json(f, false, o);
                }
                o.push('}');
            }
            G::Tag(_, x) => x.json(f, key, o),
            G::Huge(_, n, _) => *o += &format!("[{}", n),
        }
    }
}

fn mangle(b: &mut Vec<u8>, m: &Byte) {
    let n = b.len().max(1);
    let at = |x: u32| x as usize % n;
    match m {
        Byte::Trunc(x) => b.truncate(at(*x)),
        Byte::Flip(x, bit) => {
            if let Some(y) = b.get_mut(at(*x)) {
                *y ^= 1 << (bit % 8)
            }
        }
        Byte::Set(x, v) => {
            if let Some(y) = b.get_mut(at(*x)) {
                *y = *v
            }
        }
        Byte::Ins(x, v) => {
            let i = at(*x).min(b.len());
            b.splice(i..i, v.iter().copied());
        }
        Byte::Del(x, k) => {
            let i = at(*x).min(b.len());
            let e = (i + *k as usize % 6 + 1).min(b.len());
            b.drain(i..e);
        }
        Byte::Dup(x, k) => {
            let i = at(*x).min(b.len());
            let e = (i + *k as usize % 20 + 1).min(b.len());
            let c = b[i..e].to_vec();
            b.splice(e..e, c);
        }
        Byte::Tail(v) => b.extend(v),
    }
}

fn to_g<X: Serialize>(x: &X) -> G {
    serde_cbor::value::to_value(x).map(G::of).unwrap_or(G::Null)
}

/// The bytes of the case, as an encoding of the value built from its pairs.
fn bytes_of(c: &DecCase, mut g: G, json: bool) -> Vec<u8> {
    for Struc(n, how, arg) in &c.strucs {
        let k = g.count();
        let mut i = n % k;
        if let Some(x) = g.node(&mut i) {
            x.mutate(*how, *arg);
        }
    }
    let mut b = vec![];
    if json {
        let mut s = String::new();
        g.json(c.form, false, &mut s);
        b.extend(s.as_bytes());
    } else {
        g.cbor(c.form, &mut b);
    }
    for m in &c.bytes {
        mangle(&mut b, m);
    }
    b
}

/// Decodes in all ways the format has: ours and the standard shape, in pairs.
#[allow(clippy::type_complexity)]
fn decode<A: DeserializeOwned, B: DeserializeOwned + Debug>(b: &[u8], json: bool) -> Vec<(&'static str, Option<A>, Option<B>)> {
    if json {
        vec![
            ("from_slice", serde_json::from_slice(b).ok(), serde_json::from_slice(b).ok()),
            ("from_reader", serde_json::from_reader(b).ok(), serde_json::from_reader(b).ok()),
            (
                "from_value",
                serde_json::from_slice::<serde_json::Value>(b).ok().and_then(|v| serde_json::from_value(v).ok()),
                serde_json::from_slice::<serde_json::Value>(b).ok().and_then(|v| serde_json::from_value(v).ok()),
            ),
        ]
    } else {
        let prefix = |b: &[u8]| -> (Option<A>, Option<B>) {
            // several documents one after the other
            let mut x = serde_cbor::Deserializer::from_slice(b);
            let mut y = serde_cbor::Deserializer::from_slice(b);
            (A::deserialize(&mut x).ok(), B::deserialize(&mut y).ok())
        };
        let (x, y) = prefix(b);
        vec![
            ("from_slice", serde_cbor::from_slice(b).ok(), serde_cbor::from_slice(b).ok()),
            ("from_reader", serde_cbor::from_reader(b).ok(), serde_cbor::from_reader(b).ok()),
            (
                "from_value",
                serde_cbor::from_slice::<CV>(b).ok().and_then(|v| serde_cbor::value::from_value(v).ok()),
                serde_cbor::from_slice::<CV>(b).ok().and_then(|v| serde_cbor::value::from_value(v).ok()),
            ),
            ("a deserializer with data left", x, y),
        ]
    }
}
fn accept<A, B: Debug>(what: &str, a: Option<A>, b: Option<B>, name: &str) -> Result<Option<(A, B)>, String> {
    match (a, b) {
        (Some(a), Some(b)) => Ok(Some((a, b))),
        (None, None) => Ok(None),
        (Some(_), None) => Err(format!("{}: {}: accepted, but the standard shape refuses it", name, what)),
        (None, Some(b)) => Err(format!("{}: {}: refused, but the standard shape accepts it as {:?}", name, what, b)),
    }
}

fn map_one<K: HK + HKDense, V: HV>(c: &DecCase, st: &mut Stats) -> Res {
    let json = c.kind == Kind::MapJson;
    let g = G::Map(c.pairs.iter().map(|(k, v, _)| (to_g(&c.pool.key::<K>(*k)), to_g(&V::mk_m(*v)))).collect());
    let b = bytes_of(c, g, json);
    let name = format!("Map<{}, {}>", K::NAME, V::NAME);
    for (how, a, m) in decode::<Map<K, V>, BTreeMap<K, V::M>>(&b, json) {
        if let Some((x, m)) = accept(how, a, m, &name)? {
            let ctx = |e: String| format!("{} decoded with {} from {}: {}", name, how, hx(&b), e);
            st.class(if m.len() > 1 { "accepted, 2 or more entries" } else { "accepted, 0 or 1 entries" });
            if m.len() > 1 && (c.form != 0 || !c.strucs.is_empty() || !c.bytes.is_empty()) {
                st.mark();
            }
            let mut s = Sut { c: Ct::Map(x), m, pool: c.pool.clone() };
            all(&s, &c.probes).map_err(ctx)?;
            for o in &c.after {
                s.apply(o).map_err(ctx)?;
            }
            if !c.after.is_empty() {
                all(&s, &c.probes).map_err(ctx)?;
            }
        } else {
            st.class("refused by both");
            if how == "from_slice" && c.bytes.len() + c.strucs.len() <= 2 {
                st.mark();
            }
        }
    }
    Ok(())
}
fn seq_dec<V: Item15>(c: &DecCase, st: &mut Stats) -> Res {
    let json = c.kind == Kind::SeqJson;
    let g = G::Arr(c.pairs.iter().map(|(_, v, _)| to_g(&V::mk_m(*v))).collect());
    let b = bytes_of(c, g, json);
    let name = format!("Seq<{}>", V::NAME);
    for (how, a, m) in decode::<Seq<V>, Vec<V::M>>(&b, json) {
        if let Some((mut s, mut m)) = accept(how, a, m, &name)? {
            let ctx = |e: String| format!("{} decoded with {} from {}: {}", name, how, hx(&b), e);
            st.class(if m.len() > 1 { "accepted, 2 or more items" } else { "accepted, 0 or 1 items" });
            if m.len() > 1 && (c.form != 0 || !c.strucs.is_empty() || !c.bytes.is_empty()) {
                st.mark();
            }
            seq_check(&s, &m, true).map_err(ctx)?;
            for v in &c.probes {
                s.append(V::mk(*v));
                m.push(V::mk_m(*v));
            }
            s.extend([V::mk(1)]);
            m.push(V::mk_m(1));
            seq_check(&s, &m, true).map_err(ctx)?;
        } else {
            st.class("refused by both");
            if how == "from_slice" && c.bytes.len() + c.strucs.len() <= 2 {
                st.mark();
            }
        }
    }
    Ok(())
}
fn paged_one<K: HK + HKDense + CandidType, V: HV + CandidType, const S: usize>(c: &DecCase, st: &mut Stats) -> Res
where
    V::M: CandidType,
{
    let rows = c
        .pairs
        .iter()
        .map(|(k, v, p)| {
            let page = [0, 1, 2, 3, 255, 256, 65535, 65536, u32::MAX - 1, u32::MAX][(*p % 10) as usize];
            let n = [S, S, S, S.saturating_sub(1), 1, 0, S + 1, 2 * S][(*p / 10 % 8) as usize];
            let k = to_g(&PK { key: c.pool.key::<K>(*k), page });
            let v: Vec<V::M> = (0..n as u32).map(|i| V::mk_m(v.wrapping_add(i))).collect();
            (k, to_g(&v))
        })
        .collect();
    let g = G::Map(vec![(G::Text("data".into()), G::Map(rows))]);
    let b = bytes_of(c, g, false);
    let name = format!("Paged<{}, {}, {}>", K::NAME, V::NAME, S);
    let mut quiet = Stats { listed: listed("C18"), ..Stats::default() };
    for (how, a, m) in decode::<Paged<K, V, S>, Mirror<K, V::M>>(&b, false) {
        if let Some((p, m)) = accept(how, a, m, &name)? {
            let ctx = |e: String| format!("{} decoded with {} from {}: {}", name, how, hx(&b), e);
            st.class(if m.data.len() > 1 { "accepted, 2 or more pages" } else { "accepted, 0 or 1 pages" });
            if m.data.len() > 1 {
                st.mark();
            }
            if m.data.keys().any(|k| k.page == u32::MAX) {
                st.class("accepted, page number 2^32-1");
            }
            let mut s = PSut::<K, V, S> { p, m: m.data, flat: None, pool: c.pool.clone() };
            let mut look = |s: &PSut<K, V, S>| s.check_pages(&c.probes).and_then(|_| s.check_cert(&c.probes, &mut quiet)).map_err(ctx);
            look(&s)?;
            for (i, (k, v, _)) in c.pairs.iter().enumerate().take(6) {
                for j in 0..=(i as u32 % 3) {
                    s.insert(*k, v + j).map_err(ctx)?;
                }
                look(&s)?;
            }
            s.insert(c.probes[0], 9).map_err(ctx)?;
            look(&s)?;
        } else {
            st.class("refused by both");
        }
    }
    Ok(())
}

pub struct C25;
impl Prop for C25 {
    type Case = DecCase;
    fn id(&self) -> &'static str {
        "C25"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if the bytes are not the canonical encoding of a value and were accepted with at least two entries, items or pages, or were refused after at most two changes; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000,
            Tier::Thorough => 8_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        match i % 7500 {
            5003 => 6 + [0, 1, 2, 15, 16, 17, 6, 7, 3, 4, 5, 18, 19][(i / 7500 % 13) as usize],
            _ => (i % 6) as usize,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<DecCase> {
        let kind = [Kind::MapCbor, Kind::MapJson, Kind::MapCbor, Kind::PagedCbor, Kind::SeqCbor, Kind::SeqJson, Kind::MapCbor][class.min(6)];
        let big = if class >= 6 { huge(class - 6).prop_map(Some).boxed() } else { Just(None).boxed() };
        let byte = || {
            prop_oneof![
                any::<u32>().prop_map(Byte::Trunc),
                (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Byte::Flip(a, b)),
                (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Byte::Set(a, b)),
                (any::<u32>(), prop::collection::vec(any::<u8>(), 1..5)).prop_map(|(a, b)| Byte::Ins(a, b)),
                (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Byte::Del(a, b)),
                (any::<u32>(), any::<u8>()).prop_map(|(a, b)| Byte::Dup(a, b)),
                prop::collection::vec(any::<u8>(), 1..5).prop_map(Byte::Tail),
            ]
        };
        let struc = (prop_oneof![2 => Just(0u32), 5 => any::<u32>()], any::<u8>(), any::<u32>()).prop_map(|(a, b, c)| Struc(a, b, c));
        (
            any::<u8>(),
            prop_oneof![3 => pool_raw(8), 1 => pool_dense()],
            // few keys, so that duplicates are common
            prop::collection::vec((prop_oneof![3 => 0u32..12, 1 => 0u32..200], 0u32..5000, 0u32..80), 0..14),
            prop_oneof![3 => Just(vec![]).boxed(), 4 => prop::collection::vec(struc.clone(), 1..4).boxed()],
            prop_oneof![1 => Just(0u32), 2 => any::<u32>()],
            prop_oneof![5 => Just(vec![]).boxed(), 3 => prop::collection::vec(byte(), 1..4).boxed()],
            prop::collection::vec(op(48), 0..6),
            prop::collection::vec(0u32..60, 4..8),
            big,
        )
            .prop_map(move |(combo, pool, pairs, strucs, form, bytes, after, probes, huge)| DecCase { kind, combo, pool, pairs, strucs, form, bytes, after, probes, huge })
            .boxed()
    }
    fn check(&self, c: &DecCase, st: &mut Stats) -> Res {
        if let Some(h) = &c.huge {
            return huge_decode(h, st);
        }
        st.class(&format!("{:?}", c.kind));
        match c.kind {
            Kind::MapCbor | Kind::MapJson => map_dec(c, st),
            Kind::PagedCbor => match c.combo % 8 {
                0 => paged_one::<String, u64, 3>(c, st),
                1 => paged_one::<u32, String, 2>(c, st),
                2 => paged_one::<Vec<u8>, Vec<u8>, 1>(c, st),
                3 => paged_one::<u8, u16, 7>(c, st),
                4 => paged_one::<u64, Seq<u8>, 1>(c, st),
                5 => paged_one::<[u8; 3], bool, 5>(c, st),
                6 => paged_one::<u16, Map<u8, u16>, 2>(c, st),
                _ => paged_one::<bool, u64, 4>(c, st),
            },
            _ => match c.combo % 9 {
                0 => seq_dec::<u32>(c, st),
                1 => seq_dec::<u8>(c, st),
                2 => seq_dec::<bool>(c, st),
                3 => seq_dec::<[u8; 5]>(c, st),
                4 => seq_dec::<String>(c, st),
                5 => seq_dec::<Vec<u8>>(c, st),
                6 => seq_dec::<Seq<u8>>(c, st),
                7 => seq_dec::<Map<u8, u16>>(c, st),
                _ => seq_dec::<Map<String, Seq<u8>>>(c, st),
            },
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "serde_cbor and serde_json decode the standard map, vector and struct correctly (they are the oracle for acceptance and contents)".into(),
            "hostile Candid is not covered: decoding it is the candid crate's work".into(),
            "a Paged decoded with a full page of number 2^32-1 may refuse further items of that key by a panic".into(),
        ]
    }
}

