//! C21 (twin runs) and C22 (collision search), over all kinds of collections.
use super::group;
use super::paged;
use super::seq;
use super::sut::{self, mapcase, MapCase, Op};
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use candid::Nat;
use certified_vars::label::Label;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Group, GroupBuilder, Hash, HashTree, Map, Paged, Seq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cmp::Ordering;
use std::collections::{BTreeMap, HashMap};
use std::fmt::Debug;

// ------------------------------------------------------------------ C21

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Hist {
    Map(MapCase),
    Seq { ty: u8, ops: Vec<seq::S> },
    Paged(paged::PCase),
    Group(group::GCase),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TwinCase {
    pub hist: Hist,
    /// what is called between the updates of the second run (used in turn)
    pub reads: Vec<(u8, u32)>,
    /// the second run happens in another thread
    pub thread: bool,
}
type Obs = Vec<(String, Vec<u8>)>;

/// What goes on between two updates of the second run: read-only calls, and allocations that
/// move everything allocated later.
struct Noise<'a> {
    reads: &'a [(u8, u32)],
    at: usize,
    junk: Vec<Vec<u8>>,
}
impl<'a> Noise<'a> {
    fn new(reads: &'a [(u8, u32)]) -> Self {
        Noise { reads, at: 0, junk: vec![] }
    }
    fn between(&mut self, mut f: impl FnMut(u8, u32)) {
        if self.reads.is_empty() {
            return;
        }
        let n = self.reads[self.at % self.reads.len()].1 % 3;
        for _ in 0..=n {
            let (w, i) = self.reads[self.at % self.reads.len()];
            self.at += 1;
            f(w, i);
            match w % 4 {
                0 => self.junk.push(vec![1; 16 + i as usize % 200]),
                1 => drop(self.junk.pop()),
                2 if !self.junk.is_empty() => drop(self.junk.swap_remove(i as usize % self.junk.len())),
                _ => {}
            }
        }
    }
}

fn run_map(c: &MapCase, noise: Option<&[(u8, u32)]>) -> Result<(Obs, usize), String> {
    let mut s = sut::make_few(c.combo, c.tree, c.pool.clone());
    let mut n = noise.map(Noise::new);
    let mut max = 0;
    for o in &c.ops {
        match (o, &mut n) {
            (Op::Read(..), _) => {}
            (Op::Fill { n: k, from, order, vs }, Some(n)) => {
                for x in order.seq(*k) {
                    s.apply(&Op::Insert(from.wrapping_add(x), vs.wrapping_add(x)))?;
                    if x % 7 == 0 && (*k < 60 || x % 49 == 0) {
                        n.between(|w, i| s.read(w, i));
                    }
                }
            }
            (Op::Drain { n: k, from, order }, Some(n)) => {
                for x in order.seq(*k) {
                    s.apply(&Op::Remove(from.wrapping_add(x)))?;
                    if x % 7 == 0 && (*k < 60 || x % 49 == 0) {
                        n.between(|w, i| s.read(w, i));
                    }
                }
            }
            (o, _) => s.apply(o)?,
        }
        max = max.max(s.n());
        if let Some(n) = &mut n {
            n.between(|w, i| s.read(w, i));
        }
    }
    let mut v: Obs = vec![];
    for round in 0..2 {
        let mut add = |n: String, b: Vec<u8>| v.push((n + if round == 0 { "" } else { ", second time" }, b));
        add("root hash".into(), s.root().to_vec());
        add("tree".into(), s.tree().cbor());
        add("key list witness".into(), s.w_keys().cbor());
        add("CBOR".into(), s.cbor().unwrap_or_default());
        for (p, q) in c.probes.iter().zip(c.probes.iter().skip(1)) {
            add(format!("witness of key {}", p), s.w_key(*p).cbor());
            add(format!("witness of borrowed key {}", p), s.w_q(*p).cbor());
            let (a, b) = if s.key_cmp(*p, *q) == Ordering::Greater { (*q, *p) } else { (*p, *q) };
            add(format!("key range witness {}..{}", a, b), s.w_range(a, b, false).cbor());
            add(format!("value range witness {}..{}", a, b), s.w_range(a, b, true).cbor());
            add(format!("prefix witness {}", p), s.w_prefix(*p).map(|t| t.cbor()).unwrap_or_default());
            add(format!("nested witness {}", p), s.w_nested(*p).0.cbor());
        }
    }
    s.check_dict(&c.probes)?;
    Ok((v, max))
}
fn run_seq(ty: u8, ops: &[seq::S], noise: Option<&[(u8, u32)]>) -> Result<(Obs, usize), String> {
    let mut s = seq::make_few(ty);
    let mut n = noise.map(Noise::new);
    for o in ops {
        s.step(o)?;
        if let Some(n) = &mut n {
            n.between(|w, i| s.perturb(w as u32 | i << 8));
        }
    }
    let mut v = s.observe();
    v.extend(s.observe());
    Ok((v, ops.len()))
}
fn run_paged(c: &paged::PCase, noise: Option<&[(u8, u32)]>) -> Result<(Obs, usize), String> {
    let mut s = paged::make_few(c.combo, c.pool.clone());
    let mut n = noise.map(Noise::new);
    for o in &c.ops {
        match (o, &mut n) {
            (paged::POp::Many { i, n: k, v }, Some(n)) => {
                for x in 0..*k {
                    s.insert(*i, v.wrapping_add(x))?;
                    n.between(|w, i| s.read(w as u32 | i << 8));
                }
            }
            (o, _) => paged::apply(&mut *s, o)?,
        }
        if let Some(n) = &mut n {
            n.between(|w, i| s.read(w as u32 | i << 8));
        }
    }
    let mut v: Obs = vec![];
    for _ in 0..2 {
        v.push(("root hash".into(), s.root().to_vec()));
        v.push(("tree".into(), s.tree().cbor()));
        v.push(("encodings".into(), s.encoded()));
        for p in &c.probes {
            let (a, b) = s.witnesses(*p, *p as usize % 5);
            v.push((format!("witness of a page of key {}", p), a.cbor()));
            v.push((format!("last page witness of key {}", p), b.cbor()));
        }
    }
    s.check_pages(&c.probes)?;
    Ok((v, s.pages()))
}
fn run_group(c: &group::GCase, noise: Option<&[(u8, u32)]>) -> Result<(Obs, usize), String> {
    let order: Vec<usize> = (0..c.regs.len()).collect();
    let (mut g, mut m) = match group::build(c, &order, &mut Stats::default())? {
        Some(x) => x,
        None => return Ok((vec![], 0)),
    };
    let mut n = noise.map(Noise::new);
    let tys: Vec<usize> = m.data.keys().copied().collect();
    let witness = |g: &Group, picks: &[(u16, Option<u8>)]| -> T {
        let mut ray = Some(g.witness());
        for (i, how) in picks {
            let ty = tys[*i as usize % tys.len()];
            match how {
                None => (group::TYPES[ty].full)(&mut ray),
                Some(h) => (group::TYPES[ty].partial)(&mut ray, *h),
            }
        }
        T::from_ht(&ray.unwrap().build())
    };
    for k in 0..=c.edits.len() {
        if let Some(n) = &mut n {
            n.between(|w, i| match w % 5 {
                0 => drop(g.root_hash()),
                1 => drop(T::from_ht(&g.as_hash_tree())),
                2 => drop(witness(&g, &[(i as u16, None), (i as u16 / 3, Some(w))])),
                3 => drop(witness(&g, c.picks.get(i as usize % 4).map(|x| &x[..]).unwrap_or(&[]))),
                _ => drop((group::TYPES[tys[i as usize % tys.len()]].get)(&g).inner().root_hash()),
            });
        }
        group::edit(c, &mut g, &mut m, k);
    }
    let mut v: Obs = vec![];
    for _ in 0..2 {
        v.push(("root hash".into(), g.root_hash().to_vec()));
        v.push(("tree".into(), T::from_ht(&g.as_hash_tree()).cbor()));
        for p in &c.picks {
            v.push((format!("witness of {:?}", p), witness(&g, p).cbor()));
        }
    }
    for (ty, d) in &m.data {
        ensure!((group::TYPES[*ty].get)(&g).same(d), "leaf {} has changed", ty);
    }
    Ok((v, m.data.len()))
}
fn run_hist(h: &Hist, noise: Option<&[(u8, u32)]>) -> Result<(Obs, usize), String> {
    match h {
        Hist::Map(c) => run_map(c, noise),
        Hist::Seq { ty, ops } => run_seq(*ty, ops, noise),
        Hist::Paged(c) => run_paged(c, noise),
        Hist::Group(c) => run_group(c, noise),
    }
}

pub struct C21;
impl Prop for C21 {
    type Case = TwinCase;
    fn id(&self) -> &'static str {
        "C21"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if the history has at least 3 entries, pages, leaves or (Seq) steps and the second run made reads; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 24_000,
            Tier::Thorough => 3_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        match i % 400 {
            0..=169 => 0,
            170..=237 => 1,
            238 => 2,
            239..=288 => 3,
            289..=349 => 4,
            350 => 5,
            _ => 6,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<TwinCase> {
        let h = match class {
            0..=2 => mapcase(class, (0..sut::NFEW).collect()).prop_map(Hist::Map).boxed(),
            3 => (any::<u8>(), prop::collection::vec(seq::sop(), 1..25)).prop_map(|(ty, ops)| Hist::Seq { ty, ops }).boxed(),
            4 => paged::pcase(0).prop_map(Hist::Paged).boxed(),
            5 => paged::pcase(1).prop_map(Hist::Paged).boxed(),
            _ => prop_oneof![12 => group::gcase(1), 1 => group::gcase(2)].prop_map(Hist::Group).boxed(),
        };
        (h, prop::collection::vec((any::<u8>(), 0u32..2000), 1..12), prop::bool::weighted(0.25))
            .prop_map(|(hist, reads, thread)| TwinCase { hist, reads, thread })
            .boxed()
    }
    fn check(&self, c: &TwinCase, st: &mut Stats) -> Res {
        st.class(match &c.hist {
            Hist::Map(c) if c.tree => "RbTree",
            Hist::Map(_) => "Map",
            Hist::Seq { .. } => "Seq",
            Hist::Paged(_) => "Paged",
            Hist::Group(_) => "Group",
        });
        let (a, n) = run_hist(&c.hist, None)?;
        let (b, _) = if c.thread {
            st.class("second run in another thread");
            let (h, r) = (c.hist.clone(), c.reads.clone());
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || guarded(|| run_hist(&h, Some(&r))))
                .unwrap()
                .join()
                .map_err(|_| "the second run died".to_string())?
        } else {
            run_hist(&c.hist, Some(&c.reads))
        }
        .map_err(|e| format!("only the run with interleaved reads: {}", e))?;
        ensure!(a.len() == b.len(), "the runs give {} and {} observations", a.len(), b.len());
        for (i, (x, y)) in a.iter().zip(&b).enumerate() {
            ensure!(x == y, "{}: {} without and {} with interleaved reads", x.0, hx(&x.1), hx(&y.1));
            // the same call again gives the same
            if let Some(z) = a[..i].iter().find(|z| z.0 == x.0.trim_end_matches(", second time")) {
                ensure!(z.1 == x.1, "{}: first {}, then {} without any change in between", x.0, hx(&z.1), hx(&x.1));
            }
        }
        if n >= 3 && !c.reads.is_empty() {
            st.mark();
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "both runs in one process (different addresses, hash-map seeds, capacities, and for a quarter of them threads)".into(),
            "a time-dependent result would be noticed only if the clock ticked between the two runs".into(),
        ]
    }
}

// ------------------------------------------------------------------ C22

/// Where generated contents come from; zeros when it is used up.
pub struct Tape<'a>(&'a [u8], usize);
impl<'a> Tape<'a> {
    fn u(&mut self) -> usize {
        self.1 += 1;
        self.0.get(self.1 - 1).copied().unwrap_or(0) as usize
    }
    fn below(&mut self, n: usize) -> usize {
        if n < 2 {
            0
        } else if n > 256 {
            (self.u() << 8 | self.u()) % n
        } else {
            self.u() % n
        }
    }
    /// Sizes: mostly small.
    fn len(&mut self) -> usize {
        let x = self.u();
        match x {
            0..=219 => x % 5,
            220..=249 => 5 + x % 20,
            _ => 25 + self.u() % 60,
        }
    }
}

/// Something with contents and a hash.
pub trait CV: AsHashTree + 'static {
    type M: Clone + Ord + Debug + 'static;
    fn gen(t: &mut Tape, depth: u8) -> Self::M;
    fn mutate(m: &mut Self::M, t: &mut Tape);
    fn real(m: &Self::M, t: &mut Tape) -> Self;
    /// Changes contents `from` to contents `to`, in place where possible.
    fn morph(&mut self, _from: &Self::M, to: &Self::M, t: &mut Tape)
    where
        Self: Sized,
    {
        *self = Self::real(to, t)
    }
    fn raw(_m: &Self::M) -> Option<Vec<u8>> {
        None
    }
    fn from_raw(_b: &[u8]) -> Option<Self::M> {
        None
    }
}
/// A key.
pub trait CKey: Label + Ord + Clone + Debug + 'static {
    fn gen(t: &mut Tape) -> Self;
    fn raw(&self) -> Option<Vec<u8>> {
        None
    }
    fn from_raw(_b: &[u8]) -> Option<Self> {
        None
    }
}
fn gen_bytes(t: &mut Tape) -> Vec<u8> {
    let x = t.u();
    let n = match x {
        0..=239 => x % 3,
        240..=250 => x % 8,
        _ => 120 + t.u(),
    };
    if n > 10 {
        let b = [0u8, b'a', 0xff][t.u() % 3];
        let mut v = vec![b; n];
        let i = t.below(n);
        v[i] = t.u() as u8;
        return v;
    }
    (0..n).map(|_| [0u8, b'a', b'b', 1][t.u() % 4]).collect()
}
fn mutate_bytes(m: &mut Vec<u8>, t: &mut Tape) {
    let n = m.len();
    match t.u() % 5 {
        0 => m.push([0u8, b'a', b'b'][t.u() % 3]),
        1 => drop(m.pop()),
        2 => m.insert(0, [0u8, b'a'][t.u() % 2]),
        3 if n > 0 => {
            let i = t.below(n);
            m[i] ^= 1 << (t.u() % 8)
        }
        4 if n > 1 => {
            let i = t.below(n - 1);
            m.swap(i, i + 1)
        }
        _ => *m = gen_bytes(t),
    }
}
impl CKey for Vec<u8> {
    fn gen(t: &mut Tape) -> Self {
        gen_bytes(t)
    }
    fn raw(&self) -> Option<Vec<u8>> {
        Some(self.clone())
    }
    fn from_raw(b: &[u8]) -> Option<Self> {
        Some(b.to_vec())
    }
}
impl CKey for String {
    fn gen(t: &mut Tape) -> Self {
        String::from_utf8_lossy(&gen_bytes(t)).into_owned()
    }
    fn raw(&self) -> Option<Vec<u8>> {
        Some(self.as_bytes().to_vec())
    }
    fn from_raw(b: &[u8]) -> Option<Self> {
        String::from_utf8(b.to_vec()).ok()
    }
}
impl CKey for u8 {
    fn gen(t: &mut Tape) -> Self {
        t.u() as u8 % 6
    }
}
impl CKey for u32 {
    fn gen(t: &mut Tape) -> Self {
        let x = t.u() as u32;
        (x % 5) << [0, 8, 16, 24][x as usize / 5 % 4]
    }
}

macro_rules! cnum {
    ($($t:ty),*) => {$(
        impl CV for $t {
            type M = $t;
            fn gen(t: &mut Tape, _: u8) -> $t {
                let x = t.u();
                let v = (x % 4) as $t;
                let k = (t.u() as u32) % <$t>::BITS;
                match x / 4 % 4 {
                    0 => v,
                    1 => v.rotate_right(k),
                    2 => (1 as $t).rotate_left(k),
                    _ => !v,
                }
            }
            fn mutate(m: &mut $t, t: &mut Tape) {
                match t.u() % 3 {
                    0 => *m = m.wrapping_add(1),
                    1 => *m ^= (1 as $t).rotate_left(t.u() as u32 % <$t>::BITS),
                    _ => *m = m.swap_bytes(),
                }
            }
            fn real(m: &$t, _: &mut Tape) -> $t {
                *m
            }
        }
    )*};
}
cnum!(u8, u16, u32, u64, u128, usize, i8, i16, i64, i128);
impl CV for bool {
    type M = bool;
    fn gen(t: &mut Tape, _: u8) -> bool {
        t.u() & 1 == 1
    }
    fn mutate(m: &mut bool, _: &mut Tape) {
        *m = !*m
    }
    fn real(m: &bool, _: &mut Tape) -> bool {
        *m
    }
}
/// By its bits.
impl CV for f64 {
    type M = u64;
    fn gen(t: &mut Tape, _: u8) -> u64 {
        [0.0f64, 1.0, -1.0, 0.5, 1e300, f64::MIN_POSITIVE, f64::INFINITY, 3.0][t.u() % 8].to_bits()
    }
    fn mutate(m: &mut u64, t: &mut Tape) {
        // stays finite, and no zero of the other sign
        *m = (f64::from_bits(*m).clamp(-1e300, 1e300) / [2.0, -3.0, 1.5][t.u() % 3] + 1.0).to_bits()
    }
    fn real(m: &u64, _: &mut Tape) -> f64 {
        f64::from_bits(*m)
    }
}
impl CV for Nat {
    type M = u128;
    fn gen(t: &mut Tape, d: u8) -> u128 {
        <u128 as CV>::gen(t, d)
    }
    fn mutate(m: &mut u128, t: &mut Tape) {
        <u128 as CV>::mutate(m, t)
    }
    fn real(m: &u128, _: &mut Tape) -> Nat {
        Nat::from(*m)
    }
}
impl CV for Vec<u8> {
    type M = Vec<u8>;
    fn gen(t: &mut Tape, _: u8) -> Vec<u8> {
        gen_bytes(t)
    }
    fn mutate(m: &mut Vec<u8>, t: &mut Tape) {
        mutate_bytes(m, t)
    }
    fn real(m: &Vec<u8>, _: &mut Tape) -> Vec<u8> {
        m.clone()
    }
    fn raw(m: &Vec<u8>) -> Option<Vec<u8>> {
        Some(m.clone())
    }
    fn from_raw(b: &[u8]) -> Option<Vec<u8>> {
        Some(b.to_vec())
    }
}
impl CV for String {
    type M = String;
    fn gen(t: &mut Tape, _: u8) -> String {
        <String as CKey>::gen(t)
    }
    fn mutate(m: &mut String, t: &mut Tape) {
        let mut b = m.as_bytes().to_vec();
        mutate_bytes(&mut b, t);
        *m = String::from_utf8_lossy(&b).into_owned();
    }
    fn real(m: &String, _: &mut Tape) -> String {
        m.clone()
    }
    fn raw(m: &String) -> Option<Vec<u8>> {
        Some(m.as_bytes().to_vec())
    }
    fn from_raw(b: &[u8]) -> Option<String> {
        String::from_utf8(b.to_vec()).ok()
    }
}
impl<V: CV> CV for Box<V> {
    type M = V::M;
    fn gen(t: &mut Tape, d: u8) -> V::M {
        V::gen(t, d)
    }
    fn mutate(m: &mut V::M, t: &mut Tape) {
        V::mutate(m, t)
    }
    fn real(m: &V::M, t: &mut Tape) -> Self {
        Box::new(V::real(m, t))
    }
    fn morph(&mut self, a: &V::M, b: &V::M, t: &mut Tape) {
        (**self).morph(a, b, t)
    }
}
impl<const N: usize> CV for [u8; N]
where
    [u8; N]: AsHashTree,
{
    type M = [u8; N];
    fn gen(t: &mut Tape, _: u8) -> Self::M {
        let mut m = [0; N];
        for x in m.iter_mut().rev().take(4) {
            *x = t.u() as u8 % 3;
        }
        m
    }
    fn mutate(m: &mut Self::M, t: &mut Tape) {
        let i = t.below(N);
        if t.u() % 2 == 0 && i > 0 {
            m.swap(i, i - 1)
        } else {
            m[i] ^= 1 << (t.u() % 8)
        }
    }
    fn real(m: &Self::M, _: &mut Tape) -> Self {
        *m
    }
}

/// A change of a list: of its items, their number, or their order.
fn mutate_list<V: CV>(m: &mut Vec<V::M>, t: &mut Tape) {
    let n = m.len();
    let i = t.below(n);
    match t.u() % 8 {
        _ if n == 0 => m.push(V::gen(t, 2)),
        0 => m.push(V::gen(t, 2)),
        1 => {
            m.remove(i);
        }
        2 => m.insert(i, V::gen(t, 2)),
        3 if n > 1 => {
            let j = t.below(n);
            m.swap(i, j)
        }
        4 => {
            let x = m[i].clone();
            m.insert(i, x)
        }
        5 if i + 1 < n => {
            // bytes move from one item to its neighbour, or two items become one
            if let (Some(mut a), Some(b)) = (V::raw(&m[i]), V::raw(&m[i + 1])) {
                let k = t.below(a.len() + 1);
                let mut b2 = a.split_off(k);
                b2.extend(b);
                if let (Some(a), Some(b)) = (V::from_raw(&a), V::from_raw(&b2)) {
                    m[i] = a;
                    m[i + 1] = b;
                    if t.u() % 3 == 0 && k == 0 {
                        m.remove(i);
                    }
                }
            }
        }
        _ => V::mutate(&mut m[i], t),
    }
}
impl<V: CV> CV for Seq<V> {
    type M = Vec<V::M>;
    fn gen(t: &mut Tape, d: u8) -> Self::M {
        let n = if d > 0 { t.len() } else { t.u() % 3 };
        (0..n).map(|_| V::gen(t, d.saturating_sub(1))).collect()
    }
    fn mutate(m: &mut Self::M, t: &mut Tape) {
        mutate_list::<V>(m, t)
    }
    fn real(m: &Self::M, t: &mut Tape) -> Self {
        match t.u() % 3 {
            0 => m.iter().map(|x| V::real(x, t)).collect(),
            1 => {
                let mut s = Seq::new();
                for x in m {
                    s.append(V::real(x, t));
                }
                s
            }
            _ => {
                let v: Vec<V> = m.iter().map(|x| V::real(x, t)).collect();
                let mut s = Seq::from(Vec::new());
                s.extend(v);
                s
            }
        }
    }
    fn morph(&mut self, a: &Self::M, b: &Self::M, t: &mut Tape) {
        if b.starts_with(a) {
            for x in &b[a.len()..] {
                self.append(V::real(x, t));
            }
        } else if t.u() % 2 == 0 {
            self.clear();
            let v: Vec<V> = b.iter().map(|x| V::real(x, t)).collect();
            self.extend(v);
        } else {
            let mut v: Vec<V> = std::mem::replace(self, Seq::new()).into();
            v.truncate(b.len());
            for (i, x) in b.iter().enumerate() {
                if i < a.len() {
                    v[i].morph(&a[i], x, t)
                } else {
                    v.push(V::real(x, t))
                }
            }
            *self = v.into();
        }
    }
}

fn gen_map<K: CKey, V: CV>(t: &mut Tape, d: u8) -> BTreeMap<K, V::M> {
    let n = if d > 0 { t.len() } else { t.u() % 3 };
    (0..n).map(|_| (K::gen(t), V::gen(t, d.saturating_sub(1)))).collect()
}
fn mutate_map<K: CKey, V: CV>(m: &mut BTreeMap<K, V::M>, t: &mut Tape) {
    let n = m.len();
    if n == 0 {
        m.insert(K::gen(t), V::gen(t, 2));
        return;
    }
    let nth = |m: &BTreeMap<K, V::M>, i: usize| m.keys().nth(i).unwrap().clone();
    let i = t.below(n);
    let k = nth(m, i);
    match t.u() % 8 {
        0 => {
            m.insert(K::gen(t), V::gen(t, 2));
        }
        1 => {
            m.remove(&k);
        }
        2 => {
            // another key
            let v = m.remove(&k).unwrap();
            m.insert(K::gen(t), v);
        }
        3 if n > 1 => {
            // values change places
            let j = nth(m, t.below(n));
            let (a, b) = (m[&k].clone(), m[&j].clone());
            m.insert(k, b);
            m.insert(j, a);
        }
        4 => {
            // the value of another key
            let j = nth(m, t.below(n));
            let v = m[&j].clone();
            m.insert(k, v);
        }
        5 => {
            // bytes move between key and value
            if let (Some(mut a), Some(b)) = (k.raw(), V::raw(&m[&k])) {
                let (a, b) = if t.u() % 2 == 0 {
                    let at = t.below(a.len() + 1);
                    let mut b2 = a.split_off(at);
                    b2.extend(b);
                    (a, b2)
                } else {
                    let at = t.below(b.len() + 1);
                    a.extend(&b[..at]);
                    (a, b[at..].to_vec())
                };
                if let (Some(a), Some(b)) = (K::from_raw(&a), V::from_raw(&b)) {
                    m.remove(&k);
                    m.insert(a, b);
                }
            }
        }
        _ => V::mutate(m.get_mut(&k).unwrap(), t),
    }
}
/// In any order, with detours.
fn insert_order<T>(m: Vec<T>, t: &mut Tape) -> Vec<T> {
    let mut v = m;
    match t.u() % 3 {
        0 => {}
        1 => v.reverse(),
        _ => {
            for i in (1..v.len()).rev() {
                let j = t.below(i + 1);
                v.swap(i, j)
            }
        }
    }
    v
}
macro_rules! maplike {
    ($c:ident, $ins:expr, $del:expr, $edit:expr) => {
        impl<K: CKey, V: CV> CV for $c<K, V> {
            type M = BTreeMap<K, V::M>;
            fn gen(t: &mut Tape, d: u8) -> Self::M {
                gen_map::<K, V>(t, d)
            }
            fn mutate(m: &mut Self::M, t: &mut Tape) {
                mutate_map::<K, V>(m, t)
            }
            fn real(m: &Self::M, t: &mut Tape) -> Self {
                let mut s: $c<K, V> = $c::new();
                let detours = t.u() % 4;
                let mut extra = vec![];
                for _ in 0..detours {
                    let k = K::gen(t);
                    if !m.contains_key(&k) {
                        $ins(&mut s, k.clone(), V::real(&V::gen(t, 1), t));
                        extra.push(k);
                    }
                }
                for (k, v) in insert_order(m.iter().collect(), t) {
                    if t.u() % 8 == 1 {
                        $ins(&mut s, k.clone(), V::real(&V::gen(t, 1), t));
                    }
                    $ins(&mut s, k.clone(), V::real(v, t));
                }
                for k in extra {
                    $del(&mut s, &k);
                }
                s
            }
            fn morph(&mut self, a: &Self::M, b: &Self::M, t: &mut Tape) {
                let first = t.u() % 2 == 0;
                let del = |s: &mut Self| {
                    for k in a.keys() {
                        if !b.contains_key(k) {
                            $del(s, k);
                        }
                    }
                };
                if first {
                    del(self)
                }
                for (k, v) in b {
                    match a.get(k) {
                        Some(w) if w == v => {}
                        Some(w) if t.u() % 3 != 0 => $edit(self, k, &mut |x: &mut V| x.morph(w, v, t)),
                        _ => $ins(self, k.clone(), V::real(v, t)),
                    }
                }
                if !first {
                    del(self)
                }
            }
        }
    };
}
maplike!(
    Map,
    |s: &mut Map<K, V>, k: K, v: V| drop(s.insert(k, v)),
    |s: &mut Map<K, V>, k: &K| drop(s.remove::<K>(k)),
    |s: &mut Map<K, V>, k: &K, f: &mut dyn FnMut(&mut V)| f(&mut *s.get_mut::<K>(k).expect("key present"))
);
maplike!(
    RbTree,
    |s: &mut RbTree<K, V>, k: K, v: V| drop(s.insert(k, v).0),
    |s: &mut RbTree<K, V>, k: &K| drop(s.delete::<K>(k)),
    |s: &mut RbTree<K, V>, k: &K, f: &mut dyn FnMut(&mut V)| s.modify::<K, _>(k, |x| f(x)).expect("key present")
);

/// The last pages of a key go to a longer key: what was the page number becomes part of the key.
fn pages_to_key<K: CKey, V: CV, const S: usize>(m: &mut BTreeMap<K, Vec<V::M>>, a: &K, t: &mut Tape) {
    let pages = (m[a].len() + S - 1) / S;
    let page = match t.u() % 4 {
        0 => pages - 1,
        1 => pages - 1 - t.below(pages.min(4)),
        2 => pages.min([256, 65536, 128][t.u() % 3]).min(pages - 1),
        _ => t.below(pages),
    };
    let n = (page as u32).to_be_bytes();
    let part = match t.u() % 6 {
        x @ 0..=3 => n[..x + 1].to_vec(),
        4 => n.iter().rev().copied().take(1 + t.u() % 4).collect(),
        _ => {
            // without leading zeros, and without the last bytes
            let v: Vec<u8> = n.iter().copied().skip_while(|x| *x == 0).collect();
            let k = t.below(v.len() + 1);
            v[..v.len() - k].to_vec()
        }
    };
    if let Some(mut b) = a.raw() {
        b.extend(part);
        if let Some(b) = K::from_raw(&b) {
            if b != *a {
                let v = m.get_mut(a).unwrap().split_off(page * S);
                m.entry(b).or_default().extend(v);
            }
        }
    }
}
/// The same with so many pages that the page number has another length.
pub struct Long<P>(P);
impl<P: AsHashTree> AsHashTree for Long<P> {
    fn root_hash(&self) -> Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
impl<K: CKey, V: CV, const S: usize> CV for Long<Paged<K, V, S>> {
    type M = BTreeMap<K, Vec<V::M>>;
    fn gen(t: &mut Tape, _: u8) -> Self::M {
        let huge = t.u() == 0xff;
        let pages = if huge { 65530 } else { [120, 250][t.u() % 2] } + t.u() % 12;
        let v = V::gen(t, 0);
        let mut m = if t.u() % 2 == 0 { BTreeMap::new() } else { <Paged<K, V, S> as CV>::gen(t, 1) };
        m.insert(K::gen(t), vec![v; pages * S]);
        m
    }
    fn mutate(m: &mut Self::M, t: &mut Tape) {
        let n = m.len();
        if t.u() % 3 == 0 || n == 0 {
            <Paged<K, V, S> as CV>::mutate(m, t)
        } else {
            let a = m.iter().max_by_key(|x| x.1.len()).unwrap().0.clone();
            let a = if t.u() % 4 == 0 { m.keys().nth(t.below(n)).unwrap().clone() } else { a };
            pages_to_key::<K, V, S>(m, &a, t);
            m.retain(|_, v| !v.is_empty());
        }
    }
    fn real(m: &Self::M, t: &mut Tape) -> Self {
        Long(<Paged<K, V, S> as CV>::real(m, t))
    }
    fn morph(&mut self, a: &Self::M, b: &Self::M, t: &mut Tape) {
        self.0.morph(a, b, t)
    }
}

/// Lists of items per key; a key without items is none.
impl<K: CKey, V: CV, const S: usize> CV for Paged<K, V, S> {
    type M = BTreeMap<K, Vec<V::M>>;
    fn gen(t: &mut Tape, d: u8) -> Self::M {
        let n = t.u() % 4;
        (0..n)
            .map(|_| {
                let k = 1 + t.len() % 40;
                (K::gen(t), (0..k).map(|_| V::gen(t, d.saturating_sub(1))).collect())
            })
            .collect()
    }
    fn mutate(m: &mut Self::M, t: &mut Tape) {
        let n = m.len();
        let key = |t: &mut Tape| m.keys().nth(t.below(n)).cloned();
        match (t.u() % 5, key(t), key(t)) {
            (4, Some(a), _) => pages_to_key::<K, V, S>(m, &a, t),
            (0, _, _) | (_, None, _) => m.entry(K::gen(t)).or_default().push(V::gen(t, 1)),
            (1, Some(a), Some(b)) => {
                // an item of one key goes to another
                if let Some(x) = m.get_mut(&a).unwrap().pop() {
                    m.get_mut(&b).unwrap().push(x)
                }
            }
            (2, Some(a), _) => {
                let v = m.remove(&a).unwrap();
                m.insert(K::gen(t), v);
            }
            (_, Some(a), _) => mutate_list::<V>(m.get_mut(&a).unwrap(), t),
        }
        m.retain(|_, v| !v.is_empty());
    }
    fn real(m: &Self::M, t: &mut Tape) -> Self {
        let mut p = Paged::new();
        let mut at: Vec<(&K, &[V::M])> = m.iter().map(|(k, v)| (k, &v[..])).collect();
        while !at.is_empty() {
            let i = t.below(at.len());
            let (k, v) = at[i];
            p.insert(k.clone(), V::real(&v[0], t));
            if v.len() == 1 {
                at.remove(i);
            } else {
                at[i].1 = &v[1..];
            }
        }
        p
    }
    fn morph(&mut self, a: &Self::M, b: &Self::M, t: &mut Tape) {
        if a.iter().all(|(k, v)| b.get(k).map(|w| w.starts_with(v)).unwrap_or(false)) {
            for (k, w) in b {
                for x in &w[a.get(k).map(|v| v.len()).unwrap_or(0)..] {
                    self.insert(k.clone(), V::real(x, t));
                }
            }
        } else {
            *self = Self::real(b, t)
        }
    }
}

pub struct LA(Map<Vec<u8>, Vec<u8>>);
pub struct LB(Seq<Vec<u8>>);
pub struct LC(Vec<u8>);
pub struct LD(Vec<u8>);
pub struct LE(Map<u8, Seq<u8>>);
macro_rules! leaf {
    ($($t:ident)*) => {$(
        impl AsHashTree for $t {
            fn root_hash(&self) -> Hash {
                self.0.root_hash()
            }
            fn as_hash_tree(&self) -> HashTree<'_> {
                self.0.as_hash_tree()
            }
        }
    )*};
}
leaf!(LA LB LC LD LE);
/// A group of a fixed layout.
pub struct G5(Group);
leaf!(G5);
type G5M = (
    <Map<Vec<u8>, Vec<u8>> as CV>::M,
    Vec<Vec<u8>>,
    Vec<u8>,
    Vec<u8>,
    <Map<u8, Seq<u8>> as CV>::M,
);
impl CV for G5 {
    type M = G5M;
    fn gen(t: &mut Tape, d: u8) -> G5M {
        (
            <Map<Vec<u8>, Vec<u8>> as CV>::gen(t, d),
            <Seq<Vec<u8>> as CV>::gen(t, d),
            gen_bytes(t),
            gen_bytes(t),
            <Map<u8, Seq<u8>> as CV>::gen(t, d),
        )
    }
    fn mutate(m: &mut G5M, t: &mut Tape) {
        match t.u() % 6 {
            0 => <Map<Vec<u8>, Vec<u8>> as CV>::mutate(&mut m.0, t),
            1 => <Seq<Vec<u8>> as CV>::mutate(&mut m.1, t),
            2 => mutate_bytes(&mut m.2, t),
            3 => mutate_bytes(&mut m.3, t),
            4 => std::mem::swap(&mut m.2, &mut m.3),
            _ => <Map<u8, Seq<u8>> as CV>::mutate(&mut m.4, t),
        }
    }
    fn real(m: &G5M, t: &mut Tape) -> G5 {
        G5(GroupBuilder::new()
            .insert(["c"], LC(m.2.clone()))
            .insert(["x", "a"], LA(CV::real(&m.0, t)))
            .insert(["x", "y", "b"], LB(CV::real(&m.1, t)))
            .insert(["d"], LD(m.3.clone()))
            .insert(["x", "y", "e"], LE(CV::real(&m.4, t)))
            .build())
    }
    fn morph(&mut self, a: &G5M, b: &G5M, t: &mut Tape) {
        let g = &mut self.0;
        if a.0 != b.0 {
            g.get_mut::<LA>().0.morph(&a.0, &b.0, t);
        }
        if a.1 != b.1 {
            g.get_mut::<LB>().0.morph(&a.1, &b.1, t);
        }
        g.get_mut::<LC>().0 = b.2.clone();
        g.get_mut::<LD>().0 = b.3.clone();
        if a.4 != b.4 {
            g.get_mut::<LE>().0.morph(&a.4, &b.4, t);
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ColCase {
    pub ty: u8,
    pub first: Vec<u8>,
    /// the contents changed, and how
    pub muts: Vec<(u8, Vec<u8>)>,
    /// histories of the builds
    pub hist: Vec<u8>,
}

fn collide<V: CV>(c: &ColCase, name: &str, st: &mut Stats) -> Res {
    let mut all = vec![V::gen(&mut Tape(&c.first, 0), 3)];
    let mut seen: HashMap<H, V::M> = HashMap::new();
    let mut put = |h: H, m: &V::M, how: &str, st: &mut Stats| -> Res {
        match seen.get(&h) {
            Some(x) if x != m => Err(format!("{}: {:?} and {:?} ({}) have the same root hash {}", name, x, m, how, hx(&h))),
            Some(_) => {
                st.class("same contents, same hash");
                Ok(())
            }
            None => {
                seen.insert(h, m.clone());
                Ok(())
            }
        }
    };
    let mut ht = Tape(&c.hist, 0);
    put(V::real(&all[0], &mut ht).root_hash(), &all[0], "built", st)?;
    for (src, tape) in &c.muts {
        let from = all[*src as usize % all.len()].clone();
        let mut m = from.clone();
        V::mutate(&mut m, &mut Tape(tape, 0));
        if m != from {
            st.class("changed contents");
        }
        put(V::real(&m, &mut ht).root_hash(), &m, "built", st)?;
        let mut v = V::real(&from, &mut ht);
        if ht.u() % 2 == 0 {
            put(v.root_hash(), &from, "built", st)?;
        }
        v.morph(&from, &m, &mut ht);
        put(v.root_hash(), &m, "changed in place", st)?;
        all.push(m);
    }
    st.class(&format!("type {}", name));
    all.sort();
    all.dedup();
    if all.len() >= 3 {
        st.mark();
    }
    Ok(())
}

macro_rules! types {
    ($c:expr, $st:expr; $($n:expr => $t:ty;)*) => {{
        let n = [$($n),*].len() as u8;
        match $c.ty % n {
            $($n => collide::<$t>($c, stringify!($t), $st),)*
            _ => unreachable!(),
        }
    }};
}

/// Types with small contents (all classes but the ones for many pages).
const SMALL: u8 = 29;
const LONG: u8 = 3;

pub struct C22;
impl Prop for C22 {
    type Case = ColCase;
    fn id(&self) -> &'static str {
        "C22"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if it compared at least 3 different contents of one type; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 160_000,
            Tier::Thorough => 10_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        match i % 160_000 {
            0..=3 => 2,
            x if x % 50 == 1 => 1,
            _ => 0,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<ColCase> {
        let tape = |n| prop::collection::vec(any::<u8>(), 0..n);
        if class > 0 {
            // many pages
            let muts = if class == 1 { 8 } else { 1 };
            return (
                SMALL..SMALL + LONG,
                tape(12),
                prop::collection::vec((any::<u8>(), prop::collection::vec(any::<u8>(), 8)), 1..=muts),
                tape(30),
            )
                .prop_map(move |(ty, mut first, muts, hist)| {
                    first.insert(0, if class == 2 { 0xff } else { 0 });
                    ColCase { ty, first, muts, hist }
                })
                .boxed();
        }
        (0..SMALL, prop_oneof![3 => tape(40), 1 => tape(300)], prop::collection::vec((any::<u8>(), tape(14)), 1..24), tape(60))
            .prop_map(|(ty, first, muts, hist)| ColCase { ty, first, muts, hist })
            .boxed()
    }
    fn check(&self, c: &ColCase, st: &mut Stats) -> Res {
        types!(c, st;
            0 => Map<Vec<u8>, Vec<u8>>;
            1 => RbTree<String, String>;
            2 => Seq<Vec<u8>>;
            3 => Seq<Seq<Vec<u8>>>;
            4 => Paged<Vec<u8>, Vec<u8>, 2>;
            5 => Paged<u8, u8, 1>;
            6 => Map<Vec<u8>, Map<Vec<u8>, Vec<u8>>>;
            7 => Map<String, Map<u8, Seq<Vec<u8>>>>;
            8 => Map<u8, Paged<Vec<u8>, Vec<u8>, 3>>;
            9 => Seq<Map<Vec<u8>, Vec<u8>>>;
            10 => G5;
            11 => Map<u8, G5>;
            12 => Map<u32, bool>;
            13 => Seq<u64>;
            14 => Map<u8, u16>;
            15 => Seq<i16>;
            16 => Map<u8, f64>;
            17 => Seq<Nat>;
            18 => RbTree<Vec<u8>, Seq<bool>>;
            19 => Map<u32, u128>;
            20 => Seq<i8>;
            21 => Map<u8, i128>;
            22 => RbTree<u32, Box<Map<u8, Vec<u8>>>>;
            23 => Seq<[u8; 32]>;
            24 => Paged<u32, u64, 7>;
            25 => RbTree<Vec<u8>, [u8; 4]>;
            26 => Seq<usize>;
            27 => Map<Vec<u8>, i64>;
            28 => Seq<String>;
            29 => Long<Paged<Vec<u8>, u8, 1>>;
            30 => Long<Paged<String, u8, 1>>;
            31 => Long<Paged<Vec<u8>, Vec<u8>, 2>>;
        )
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["SHA-256 of the sha2 crate has no collisions among the inputs met".into(), "contents of nested collections up to four levels; up to some 85 items on one level, and in Paged up to some 260 pages per key (rarely 65,540)".into()]
    }
}
