//! C11, C12: hash trees as such.
use super::sut::{bulk, op, pool_raw, make, MapCase, Op};
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use certified_vars::hashtree::{fork, fork_hash, labeled, labeled_hash, leaf_hash};
use certified_vars::HashTree;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

/// A serialisable plan of a tree; byte strings are given by length and fill.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum P {
    E,
    F(Box<P>, Box<P>),
    L(B, Box<P>),
    V(B),
    H(u64),
    /// n labels on top of each other
    Chain(u32, Box<P>),
    /// n forks leaning left or right
    Comb(u32, bool, Box<P>),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum B {
    Raw(Vec<u8>),
    Long(u32, u8),
}
impl B {
    pub fn get(&self) -> Vec<u8> {
        match self {
            B::Raw(v) => v.clone(),
            B::Long(n, b) => (0..*n).map(|i| b.wrapping_add((i % 251) as u8)).collect(),
        }
    }
}
pub fn byts() -> BoxedStrategy<B> {
    prop_oneof![
        12 => prop::collection::vec(any::<u8>(), 0..6).prop_map(B::Raw),
        3 => prop::collection::vec(any::<u8>(), 20..40).prop_map(B::Raw),
        1 => (prop::sample::select(vec![22u32, 23, 24, 25, 31, 32, 33, 55, 56, 63, 64, 65, 119, 120, 254, 255, 256, 257, 1000]), any::<u8>()).prop_map(|(n, b)| B::Long(n, b)),
    ]
    .boxed()
}
fn hash_of(x: u64) -> H {
    // never equal to a hash that a tree here produces
    sha(&[b"some hash", &x.to_le_bytes()])
}
impl P {
    pub fn t(&self) -> T {
        match self {
            P::E => T::Empty,
            P::F(a, b) => T::Fork(Box::new(a.t()), Box::new(b.t())),
            P::L(l, t) => T::Lab(l.get(), Box::new(t.t())),
            P::V(v) => T::Leaf(v.get()),
            P::H(x) => T::Pruned(hash_of(*x)),
            P::Chain(n, t) => (0..*n).fold(t.t(), |t, i| T::Lab(i.to_be_bytes()[3 - (i % 4) as usize..].to_vec(), Box::new(t))),
            P::Comb(n, left, t) => (0..*n).fold(t.t(), |t, i| {
                let x = Box::new(if i % 3 == 0 { T::Leaf(vec![i as u8]) } else { T::Lab(vec![i as u8], Box::new(T::Empty)) });
                if *left {
                    T::Fork(Box::new(t), x)
                } else {
                    T::Fork(x, Box::new(t))
                }
            }),
        }
    }
}
pub fn plan(class: usize) -> BoxedStrategy<P> {
    if class == 4 {
        // very deep trees
        let n = || prop_oneof![4 => 30u32..300, 3 => (250u32..262), 2 => 300u32..5000, 1 => 5000u32..20_000, 1 => 65_530u32..65_545];
        return (plan(0), prop::collection::vec((n(), any::<Option<bool>>()), 1..3), plan(0), any::<u8>())
            .prop_map(|(p, levels, other, how)| {
                let t = levels.into_iter().fold(p, |p, (n, how)| match how {
                    None => P::Chain(n, Box::new(p)),
                    Some(left) => P::Comb(n, left, Box::new(p)),
                });
                match how % 3 {
                    0 => t,
                    1 => P::F(Box::new(t), Box::new(other)),
                    _ => P::F(Box::new(other), Box::new(t)),
                }
            })
            .boxed();
    }
    let leaf = if class == 2 {
        let big = (prop::sample::select(vec![255u32, 256, 65535, 65536, 65537, 100_000]), any::<u8>()).prop_map(|(n, b)| B::Long(n, b));
        prop_oneof![
            1 => Just(P::E),
            3 => big.clone().prop_map(P::V),
            2 => (big, byts()).prop_map(|(b, v)| P::L(b, Box::new(P::V(v)))),
            1 => any::<u64>().prop_map(P::H)
        ]
        .boxed()
    } else {
        prop_oneof![1 => Just(P::E), 4 => byts().prop_map(P::V), 2 => any::<u64>().prop_map(P::H)].boxed()
    };
    let (d, s) = match class {
        0 => (5, 24),
        1 => (9, 200),
        _ => (3, 6),
    };
    leaf.prop_recursive(d, s, 2, move |i| {
        prop_oneof![
            8 => (i.clone(), i.clone()).prop_map(|(a, b)| P::F(Box::new(a), Box::new(b))),
            6 => (byts(), i.clone()).prop_map(|(l, t)| P::L(l, Box::new(t))),
            1 => (1u32..30, i.clone()).prop_map(|(n, t)| P::Chain(n, Box::new(t))),
            1 => (1u32..30, any::<bool>(), i).prop_map(|(n, l, t)| P::Comb(n, l, Box::new(t))),
        ]
    })
    .boxed()
}

/// Replaces the nodes picked by `pick` (in preorder) using `f`.
fn map_nodes(t: &T, n: &mut u64, f: &mut dyn FnMut(u64, &T) -> Option<T>) -> T {
    let i = *n;
    *n += 1;
    if let Some(x) = f(i, t) {
        return x;
    }
    match t {
        T::Fork(a, b) => {
            let a = map_nodes(a, n, f);
            T::Fork(Box::new(a), Box::new(map_nodes(b, n, f)))
        }
        T::Lab(l, t) => T::Lab(l.clone(), Box::new(map_nodes(t, n, f))),
        t => t.clone(),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HCase {
    pub plan: P,
    /// nodes to prune, by preorder number modulo the size
    pub prune: Vec<u32>,
    /// node to change and how
    pub change: Vec<(u32, u8, u8)>,
}

pub struct C11;
impl Prop for C11 {
    type Case = HCase;
    fn id(&self) -> &'static str {
        "C11"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if the tree has at least 3 nodes and at least one change to it was compared; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 150_000,
            Tier::Thorough => 8_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        match i % 40 {
            0..=4 => 1,
            5 => 2,
            6 if i % 800 == 6 => 4,
            _ => 0,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<HCase> {
        (plan(class), prop::collection::vec(any::<u32>(), 0..5), prop::collection::vec((any::<u32>(), any::<u8>(), any::<u8>()), 1..4))
            .prop_map(|(plan, prune, change)| HCase { plan, prune, change })
            .boxed()
    }
    fn check(&self, c: &HCase, st: &mut Stats) -> Res {
        let t = c.plan.t();
        let want = t.hash();
        let ht = t.to_ht();
        ensure!(ht.reconstruct() == want, "reconstruct() is {}, the specification says {}: {:?}", hx(&ht.reconstruct()), hx(&want), t);
        ensure!(t.to_ht_owned().reconstruct() == want, "reconstruct() of the owned form differs: {:?}", t);
        // the public hash functions
        match &t {
            T::Fork(a, b) => {
                ensure!(fork_hash(&a.hash(), &b.hash()) == want, "fork_hash differs");
                ensure!(fork(a.to_ht(), b.to_ht()).reconstruct() == want, "fork() differs");
            }
            T::Lab(l, x) => {
                ensure!(labeled_hash(l, &x.hash()) == want, "labeled_hash differs");
                ensure!(labeled(l, x.to_ht()).reconstruct() == want, "labeled() differs");
            }
            T::Leaf(v) => ensure!(leaf_hash(v) == want, "leaf_hash differs"),
            _ => {}
        }
        let size = t.size() as u64;
        let d = t.depth();
        if d >= 200 {
            st.class(if d < 5000 { "200-4999 levels" } else { "5000 levels and more" });
        }
        // pruning changes nothing
        let ids: Vec<u64> = c.prune.iter().map(|x| *x as u64 % size).collect();
        let p = map_nodes(&t, &mut 0, &mut |i, x| ids.contains(&i).then(|| T::Pruned(x.hash())));
        ensure!(p.to_ht().reconstruct() == want, "pruning nodes {:?} of {:?} changes the hash", ids, t);
        // any other change does
        for (n, how, x) in &c.change {
            let n = *n as u64 % size;
            let mut done = "";
            let q = map_nodes(&t, &mut 0, &mut |i, y| {
                if i != n {
                    return None;
                }
                let edit = |b: &[u8]| {
                    let mut b = b.to_vec();
                    match how % 4 {
                        0 => b.push(*x),
                        1 if !b.is_empty() => {
                            b.pop();
                        }
                        2 if !b.is_empty() => {
                            b.remove(0);
                        }
                        _ if !b.is_empty() => {
                            let k = *x as usize % b.len();
                            b[k] ^= 1 << (*x % 8);
                        }
                        _ => b.push(0),
                    }
                    b
                };
                Some(match y {
                    T::Leaf(v) => {
                        done = "leaf changed";
                        T::Leaf(edit(v))
                    }
                    T::Lab(l, s) => {
                        done = "label changed";
                        T::Lab(edit(l), s.clone())
                    }
                    T::Fork(a, b) if a != b && a.hash() != b.hash() => {
                        done = "fork swapped";
                        T::Fork(b.clone(), a.clone())
                    }
                    T::Pruned(h) => {
                        done = "hash changed";
                        let mut h = *h;
                        h[*x as usize % 32] ^= 1 << (how % 8);
                        T::Pruned(h)
                    }
                    T::Empty => {
                        done = "empty replaced by empty leaf";
                        T::Leaf(vec![])
                    }
                    y => y.clone(),
                })
            });
            if done.is_empty() {
                continue;
            }
            st.class(done);
            if size >= 3 {
                st.mark();
            }
            let got = q.to_ht().reconstruct();
            ensure!(got != want, "{} at node {} but the hash stays {}: {:?} / {:?}", done, n, hx(&want), t, q);
            ensure!(got == q.hash(), "reconstruct() is {}, the specification says {}: {:?}", hx(&got), hx(&q.hash()), q);
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["SHA-256 of the sha2 crate".into()]
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum ECase {
    Tree(P),
    /// all witnesses of a small map
    Map(MapCase),
}

fn check_cbor(t: &T, ht: &HashTree<'_>) -> Res {
    let got = serde_cbor::to_vec(ht).map_err(|e| format!("CBOR encoding fails: {} for {:?}", e, t))?;
    let want = t.cbor();
    ensure!(got == want, "CBOR encoding is {}, the specification says {}: {:?}", hx(&got), hx(&want), t);
    let back = T::from_cbor(&got)?;
    ensure!(back == *t, "decoding the CBOR gives {:?} instead of {:?}", back, t);
    let mut v = Vec::new();
    serde_cbor::to_writer(&mut v, ht).map_err(|e| e.to_string())?;
    ensure!(v == want, "CBOR written to a writer differs");
    super::short_output("a hash tree as CBOR", got.len(), |w| serde_cbor::to_writer(w, ht).is_ok())?;
    // the general decoder (which has a limit of 128 levels) accepts it too, with the same structure
    if t.depth() > 100 {
        return Ok(());
    }
    let val: serde_cbor::Value = serde_cbor::from_slice(&got).map_err(|e| format!("not valid CBOR: {}", e))?;
    ensure!(from_value(&val)? == *t, "the decoded CBOR value is another tree");
    Ok(())
}
fn from_value(v: &serde_cbor::Value) -> Result<T, String> {
    use serde_cbor::Value::*;
    let a = match v {
        Array(a) => a,
        v => return Err(format!("not an array: {:?}", v)),
    };
    let by = |v: &serde_cbor::Value| match v {
        Bytes(b) => Ok(b.clone()),
        v => Err(format!("not a byte string: {:?}", v)),
    };
    match &a[..] {
        [Integer(0)] => Ok(T::Empty),
        [Integer(1), x, y] => Ok(T::Fork(Box::new(from_value(x)?), Box::new(from_value(y)?))),
        [Integer(2), l, x] => Ok(T::Lab(by(l)?, Box::new(from_value(x)?))),
        [Integer(3), x] => Ok(T::Leaf(by(x)?)),
        [Integer(4), x] => Ok(T::Pruned(by(x)?.try_into().map_err(|_| "bad hash length")?)),
        v => Err(format!("bad node {:?}", v)),
    }
}

fn check_lists(t: &T, ht: &HashTree<'_>) -> Res {
    let (mut l, mut v) = (vec![], vec![]);
    t.labels(&mut l);
    t.leaves(&mut v);
    let gl = ht.get_labels();
    ensure!(gl.len() == l.len() && gl.iter().zip(&l).all(|(a, b)| *a == &b[..]), "get_labels() of {:?} is {:?}", t, gl.iter().map(|x| hx(x)).collect::<Vec<_>>());
    let gv = ht.get_leaf_values();
    ensure!(gv.len() == v.len() && gv.iter().zip(&v).all(|(a, b)| *a == &b[..]), "get_leaf_values() of {:?} is {:?}", t, gv.iter().map(|x| hx(x)).collect::<Vec<_>>());
    Ok(())
}

pub struct C12;
impl Prop for C12 {
    type Case = ECase;
    fn id(&self) -> &'static str {
        "C12"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if its tree has at least 3 nodes, or it took witnesses of a map with at least 2 entries; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 120_000,
            Tier::Thorough => 6_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        match i % 40 {
            0..=4 => 1,
            5 => 2,
            6..=9 => 3,
            10 if i % 800 == 10 => 4,
            _ => 0,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<ECase> {
        if class == 3 {
            let ops = prop::collection::vec(prop_oneof![6 => op(40), 1 => bulk(20)], 1..20);
            return (0..super::sut::NCOMBO, any::<bool>(), pool_raw(8), ops, prop::collection::vec(0u32..48, 4..8))
                .prop_map(|(combo, tree, pool, ops, probes)| ECase::Map(MapCase { combo, tree, pool, ops, probes }))
                .boxed();
        }
        plan(class).prop_map(ECase::Tree).boxed()
    }
    fn check(&self, c: &ECase, st: &mut Stats) -> Res {
        match c {
            ECase::Tree(p) => {
                let t = p.t();
                if t.size() >= 3 {
                    st.mark();
                }
                st.class(match t.size() {
                    1 => "1 node",
                    2..=9 => "2-9 nodes",
                    10..=99 => "10-99 nodes",
                    _ => "100 nodes and more",
                });
                let d = t.depth();
                if d >= 200 {
                    st.class(if d < 5000 { "200-4999 levels" } else { "5000 levels and more" });
                }
                check_cbor(&t, &t.to_ht())?;
                check_cbor(&t, &t.to_ht_owned())?;
                let ht = t.to_ht();
                // the listings borrow the tree for its own lifetime
                check_lists(&t, &ht)
            }
            ECase::Map(m) => {
                let mut s = make(m.combo, m.tree, m.pool.clone());
                for o in &m.ops {
                    if !matches!(o, Op::Codec(_)) {
                        s.apply(o)?;
                    }
                }
                if s.n() >= 2 {
                    st.mark();
                }
                let mut ws = vec![s.tree(), s.w_keys()];
                for p in &m.probes {
                    ws.push(s.w_key(*p));
                    ws.push(s.w_nested(*p).0);
                    ws.extend(s.w_prefix(*p));
                    if s.key_cmp(*p, m.probes[0]) != std::cmp::Ordering::Less {
                        ws.push(s.w_range(m.probes[0], *p, false));
                        ws.push(s.w_range(m.probes[0], *p, true));
                    }
                }
                st.class_n("witnesses of maps", ws.len() as u64);
                for t in ws {
                    let ht = t.to_ht();
                    check_cbor(&t, &ht)?;
                    check_lists(&t, &t.to_ht())?;
                }
                Ok(())
            }
        }
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the CBOR form of the Internet Computer interface specification as transcribed in spec.rs; serde_cbor writes what serde asks of it".into()]
    }
}
