//! C27: the work done for an update or a proof, counted in hashes of values, labels and comparisons.
use crate::engine::{Prop, Res, Stats, Tier};
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Hash, HashTree, Map, Paged, Seq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::{Borrow, Cow};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeSet;

thread_local! {
    static COUNT: [Cell<u64>; 3] = [Cell::new(0), Cell::new(0), Cell::new(0)];
}
fn tick(i: usize) {
    COUNT.with(|c| c[i].set(c[i].get() + 1));
}
const WHAT: [&str; 3] = ["hashes of values", "labels", "comparisons of keys"];

/// A value that counts how often it is certified.
#[derive(Clone, Default)]
struct CV(u64);
impl AsHashTree for CV {
    fn root_hash(&self) -> Hash {
        tick(0);
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        tick(0);
        HashTree::Leaf(Cow::Owned(self.0.to_be_bytes().to_vec()))
    }
}
/// A key that counts how often its label is taken and how often it is compared.
#[derive(Clone, Debug)]
struct CK([u8; 4]);
impl PartialEq for CK {
    fn eq(&self, o: &CK) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for CK {}
impl PartialOrd for CK {
    fn partial_cmp(&self, o: &CK) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for CK {
    fn cmp(&self, o: &CK) -> Ordering {
        tick(2);
        self.0.cmp(&o.0)
    }
}
impl Label for CK {
    fn as_label(&self) -> Cow<[u8]> {
        tick(1);
        Cow::Borrowed(&self.0)
    }
}
/// The first bytes of a key.
#[derive(Debug)]
#[repr(transparent)]
struct Head([u8]);
impl Head {
    fn new(b: &[u8]) -> &Head {
        // a transparent wrapper
        unsafe { &*(b as *const [u8] as *const Head) }
    }
}
impl PartialEq for Head {
    fn eq(&self, o: &Head) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for Head {}
impl PartialOrd for Head {
    fn partial_cmp(&self, o: &Head) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Head {
    fn cmp(&self, o: &Head) -> Ordering {
        tick(2);
        self.0.cmp(&o.0)
    }
}
impl Borrow<Head> for CK {
    fn borrow(&self) -> &Head {
        Head::new(&self.0)
    }
}
impl Prefix<Head> for CK {
    fn is_prefix(&self, p: &Head) -> bool {
        tick(2);
        self.0.starts_with(&p.0)
    }
}

/// A stretch of a history.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ph {
    Asc { from: u32, n: u32, step: u32 },
    Desc { from: u32, n: u32, step: u32 },
    Mixed { n: u32, seed: u32, span: u32 },
    /// removes every `step`-th key that is present
    Thin { step: u32, skip: u32 },
    /// removes the smallest (or largest) keys
    Cut { n: u32, low: bool },
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CostCase {
    phases: Vec<Ph>,
    probes: Vec<u32>,
}

fn key(k: u32) -> CK {
    CK(k.to_be_bytes())
}

struct Meter {
    n: usize,
    worst: f64,
}
impl Meter {
    /// `extra`: entries that the operation has to look at one by one.
    fn run<T>(&mut self, what: &str, extra: usize, f: impl FnOnce() -> T) -> Result<T, String> {
        COUNT.with(|c| c.iter().for_each(|x| x.set(0)));
        let x = f();
        let got: Vec<u64> = COUNT.with(|c| c.iter().map(|x| x.get()).collect());
        let log = ((self.n + 1) as f64).log2() + 1.0;
        let bound = 40.0 * log + 12.0 * extra as f64;
        for i in 0..3 {
            self.worst = self.worst.max((got[i] as f64 - 12.0 * extra as f64) / log);
            if got[i] as f64 > bound {
                return Err(format!("{} with {} entries took {} {}, more than {:.0}", what, self.n, got[i], WHAT[i], bound));
            }
        }
        Ok(x)
    }
}

/// Map and RbTree side by side with the set of their keys.
fn run(c: &CostCase, st: &mut Stats) -> Res {
    let mut map = Map::<CK, CV>::new();
    let mut have: BTreeSet<u32> = BTreeSet::new();
    let mut mt = Meter { n: 0, worst: 0.0 };
    let mut most = 0;
    for ph in &c.phases {
        let mut add: Vec<u32> = vec![];
        let mut del: Vec<u32> = vec![];
        match *ph {
            Ph::Asc { from, n, step } => add = (0..n).map(|i| from.wrapping_add(i.wrapping_mul(step))).collect(),
            Ph::Desc { from, n, step } => add = (0..n).rev().map(|i| from.wrapping_add(i.wrapping_mul(step))).collect(),
            Ph::Mixed { n, seed, span } => {
                let mut x = seed as u64 | 1;
                for _ in 0..n {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    add.push((x >> 33) as u32 % span.max(1));
                }
            }
            Ph::Thin { step, skip } => del = have.iter().skip(skip as usize).step_by(step.max(1) as usize).cloned().collect(),
            Ph::Cut { n, low: true } => del = have.iter().take(n as usize).cloned().collect(),
            Ph::Cut { n, low: false } => del = have.iter().rev().take(n as usize).cloned().collect(),
        }
        for k in add {
            mt.n = have.len() + 1;
            mt.run("an insertion", 0, || map.insert(key(k), CV(k as u64)))?;
            have.insert(k);
        }
        for k in del {
            mt.n = have.len();
            mt.run("a removal", 0, || map.remove(&key(k)))?;
            have.remove(&k);
        }
        most = most.max(have.len());
        mt.n = have.len() + 1;
        let all: Vec<u32> = have.iter().cloned().collect();
        let at = |i: usize| all.get(i % all.len().max(1)).cloned().unwrap_or(7);
        for (j, p) in c.probes.iter().enumerate() {
            let here = at(*p as usize);
            let gone = p.wrapping_mul(2654435761);
            for k in [here, gone] {
                let q = key(k);
                mt.run("a lookup", 0, || map.get(&q).map(|v| v.0))?;
                mt.run("a witness", 0, || {
                    map.witness(&q);
                })?;
                mt.run("a nested witness", 0, || {
                    map.as_tree().nested_witness(&q, |v| v.as_hash_tree());
                })?;
                mt.run("root_hash", 0, || map.root_hash())?;
                mt.run("a change in place", 0, || {
                    if let Some(v) = map.get_mut(&q) {
                        v.0 += 1;
                    }
                })?;
                mt.run("root_hash after a change in place", 0, || map.root_hash())?;
                // a change, then a witness
                if let Some(v) = map.get_mut(&q) {
                    v.0 += 1;
                }
                mt.run("a witness after a change in place", 0, || {
                    map.witness(&q);
                })?;
                for len in 0..=4usize {
                    let b = &k.to_be_bytes()[..len];
                    let lo = {
                        let mut x = [0u8; 4];
                        x[..len].copy_from_slice(b);
                        u32::from_be_bytes(x)
                    };
                    let hi = lo | (0xffff_ffffu64 >> (8 * len)) as u32;
                    let m = have.range(lo..=hi).count();
                    if len > 0 {
                        mt.run("max_entry_with_prefix", 0, || map.as_tree().max_entry_with_prefix(Head::new(b)).map(|e| e.1 .0))?;
                    }
                    if m < 200 {
                        mt.run("a prefix witness", m, || {
                            map.witness_keys_with_prefix(Head::new(b));
                        })?;
                    }
                }
                let w = [0u32, 1, 50][j % 3];
                let hi = k.saturating_add(w);
                let m = have.range(k..=hi).count();
                let qh = key(hi);
                mt.run("a key range witness", m, || {
                    map.as_tree().key_range::<CK, CK>(&q, &qh);
                })?;
                mt.run("a value range witness", m, || {
                    map.as_tree().value_range::<CK, CK>(&q, &qh);
                })?;
            }
            // (each of these leaves the keys as they were)
            let q = here;
            if !have.is_empty() {
                mt.run("a replacement", 0, || map.insert(key(q), CV(3)))?;
                mt.run("an entry", 0, || map.entry(key(q)).or_default().0)?;
                mt.run("a removal", 0, || map.remove(&key(q)))?;
                mt.run("a removal of an absent key", 0, || map.remove(&key(q)))?;
                mt.run("an entry", 0, || map.entry(key(q)).or_insert(CV(5)).0)?;
                // everything an entry can do
                mt.run("remove of an entry", 0, || {
                    if let Entry::Occupied(e) = map.entry(key(q)) {
                        e.remove();
                    }
                })?;
                mt.run("insert of a vacant entry", 0, || {
                    if let Entry::Vacant(e) = map.entry(key(q)) {
                        e.insert(CV(6));
                    }
                })?;
                mt.run("remove_entry of an entry", 0, || {
                    if let Entry::Occupied(e) = map.entry(key(q)) {
                        e.remove_entry();
                    }
                })?;
                mt.run("or_insert_with_key", 0, || map.entry(key(q)).or_insert_with_key(|_| CV(7)).0)?;
                mt.run("remove_entry", 0, || map.remove_entry(&key(q)).map(|e| e.1 .0))?;
                mt.run("or_insert_with", 0, || map.entry(key(q)).or_insert_with(|| CV(8)).0)?;
                mt.run("and_modify", 0, || {
                    map.entry(key(q)).and_modify(|v| v.0 += 1);
                })?;
                mt.run("reading and changing an entry", 0, || match map.entry(key(q)) {
                    Entry::Occupied(mut e) => {
                        let n = e.get().0 + e.key().0[0] as u64;
                        e.get_mut().0 = n;
                        e.into_mut().0
                    }
                    Entry::Vacant(e) => e.into_key().0[0] as u64,
                })?;
                mt.run("len and is_empty", 0, || (map.len(), map.is_empty()))?;
                let mut it = map.iter();
                mt.run("starting an iteration", 0, || it.next().map(|e| e.1 .0))?;
                mt.run("a step of an iteration", 0, || it.next().map(|e| e.1 .0))?;
            }
        }
        st.class(match have.len() {
            0..=50 => "up to 50 entries",
            51..=500 => "51-500 entries",
            501..=2000 => "501-2000 entries",
            _ => "over 2000 entries",
        });
    }
    // the same for sequences, maps of sequences and pages
    let n = most.min(1200);
    let mut s = Seq::<CV>::new();
    let mut d = Map::<CK, Seq<CV>>::new();
    let mut p = Paged::<CK, CV, 3>::new();
    let mut t = RbTree::<CK, CV>::new();
    for i in 0..n {
        mt.n = 1;
        mt.run("an append", 0, || s.append(CV(i as u64)))?;
        mt.run("the root hash of a Seq", 0, || s.root_hash())?;
        mt.n = i + 1;
        let k = at_key(c, i);
        mt.run("append_deep", 0, || d.append_deep(key(k), CV(1)))?;
        mt.run("an insertion into a Paged", 0, || p.insert(key(k), CV(2)))?;
        mt.run("an insertion into a tree", 0, || t.insert(key(k), CV(1)).1 .0 += 1)?;
        if i % 16 == 0 {
            mt.run("deleting from a tree", 0, || t.delete(&key(k)).is_some())?;
            mt.run("an insertion into a tree", 0, || t.insert(key(k), CV(1)).0.is_some())?;
            mt.run("modify", 0, || t.modify(&key(k), |v| v.0 += 1).is_some())?;
            mt.run("get_with", 0, || t.get_with(|x| x.cmp(&key(k))).is_some())?;
            mt.run("modify_max_with_prefix", 0, || t.modify_max_with_prefix(Head::new(&k.to_be_bytes()[..1 + i % 4]), |_, v| v.0 += 1).is_some())?;
            mt.run("root_hash of a tree", 0, || t.root_hash())?;
            mt.run("len_deep", 0, || d.len_deep(&key(k)))?;
            mt.run("root_hash of a map of sequences", 0, || d.root_hash())?;
            mt.run("get_last_page_number", 0, || p.get_last_page_number(&key(k)))?;
            mt.run("root_hash of a Paged", 0, || p.root_hash())?;
            mt.run("a Paged witness", 0, || {
                p.witness(&key(k), i / 3);
            })?;
            mt.run("a last page witness", 0, || {
                p.witness_last_page_number(&key(k));
            })?;
            mt.run("get of a page", 0, || p.get(&key(k), i / 3).map(|s| s.len()))?;
        }
    }
    mt.n = 1;
    mt.run("extending a Seq", 50, || s.extend((0..50).map(CV)))?;
    mt.run("making a Seq of a vector", 50, || Seq::from((0..50).map(CV).collect::<Vec<_>>()))?;
    if most > 500 {
        st.mark();
    }
    st.class(&format!("worst count / (log2 n + 1): {}", (mt.worst / 10.0) as u64 * 10));
    Ok(())
}
fn at_key(c: &CostCase, i: usize) -> u32 {
    let p = c.probes[i % c.probes.len()];
    match c.probes[0] % 3 {
        0 => i as u32,
        1 => p.wrapping_add(i as u32 / 7),
        _ => p % 5,
    }
}

fn phase(size: u32) -> BoxedStrategy<Ph> {
    let f = prop_oneof![Just(0u32), 0u32..10_000];
    prop_oneof![
        2 => (f.clone(), 1..size, 1u32..300).prop_map(|(from, n, step)| Ph::Asc { from, n, step }),
        2 => (f, 1..size, 1u32..300).prop_map(|(from, n, step)| Ph::Desc { from, n, step }),
        3 => (1..size, any::<u32>(), 1..size * 8).prop_map(|(n, seed, span)| Ph::Mixed { n, seed, span }),
        2 => (1u32..5, 0u32..3).prop_map(|(step, skip)| Ph::Thin { step, skip }),
        1 => (1..size, any::<bool>()).prop_map(|(n, low)| Ph::Cut { n, low }),
    ]
    .boxed()
}

pub struct C27;
impl Prop for C27 {
    type Case = CostCase;
    fn id(&self) -> &'static str {
        "C27"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if its map held more than 500 entries at some point; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 1_200,
            Tier::Thorough => 40_000,
        }
    }
    fn class_of(&self, i: u64, t: Tier) -> usize {
        match t {
            _ if i % 100 == 99 => 2,
            Tier::Thorough if i % 1000 == 998 => 3,
            _ if i % 3 == 0 => 1,
            _ => 0,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<CostCase> {
        let size = [60, 1500, 8000, 60_000][class];
        (
            prop::collection::vec(phase(size), 1..if class >= 2 { 4 } else { 6 }),
            prop::collection::vec(0u32..100_000, 2..6),
        )
            .prop_map(|(phases, probes)| CostCase { phases, probes })
            .boxed()
    }
    fn check(&self, c: &CostCase, st: &mut Stats) -> Res {
        run(c, st)
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["the bound is 40 * (log2(n + 1) + 1) value hashes, labels or key comparisons for one operation, plus 12 for each entry that a range or prefix witness shows; the unchanged code stays below a quarter of it".into()]
    }
}
