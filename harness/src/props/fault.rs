//! C24: panics injected into closures and iterators given to the collections.
use super::own::{leak_check, ov_bytes, reg_error, reg_live, reg_reset, Tok, OK, OV};
use super::vals::chain;
use crate::alloc;
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, Group, GroupBuilder, Hash, HashTree, Map, Seq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Debug;
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

/// The injected panic. (Does not go through the panic hook.)
struct Injected;
fn boom() -> ! {
    resume_unwind(Box::new(Injected))
}
/// Runs `f`; true if the injected panic came out of it. Another panic is passed on.
fn injected(f: impl FnOnce()) -> bool {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(()) => false,
        Err(e) if e.is::<Injected>() => true,
        Err(e) => resume_unwind(e),
    }
}

// ------------------------------------------------------------------ values

/// A value with a plain model.
trait FV: AsHashTree + Sized + 'static {
    type M: Clone + Default + Debug + PartialEq;
    fn make(v: u32) -> (Self, Self::M);
    /// A small change of both. `fault`: its own closure or iterator panics if it has one.
    fn step(&mut self, m: &mut Self::M, e: u32, fault: bool);
    /// The certified form, checked against the model.
    fn tree(&self, m: &Self::M) -> Result<T, String>;
    fn tokens(&self, out: &mut BTreeSet<u64>) -> Res;
}
fn tok_in(out: &mut BTreeSet<u64>, t: &Tok) -> Res {
    ensure!(out.insert(t.touch()), "a key or value is stored twice");
    Ok(())
}
impl FV for OV {
    type M = Vec<u8>;
    fn make(v: u32) -> (Self, Vec<u8>) {
        (OV::new(v), ov_bytes(v))
    }
    fn step(&mut self, m: &mut Vec<u8>, e: u32, fault: bool) {
        if e % 3 == 0 {
            *self = OV::new(e)
        } else {
            self.set(e)
        }
        *m = ov_bytes(e);
        if fault {
            boom()
        }
    }
    fn tree(&self, m: &Vec<u8>) -> Result<T, String> {
        self.tok.touch();
        ensure!(self.x == *m, "a value is {}, expected {}", hx(&self.x), hx(m));
        Ok(T::Leaf(m.clone()))
    }
    fn tokens(&self, out: &mut BTreeSet<u64>) -> Res {
        tok_in(out, &self.tok)
    }
}

/// An iterator that panics when it is asked for item number `at`.
struct Bomb<I> {
    it: I,
    at: Option<usize>,
    /// lower bound given as size hint
    hint: usize,
}
impl<I: Iterator> Iterator for Bomb<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        match self.at {
            Some(0) => boom(),
            Some(n) => self.at = Some(n - 1),
            None => {}
        }
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hint, None)
    }
}

/// A sequence after an interrupted extension: its old items and some of the first new ones.
fn settle(s: &Seq<OV>, m: &mut Vec<Vec<u8>>, new: &[Vec<u8>], panicked: bool) {
    if panicked {
        let k = s.len().saturating_sub(m.len()).min(new.len());
        m.extend_from_slice(&new[..k]);
    } else {
        m.extend_from_slice(new);
    }
}
impl FV for Seq<OV> {
    type M = Vec<Vec<u8>>;
    fn make(v: u32) -> (Self, Self::M) {
        let n = v % 5;
        ((0..n).map(|i| OV::new(v ^ i)).collect(), (0..n).map(|i| ov_bytes(v ^ i)).collect())
    }
    fn step(&mut self, m: &mut Self::M, e: u32, fault: bool) {
        if fault || e % 4 == 1 {
            let n = e / 4 % 6;
            let at = if fault { Some((e / 24 % (n + 1)) as usize) } else { None };
            let new: Vec<Vec<u8>> = (0..n).map(|i| ov_bytes(e ^ i)).collect();
            let new = &new[..at.unwrap_or(n as usize)];
            let p = injected(|| self.extend(Bomb { it: (0..n).map(|i| OV::new(e ^ i)), at, hint: [0, n as usize, 1][e as usize % 3].min(n as usize) }));
            settle(self, m, new, p);
            if fault {
                boom()
            }
            return;
        }
        match e % 4 {
            0 if e % 3 == 0 => {
                self.clear();
                m.clear();
            }
            _ => {
                self.append(OV::new(e));
                m.push(ov_bytes(e));
            }
        }
    }
    fn tree(&self, m: &Self::M) -> Result<T, String> {
        ensure!(self.len() == m.len() && self.iter().len() == m.len(), "a Seq has {} items, expected {}", self.len(), m.len());
        let mut hs = vec![];
        for (i, (x, w)) in self.iter().zip(m).enumerate() {
            hs.push(x.tree(w)?.hash());
            ensure!(std::ptr::eq(&self[i], x), "indexing differs from iteration");
        }
        let h = chain(hs.into_iter());
        let t = T::from_ht(&self.as_hash_tree());
        ensure!(self.root_hash() == h && t == T::Pruned(h), "a Seq of {} items has root hash {} and tree {:?}, the chain over its items is {}", m.len(), hx(&self.root_hash()), t, hx(&h));
        Ok(t)
    }
    fn tokens(&self, out: &mut BTreeSet<u64>) -> Res {
        for x in self.iter() {
            tok_in(out, &x.tok)?;
        }
        Ok(())
    }
}

/// Map or RbTree.
trait Dict<V: FV>: AsHashTree {
    fn empty() -> Self;
    fn t(&self) -> &RbTree<OK, V>;
    fn put(&mut self, k: OK, v: V) -> bool;
    fn del(&mut self, k: u16) -> bool;
    fn ent(&mut self, k: OK) -> Entry<'_, OK, V>;
    /// modify, or get_mut and a change
    fn modify_(&mut self, k: u16, f: &mut dyn FnMut(&mut V)) -> bool;
    fn modmax(&mut self, p: &[u8], f: &mut dyn FnMut(u16, &mut V)) -> bool;
    fn collect_(it: &mut dyn Iterator<Item = (OK, V)>) -> Self;
}
impl<V: FV> Dict<V> for Map<OK, V> {
    fn empty() -> Self {
        Map::new()
    }
    fn t(&self) -> &RbTree<OK, V> {
        self.as_tree()
    }
    fn put(&mut self, k: OK, v: V) -> bool {
        self.insert(k, v).is_some()
    }
    fn del(&mut self, k: u16) -> bool {
        self.remove::<u16>(&k).is_some()
    }
    fn ent(&mut self, k: OK) -> Entry<'_, OK, V> {
        self.entry(k)
    }
    fn modify_(&mut self, k: u16, f: &mut dyn FnMut(&mut V)) -> bool {
        match self.get_mut::<u16>(&k) {
            Some(v) => {
                f(v);
                true
            }
            None => false,
        }
    }
    fn modmax(&mut self, _: &[u8], _: &mut dyn FnMut(u16, &mut V)) -> bool {
        false
    }
    fn collect_(it: &mut dyn Iterator<Item = (OK, V)>) -> Self {
        it.collect()
    }
}
impl<V: FV> Dict<V> for RbTree<OK, V> {
    fn empty() -> Self {
        RbTree::new()
    }
    fn t(&self) -> &RbTree<OK, V> {
        self
    }
    fn put(&mut self, k: OK, v: V) -> bool {
        self.insert(k, v).0.is_some()
    }
    fn del(&mut self, k: u16) -> bool {
        self.delete::<u16>(&k).is_some()
    }
    fn ent(&mut self, k: OK) -> Entry<'_, OK, V> {
        self.entry(k)
    }
    fn modify_(&mut self, k: u16, f: &mut dyn FnMut(&mut V)) -> bool {
        self.modify::<u16, _>(&k, |v| f(v)).is_some()
    }
    fn modmax(&mut self, p: &[u8], f: &mut dyn FnMut(u16, &mut V)) -> bool {
        self.modify_max_with_prefix::<[u8], _>(p, |k, v| f(k.n, v)).is_some()
    }
    fn collect_(it: &mut dyn Iterator<Item = (OK, V)>) -> Self {
        let mut t = RbTree::new();
        for (k, v) in it {
            t.insert(k, v);
        }
        t
    }
}
type DM<V> = BTreeMap<u16, <V as FV>::M>;

fn dict_entries<V: FV>(t: &RbTree<OK, V>, m: &DM<V>) -> Result<Vec<(Vec<u8>, T)>, String> {
    ensure!(t.len() == m.len() && t.is_empty() == m.is_empty(), "len() is {}, expected {}", t.len(), m.len());
    let mut v = vec![];
    for (k, x) in RbTreeIterator::new(t) {
        k.tok.touch();
        let w = m.get(&k.n).ok_or_else(|| format!("key {} should not be there", k.n))?;
        v.push((k.n.to_be_bytes().to_vec(), x.tree(w)?));
    }
    ensure!(v.len() == m.len(), "iteration shows {} of {} entries", v.len(), m.len());
    ensure!(v.iter().zip(m).all(|(a, b)| a.0 == b.0.to_be_bytes()), "keys are out of order");
    for (k, w) in m {
        t.get::<u16>(k).ok_or_else(|| format!("key {} is not found", k))?.tree(w)?;
    }
    Ok(v)
}
/// Contents, hash and witnesses.
fn dict_check<V: FV>(t: &RbTree<OK, V>, m: &DM<V>, probes: &[u16]) -> Result<T, String> {
    let e = dict_entries(t, m)?;
    let root = t.root_hash();
    let full = T::from_ht(&t.as_hash_tree());
    if m.is_empty() {
        ensure!(full == T::Empty && root == h_empty(), "an empty collection certifies {:?}", full);
    } else {
        super::vals::full_tree(&full, root, &e)?;
    }
    let mut keys: Vec<u16> = probes.to_vec();
    keys.extend(m.keys().step_by(1 + m.len() / 6));
    for k in &keys {
        let l = k.to_be_bytes();
        let w = T::from_ht(&t.witness::<u16>(k));
        ensure!(w.hash() == root, "the witness of key {} has hash {}, the root hash is {}", k, hx(&w.hash()), hx(&root));
        let want = match e.iter().find(|x| x.0 == l) {
            Some(x) => Look::Found(&x.1),
            None => Look::Absent,
        };
        ensure!(lookup(&w, &[&l]) == want, "the witness of key {} shows {:?}, expected {:?}", k, lookup(&w, &[&l]), want);
        let (a, b) = (OK::new(*k), OK::new(k.saturating_add(3)));
        for (n, w) in [
            ("key list", t.keys()),
            ("key range", t.key_range::<OK, OK>(&a, &b)),
            ("value range", t.value_range::<OK, OK>(&a, &b)),
            ("prefix", t.keys_with_prefix::<[u8]>(&l[..1])),
            ("nested", t.nested_witness::<u16>(k, |v| v.as_hash_tree())),
        ] {
            ensure!(T::from_ht(&w).hash() == root, "the {} witness at key {} does not match the root hash", n, k);
        }
    }
    Ok(full)
}
fn dict_tokens<V: FV>(t: &RbTree<OK, V>, out: &mut BTreeSet<u64>) -> Res {
    for (k, v) in RbTreeIterator::new(t) {
        tok_in(out, &k.tok)?;
        v.tokens(out)?;
    }
    Ok(())
}

impl FV for Map<OK, OV> {
    type M = BTreeMap<u16, Vec<u8>>;
    fn make(v: u32) -> (Self, Self::M) {
        let ks: Vec<(u16, u32)> = (0..v % 5).map(|i| ((v.wrapping_mul(i + 7) % 6) as u16, v ^ i)).collect();
        (ks.iter().map(|(k, v)| (OK::new(*k), OV::new(*v))).collect(), ks.iter().map(|(k, v)| (*k, ov_bytes(*v))).collect())
    }
    fn step(&mut self, m: &mut Self::M, e: u32, fault: bool) {
        let k = (e / 5 % 6) as u16;
        let v = e / 30;
        if fault {
            match e % 5 {
                0 | 1 => {
                    self.ent(OK::new(k)).and_modify(|x| {
                        let m = m.get_mut(&k).unwrap();
                        x.step(m, v, true)
                    });
                }
                2 => {
                    self.ent(OK::new(k)).or_insert_with(|| boom());
                }
                3 => {
                    self.as_tree().nested_witness::<u16>(&k, |_| boom());
                }
                _ => {
                    if let Some(x) = self.get_mut::<u16>(&k) {
                        x.step(m.get_mut(&k).unwrap(), v, true)
                    }
                }
            }
            boom()
        }
        match e % 5 {
            0 => {
                self.remove::<u16>(&k);
                m.remove(&k);
            }
            1 => {
                if let Some(x) = self.get_mut::<u16>(&k) {
                    x.step(m.get_mut(&k).unwrap(), v, false)
                }
            }
            2 if v % 7 == 0 => {
                self.clear();
                m.clear();
            }
            _ => {
                self.insert(OK::new(k), OV::new(v));
                m.insert(k, ov_bytes(v));
            }
        }
    }
    fn tree(&self, m: &Self::M) -> Result<T, String> {
        dict_check(self.as_tree(), m, &[])
    }
    fn tokens(&self, out: &mut BTreeSet<u64>) -> Res {
        dict_tokens(self.as_tree(), out)
    }
}

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Act {
    /// which call
    pub how: u8,
    pub k: u16,
    pub v: u32,
    /// changes made by the closure, or items given by the iterator
    pub steps: Vec<u32>,
    /// None: no panic. Else it comes after that many steps or items.
    pub panic: Option<u8>,
    /// the panic comes out of a call made on the value by the closure
    pub inner: bool,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    /// 0..: OV, Map, Seq values; Seq alone; Group
    pub kind: u8,
    pub tree: bool,
    pub fill: Vec<(u16, u32)>,
    pub acts: Vec<Act>,
    pub probes: Vec<u16>,
}

/// The changes a closure makes, up to the panic.
fn play<V: FV>(x: &mut V, m: &mut V::M, a: &Act) {
    for (i, e) in a.steps.iter().enumerate() {
        if a.panic.map(|p| p as usize == i) == Some(true) {
            if a.inner {
                x.step(m, *e, true)
            }
            boom()
        }
        x.step(m, *e, false);
    }
    if a.panic.is_some() {
        boom()
    }
}
fn audit(want: BTreeSet<u64>) -> Res {
    reg_error()?;
    let live = reg_live();
    ensure!(live == want, "{} keys or values are neither stored nor dropped, {} stored ones were dropped", live.difference(&want).count(), want.difference(&live).count());
    Ok(())
}

fn dict_act<V: FV, D: Dict<V>>(d: &mut D, m: &mut DM<V>, a: &Act) -> Result<bool, String> {
    let k = a.k;
    let mut err: Res = Ok(());
    let p = injected(|| match a.how % 12 {
        0 | 1 => {
            let f = d.modify_(k, &mut |x| play(x, m.get_mut(&k).expect("an absent key was modified"), a));
            if f != m.contains_key(&k) {
                err = Err(format!("modify found key {}: {}", k, f));
            }
        }
        2 => {
            let p = k.to_be_bytes();
            let p = &p[..(a.v % 3) as usize];
            d.modmax(p, &mut |k, x| play(x, m.get_mut(&k).expect("an absent key was modified"), a));
        }
        3 | 4 => {
            let e = d.ent(OK::new(k)).and_modify(|x| play(x, m.get_mut(&k).expect("an absent key was modified"), a));
            if a.how % 2 == 0 {
                let (x, w) = V::make(a.v);
                e.or_insert(x);
                m.entry(k).or_insert(w);
            }
        }
        5 => {
            let had = m.contains_key(&k);
            d.ent(OK::new(k)).or_insert_with(|| {
                let (mut x, mut w) = V::make(a.v);
                play(&mut x, &mut w, a);
                m.insert(k, w);
                x
            });
            if had {
                // not called
            }
        }
        6 => {
            d.ent(OK::new(k)).or_insert_with_key(|k2| {
                k2.tok.touch();
                let (mut x, mut w) = V::make(a.v);
                play(&mut x, &mut w, a);
                m.insert(k, w);
                x
            });
        }
        7 => {
            d.t().nested_witness::<u16>(&k, |v| {
                if a.panic.is_some() {
                    boom()
                }
                v.as_hash_tree()
            });
        }
        8 => {
            // a new collection from an iterator; the old one goes only when that succeeds
            let mut w = DM::<V>::new();
            let mut it = Bomb {
                it: a.steps.iter().map(|s| {
                    let (x, y) = V::make(*s);
                    let k = (s % 13) as u16;
                    w.insert(k, y);
                    (OK::new(k), x)
                }),
                at: a.panic.map(|x| (x as usize).min(a.steps.len())),
                hint: 0,
            };
            *d = D::collect_(&mut it);
            drop(it);
            *m = w;
        }
        9 => {
            let had = d.del(k);
            if had != m.remove(&k).is_some() {
                err = Err(format!("removal of key {}: {}", k, had));
            }
        }
        10 => {
            // an entry and its reference are held when the caller panics
            if let Entry::Occupied(mut o) = d.ent(OK::new(k)) {
                play(o.get_mut(), m.get_mut(&k).expect("an absent key is occupied"), a);
                play(o.into_mut(), m.get_mut(&k).unwrap(), a);
            }
        }
        _ => {
            let (x, w) = V::make(a.v);
            let had = d.put(OK::new(k), x);
            if had != m.insert(k, w).is_some() {
                err = Err(format!("insertion of key {} replaced: {}", k, had));
            }
        }
    });
    err?;
    Ok(p)
}

fn run_dict<V: FV, D: Dict<V>>(c: &FaultCase, st: &mut Option<&mut Stats>) -> Res {
    let mut d = D::empty();
    let mut m = DM::<V>::new();
    for (k, v) in &c.fill {
        let (x, w) = V::make(*v);
        d.put(OK::new(*k), x);
        m.insert(*k, w);
    }
    let mut panicked = 0;
    for (i, a) in c.acts.iter().enumerate() {
        let p = dict_act(&mut d, &mut m, a).map_err(|e| format!("step {} {:?}: {}", i, a, e))?;
        if p {
            panicked += 1;
            if let Some(st) = st {
                st.class(["in modify / get_mut", "in modify / get_mut", "in modify_max_with_prefix", "in and_modify", "in and_modify", "in or_insert_with", "in or_insert_with_key", "in nested_witness", "in collect", "?", "with an entry held", "?"][a.how as usize % 12]);
            }
        }
        // sometimes the next change comes before anything has been looked at
        if a.v % 3 != 0 || i + 1 == c.acts.len() {
            dict_check(d.t(), &m, &c.probes).map_err(|e| format!("after step {} {:?}, which panicked: {}: {}", i, a, p, e))?;
        }
        let mut want = BTreeSet::new();
        dict_tokens(d.t(), &mut want)?;
        audit(want).map_err(|e| format!("after step {} {:?}, which panicked: {}: {}", i, a, p, e))?;
    }
    drop(d);
    audit(BTreeSet::new()).map_err(|e| format!("at the end: {}", e))?;
    if let Some(st) = st {
        if panicked > 0 && m.len() >= 3 {
            st.mark();
        }
    }
    Ok(())
}

fn run_seq(c: &FaultCase, st: &mut Option<&mut Stats>) -> Res {
    let mut s: Seq<OV> = c.fill.iter().map(|(_, v)| OV::new(*v)).collect();
    let mut m: Vec<Vec<u8>> = c.fill.iter().map(|(_, v)| ov_bytes(*v)).collect();
    let mut panicked = 0;
    for (i, a) in c.acts.iter().enumerate() {
        let at = a.panic.map(|x| (x as usize).min(a.steps.len()));
        let new: Vec<Vec<u8>> = a.steps.iter().map(|v| ov_bytes(*v)).collect();
        let n = a.steps.len();
        let mut it = Bomb { it: a.steps.iter().map(|v| OV::new(*v)), at, hint: [0, n / 2, n][a.v as usize % 3] };
        let p = match a.how % 6 {
            0..=2 => {
                let p = injected(|| s.extend(it));
                settle(&s, &mut m, &new[..at.unwrap_or(n)], p);
                p
            }
            3 => {
                let p = injected(|| s = it.collect());
                if !p {
                    m = new.clone();
                }
                p
            }
            4 => {
                // through a reference to the iterator
                let p = injected(|| s.extend(it.by_ref()));
                settle(&s, &mut m, &new[..at.unwrap_or(n)], p);
                p
            }
            _ => {
                s.step(&mut m, a.v, false);
                false
            }
        };
        ensure!(p == (at.is_some() && a.how % 6 != 5), "the panic came through: {}", p);
        if p {
            panicked += 1;
            if let Some(st) = st {
                st.class(if a.how % 6 == 3 { "in Seq collect" } else { "in Seq::extend" });
            }
        }
        s.tree(&m).map_err(|e| format!("after step {} {:?}, which panicked: {}: {}", i, a, p, e))?;
        let mut want = BTreeSet::new();
        s.tokens(&mut want)?;
        audit(want).map_err(|e| format!("after step {} {:?}, which panicked: {}: {}", i, a, p, e))?;
    }
    drop(s);
    audit(BTreeSet::new()).map_err(|e| format!("at the end: {}", e))?;
    if let Some(st) = st {
        if panicked > 0 && m.len() >= 3 {
            st.mark();
        }
    }
    Ok(())
}

struct FA(OV);
struct FB(Map<OK, OV>);
struct FC(Seq<OV>);
macro_rules! leaf {
    ($($t:ident)*) => {$(
        impl AsHashTree for $t {
            fn root_hash(&self) -> Hash {
                self.0.root_hash()
            }
            fn as_hash_tree(&self) -> HashTree<'_> {
                self.0.as_hash_tree()
            }
        }
    )*};
}
leaf!(FA FB FC);

fn group_check(g: &Group, m: &(Vec<u8>, BTreeMap<u16, Vec<u8>>, Vec<Vec<u8>>)) -> Result<T, String> {
    let root = g.root_hash();
    let t = T::from_ht(&g.as_hash_tree());
    ensure!(t.hash() == root, "root_hash is {}, the hash of the tree {}", hx(&root), hx(&t.hash()));
    let (a, b, c) = (g.get::<FA>().0.tree(&m.0)?, g.get::<FB>().0.tree(&m.1)?, g.get::<FC>().0.tree(&m.2)?);
    for (p, w) in [(vec![&b"a"[..]], &a), (vec![b"d", b"b"], &b), (vec![b"d", b"c"], &c)] {
        ensure!(lookup(&t, &p) == Look::Found(w), "the tree shows {:?}, expected {:?}", lookup(&t, &p), w);
    }
    for w in [
        g.witness().build(),
        g.witness().full::<FA>().build(),
        g.witness().full::<FB>().partial(|x: &FC| x.as_hash_tree()).build(),
        g.witness().full::<FC>().build(),
        g.witness().partial(|x: &FB| x.0.witness_keys()).build(),
    ] {
        ensure!(T::from_ht(&w).hash() == root, "a witness does not match the root hash");
    }
    Ok(t)
}
fn run_group(c: &FaultCase, st: &mut Option<&mut Stats>) -> Res {
    let v = c.fill.first().map(|x| x.1).unwrap_or(5);
    let ((a, ma), (b, mb), (s, ms)) = (OV::make(v), Map::<OK, OV>::make(v / 3), Seq::<OV>::make(v / 7));
    let mut g = GroupBuilder::new().insert(["a"], FA(a)).insert(["d", "b"], FB(b)).insert(["d", "c"], FC(s)).build();
    let mut m = (ma, mb, ms);
    let mut panicked = 0;
    for (i, a) in c.acts.iter().enumerate() {
        let p = match a.how % 6 {
            0 => {
                let r = g.witness();
                injected(|| drop(r.partial(|x: &FB| if a.panic.is_some() { boom() } else { x.as_hash_tree() }).build()))
            }
            1 => {
                let r = g.witness().full::<FA>().full::<FC>();
                injected(|| drop(r.partial(|x: &FC| if a.panic.is_some() { boom() } else { x.as_hash_tree() }).build()))
            }
            2 => injected(|| drop(g.witness().partial(|x: &FB| x.0.as_tree().nested_witness::<u16>(&a.k, |y| if a.panic.is_some() { boom() } else { y.as_hash_tree() })).full::<FA>().build())),
            3 => injected(|| play(&mut g.get_mut::<FA>().0, &mut m.0, a)),
            4 => injected(|| play(&mut g.get_mut::<FB>().0, &mut m.1, a)),
            _ => injected(|| play(&mut g.get_mut::<FC>().0, &mut m.2, a)),
        };
        if p {
            panicked += 1;
            if let Some(st) = st {
                st.class(if a.how % 6 < 3 { "in Group partial" } else { "in a change of a Group leaf" });
            }
        }
        let e = |e| format!("after step {} {:?}, which panicked: {}: {}", i, a, p, e);
        group_check(&g, &m).map_err(e)?;
        let mut want = BTreeSet::new();
        g.get::<FA>().0.tokens(&mut want)?;
        g.get::<FB>().0.tokens(&mut want)?;
        g.get::<FC>().0.tokens(&mut want)?;
        audit(want).map_err(e)?;
    }
    drop(g);
    audit(BTreeSet::new()).map_err(|e| format!("at the end: {}", e))?;
    if let Some(st) = st {
        if panicked > 0 {
            st.mark();
        }
    }
    Ok(())
}

fn one(c: &FaultCase, mut st: Option<&mut Stats>) -> Res {
    reg_reset();
    let st = &mut st;
    match (c.kind % 5, c.tree) {
        (0, false) => run_dict::<OV, Map<OK, OV>>(c, st),
        (0, true) => run_dict::<OV, RbTree<OK, OV>>(c, st),
        (1, false) => run_dict::<Map<OK, OV>, Map<OK, Map<OK, OV>>>(c, st),
        (1, true) => run_dict::<Map<OK, OV>, RbTree<OK, Map<OK, OV>>>(c, st),
        (2, false) => run_dict::<Seq<OV>, Map<OK, Seq<OV>>>(c, st),
        (2, true) => run_dict::<Seq<OV>, RbTree<OK, Seq<OV>>>(c, st),
        (3, _) => run_seq(c, st),
        _ => run_group(c, st),
    }
}

pub struct C24;
impl Prop for C24 {
    type Case = FaultCase;
    fn id(&self) -> &'static str {
        "C24"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if at least one injected panic was raised and caught and the collection ended with at least 3 entries or items (for a Group: any); duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 25_000,
            Tier::Thorough => 5_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        (i % 25 == 24) as usize
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<FaultCase> {
        let (n, fill) = if class == 0 { (13u16, 0..16usize) } else { (400, 40..200) };
        // keys in one or two bytes, so that prefixes differ
        let key = move || (0..n).prop_map(|k| if k % 3 == 0 { k * 97 } else { k });
        let act = (any::<u8>(), key(), 0u32..6000, prop::collection::vec(0u32..6000, 0..6), proptest::option::weighted(0.7, 0u8..6), any::<bool>())
            .prop_map(|(how, k, v, steps, panic, inner)| Act { how, k, v, steps, panic, inner });
        (0u8..7, any::<bool>(), prop::collection::vec((key(), 0u32..6000), fill), prop::collection::vec(act, 1..14), prop::collection::vec(key(), 1..5))
            .prop_map(|(kind, tree, fill, acts, probes)| FaultCase { kind, tree, fill, acts, probes })
            .boxed()
    }
    fn check(&self, c: &FaultCase, st: &mut Stats) -> Res {
        st.class(["Map/RbTree of plain values", "Map/RbTree of Maps", "Map/RbTree of Seqs", "Seq", "Group"][c.kind as usize % 5]);
        alloc::guard(true);
        let r = guarded(|| one(c, Some(st))).and_then(|_| leak_check(|| one(c, None)));
        alloc::guard(false);
        reg_reset();
        r
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "panics come out of the closures and iterators named in the property, not out of Ord, Label or AsHashTree implementations".into(),
            "after a panic in the iterator given to Seq::extend, any number of the items it had yielded may have been appended".into(),
        ]
    }
}
