//! C10: ownership. Keys and values carry tokens kept in a registry, on a checking allocator.
//! (The instrumented types are used by C24 as well.)
use super::sut::Order;
use crate::alloc;
use crate::engine::*;
use crate::ensure;
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::entry::Entry;
use certified_vars::rbtree::RbTree;
use certified_vars::{AsHashTree, HashTree, Map, Seq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::borrow::{Borrow, Cow};
use std::cell::RefCell;
use std::cmp::Ordering;
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ tokens

#[derive(Default)]
struct Reg {
    next: u64,
    live: BTreeSet<u64>,
    error: Option<String>,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}
const SALT: u64 = 0x5EED_CA4A_417B_0C57;

fn report(m: String) {
    REG.with(|r| {
        let mut r = r.borrow_mut();
        if r.error.is_none() {
            r.error = Some(m)
        }
    })
}

/// An owned token: created once, dropped once, readable in between.
#[derive(Debug)]
pub struct Tok {
    id: u64,
    canary: u64,
}
impl Tok {
    pub fn new() -> Tok {
        REG.with(|r| {
            let mut r = r.borrow_mut();
            r.next += 1;
            let id = r.next;
            r.live.insert(id);
            Tok { id, canary: id ^ SALT }
        })
    }
    /// Reads the token; a read after drop or of garbage is recorded.
    pub fn touch(&self) -> u64 {
        if self.canary != self.id ^ SALT {
            report(format!("a key or value was read from released or foreign memory ({:x})", self.id));
        } else if !REG.with(|r| r.borrow().live.contains(&self.id)) {
            report(format!("token {} was read after it was dropped", self.id));
        }
        self.id
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        if self.canary != self.id ^ SALT {
            report(format!("dropped a key or value in released or foreign memory ({:x})", self.id));
            return;
        }
        if !REG.with(|r| r.borrow_mut().live.remove(&self.id)) {
            report(format!("token {} was dropped twice", self.id));
        }
    }
}

pub fn reg_reset() {
    REG.with(|r| *r.borrow_mut() = Reg { next: 0, live: BTreeSet::new(), error: None });
}
pub fn reg_error() -> Res {
    match REG.with(|r| r.borrow().error.clone()) {
        Some(e) => Err(e),
        None => Ok(()),
    }
}
pub fn reg_live() -> BTreeSet<u64> {
    REG.with(|r| r.borrow().live.clone())
}
pub fn reg_count() -> usize {
    REG.with(|r| r.borrow().live.len())
}

/// An instrumented key: the number in two bytes, and heap memory of its own.
#[derive(Debug)]
pub struct OK {
    pub n: u16,
    lab: Box<[u8; 2]>,
    pub tok: Tok,
}
impl OK {
    pub fn new(n: u16) -> OK {
        OK { n, lab: Box::new(n.to_be_bytes()), tok: Tok::new() }
    }
}
/// Only there because the derived `Default` of Map asks for it.
impl Default for OK {
    fn default() -> OK {
        OK::new(0)
    }
}
impl PartialEq for OK {
    fn eq(&self, o: &OK) -> bool {
        self.cmp(o) == Ordering::Equal
    }
}
impl Eq for OK {}
impl PartialOrd for OK {
    fn partial_cmp(&self, o: &OK) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for OK {
    fn cmp(&self, o: &OK) -> Ordering {
        self.tok.touch();
        o.tok.touch();
        self.lab.cmp(&o.lab)
    }
}
impl Label for OK {
    fn as_label(&self) -> Cow<[u8]> {
        self.tok.touch();
        Cow::Borrowed(&self.lab[..])
    }
}
impl Borrow<u16> for OK {
    fn borrow(&self) -> &u16 {
        self.tok.touch();
        &self.n
    }
}
impl Borrow<[u8]> for OK {
    fn borrow(&self) -> &[u8] {
        self.tok.touch();
        &self.lab[..]
    }
}
impl Prefix<[u8]> for OK {
    fn is_prefix(&self, p: &[u8]) -> bool {
        self.tok.touch();
        self.lab.starts_with(p)
    }
}

/// A key of the map under test: instrumented, or plain (nothing to drop).
pub trait Key: Ord + Label + Borrow<u16> + Prefix<[u8]> + Default + 'static {
    fn new(n: u16) -> Self;
    fn n(&self) -> u16;
    /// Its token, if it has one.
    fn tok(&self) -> Option<u64>;
}
impl Key for OK {
    fn new(n: u16) -> OK {
        OK::new(n)
    }
    fn n(&self) -> u16 {
        self.n
    }
    fn tok(&self) -> Option<u64> {
        Some(self.tok.touch())
    }
}

/// A key that owns nothing.
#[derive(Debug, Default, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub struct PK {
    n: u16,
    lab: [u8; 2],
}
impl Label for PK {
    fn as_label(&self) -> Cow<[u8]> {
        Cow::Borrowed(&self.lab[..])
    }
}
impl Borrow<u16> for PK {
    fn borrow(&self) -> &u16 {
        &self.n
    }
}
impl Borrow<[u8]> for PK {
    fn borrow(&self) -> &[u8] {
        &self.lab[..]
    }
}
impl Prefix<[u8]> for PK {
    fn is_prefix(&self, p: &[u8]) -> bool {
        self.lab.starts_with(p)
    }
}
impl Key for PK {
    fn new(n: u16) -> PK {
        PK { n, lab: n.to_be_bytes() }
    }
    fn n(&self) -> u16 {
        assert!(self.lab == self.n.to_be_bytes(), "a plain key was read from released or foreign memory");
        self.n
    }
    fn tok(&self) -> Option<u64> {
        self.n();
        None
    }
}

/// A value that owns nothing, with a strict alignment.
#[derive(Debug, Clone, Copy)]
#[repr(align(64))]
pub struct PV {
    b: [u8; 4],
    salt: u32,
}
impl PV {
    fn x(&self) -> u32 {
        let x = u32::from_be_bytes(self.b);
        assert!(self.salt == x ^ SALT as u32, "a plain value was read from released or foreign memory");
        assert!(self as *const PV as usize % 64 == 0, "a value is stored at a misaligned address");
        x
    }
}
impl Default for PV {
    fn default() -> PV {
        Val::make(0)
    }
}
impl AsHashTree for PV {
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.x();
        HashTree::Leaf(Cow::Borrowed(&self.b[..]))
    }
}

/// A value without a size.
#[derive(Debug, Clone, Copy, Default)]
pub struct ZV;
impl AsHashTree for ZV {
    fn as_hash_tree(&self) -> HashTree<'_> {
        HashTree::Leaf(Cow::Borrowed(b"unit"))
    }
}

/// An instrumented value.
#[derive(Debug)]
pub struct OV {
    pub x: Vec<u8>,
    pub tok: Tok,
}
impl OV {
    pub fn new(v: u32) -> OV {
        OV { x: v.to_be_bytes()[(v % 4) as usize..].to_vec(), tok: Tok::new() }
    }
    pub fn set(&mut self, v: u32) {
        self.tok.touch();
        self.x = v.to_be_bytes()[(v % 4) as usize..].to_vec();
    }
}
pub fn ov_bytes(v: u32) -> Vec<u8> {
    v.to_be_bytes()[(v % 4) as usize..].to_vec()
}
impl Default for OV {
    fn default() -> OV {
        OV::new(0)
    }
}
impl AsHashTree for OV {
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.tok.touch();
        HashTree::Leaf(Cow::Borrowed(&self.x))
    }
}

// ------------------------------------------------------------------ values of the map under test

/// Plain, nested and sequence values, each made of tokens.
pub trait Val: AsHashTree + Default + 'static {
    /// Whether `toks` gives registered tokens.
    const TOKENS: bool = true;
    fn make(v: u32) -> Self;
    fn change(&mut self, e: u32);
    /// The tokens inside, in order.
    fn toks(&self, out: &mut Vec<u64>);
}
impl Val for OV {
    fn make(v: u32) -> OV {
        OV::new(v)
    }
    fn change(&mut self, e: u32) {
        if e % 3 == 0 {
            *self = OV::new(e)
        } else {
            self.set(e)
        }
    }
    fn toks(&self, out: &mut Vec<u64>) {
        out.push(self.tok.touch())
    }
}
/// Plain values have no tokens; what they hold stands in for them.
impl Val for PV {
    const TOKENS: bool = false;
    fn make(v: u32) -> PV {
        PV { b: v.to_be_bytes(), salt: v ^ SALT as u32 }
    }
    fn change(&mut self, e: u32) {
        *self = PV::make(self.x().rotate_left(5) ^ e)
    }
    fn toks(&self, out: &mut Vec<u64>) {
        out.push(self.x() as u64)
    }
}
impl Val for ZV {
    const TOKENS: bool = false;
    fn make(_: u32) -> ZV {
        ZV
    }
    fn change(&mut self, _: u32) {}
    fn toks(&self, _: &mut Vec<u64>) {}
}
impl Val for Map<OK, OV> {
    fn make(v: u32) -> Self {
        (0..v % 5).map(|i| (OK::new((v.wrapping_mul(i + 7) % 6) as u16), OV::new(v ^ i))).collect()
    }
    fn change(&mut self, e: u32) {
        let k = (e / 5 % 6) as u16;
        match e % 5 {
            0 => drop(self.remove::<u16>(&k)),
            1 => {
                if let Some(v) = self.get_mut::<u16>(&k) {
                    v.change(e)
                }
            }
            2 if e % 4 == 0 => self.clear(),
            2 => self.entry(OK::new(k)).or_default().change(e),
            _ => drop(self.insert(OK::new(k), OV::new(e))),
        }
    }
    fn toks(&self, out: &mut Vec<u64>) {
        for (k, v) in self.iter() {
            out.push(k.tok.touch());
            out.push(v.tok.touch());
        }
    }
}
impl Val for Seq<OV> {
    fn make(v: u32) -> Self {
        (0..v % 5).map(|i| OV::new(v ^ i)).collect()
    }
    fn change(&mut self, e: u32) {
        match e % 4 {
            0 => self.clear(),
            1 => self.extend((0..e % 5).map(OV::new)),
            _ => self.append(OV::new(e)),
        }
    }
    fn toks(&self, out: &mut Vec<u64>) {
        for v in self.iter() {
            out.push(v.tok.touch());
        }
    }
}

// ------------------------------------------------------------------ case

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Do {
    Insert(u16, u32),
    /// insert and keep what comes back for a while
    InsertHold(u16, u32),
    InsRef(u16, u32, u32),
    Remove(u16),
    RemoveHold(u16),
    Change(u16, u32),
    /// swap the value through the mutable reference with a fresh one, keep the old one
    Replace(u16, u32),
    /// swap the values of two keys through the tree
    ModMax(u8, u32),
    OrInsert(u16, u32),
    OrInsertWith(u16, u32),
    OrInsertWithKey(u16, u32),
    OrDefault(u16),
    AndModify(u16, u32, bool),
    EntryDrop(u16),
    IntoKey(u16),
    VacInsert(u16, u32),
    OccGetMut(u16, u32),
    OccIntoMut(u16, u32),
    OccRemove(u16, bool),
    Clear,
    Drop,
    /// dropped by an unwinding panic
    Unwind,
    Take,
    SwapContainers,
    CloneByHand(Order),
    /// collect from pairs with duplicates
    Collect(Vec<(u16, u32)>),
    Iter(u16),
    Reads(u16),
    Append(u16, u32),
    ReleaseHeld,
    Fill(u16, u16, Order),
    Drain(u16, u16, Order),
}

fn doit(n: u16) -> BoxedStrategy<Do> {
    let k = move || 0..n;
    let v = || 0u32..4000;
    let ord = || prop_oneof![Just(Order::Asc), Just(Order::Desc), any::<u32>().prop_map(Order::Shuffle), Just(Order::Evens)];
    prop_oneof![
        16 => (k(), v()).prop_map(|(k, v)| Do::Insert(k, v)),
        5 => (k(), v()).prop_map(|(k, v)| Do::InsertHold(k, v)),
        3 => (k(), v(), v()).prop_map(|(k, v, e)| Do::InsRef(k, v, e)),
        12 => k().prop_map(Do::Remove),
        5 => k().prop_map(Do::RemoveHold),
        6 => (k(), v()).prop_map(|(k, v)| Do::Change(k, v)),
        3 => (k(), v()).prop_map(|(k, v)| Do::Replace(k, v)),
        2 => (any::<u8>(), v()).prop_map(|(k, v)| Do::ModMax(k, v)),
        3 => (k(), v()).prop_map(|(k, v)| Do::OrInsert(k, v)),
        3 => (k(), v()).prop_map(|(k, v)| Do::OrInsertWith(k, v)),
        2 => (k(), v()).prop_map(|(k, v)| Do::OrInsertWithKey(k, v)),
        2 => k().prop_map(Do::OrDefault),
        3 => (k(), v(), any::<bool>()).prop_map(|(k, v, b)| Do::AndModify(k, v, b)),
        2 => k().prop_map(Do::EntryDrop),
        2 => k().prop_map(Do::IntoKey),
        2 => (k(), v()).prop_map(|(k, v)| Do::VacInsert(k, v)),
        2 => (k(), v()).prop_map(|(k, v)| Do::OccGetMut(k, v)),
        2 => (k(), v()).prop_map(|(k, v)| Do::OccIntoMut(k, v)),
        4 => (k(), any::<bool>()).prop_map(|(k, b)| Do::OccRemove(k, b)),
        1 => Just(Do::Clear),
        1 => Just(Do::Drop),
        1 => Just(Do::Take),
        1 => Just(Do::Unwind),
        1 => Just(Do::SwapContainers),
        1 => ord().prop_map(Do::CloneByHand),
        1 => prop::collection::vec((k(), v()), 0..20).prop_map(Do::Collect),
        2 => k().prop_map(Do::Iter),
        2 => k().prop_map(Do::Reads),
        3 => (k(), v()).prop_map(|(k, v)| Do::Append(k, v)),
        2 => Just(Do::ReleaseHeld),
        1 => (k(), 1..=n, ord()).prop_map(|(a, n, o)| Do::Fill(a, n, o)),
        1 => (k(), 1..=n, ord()).prop_map(|(a, n, o)| Do::Drain(a, n, o)),
    ]
    .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct OwnCase {
    /// index into KINDS
    pub val: u8,
    pub tree: bool,
    pub ops: Vec<Do>,
}

enum C<K: Key, V: Val> {
    M(Map<K, V>),
    T(RbTree<K, V>),
}
impl<K: Key, V: Val> C<K, V> {
    fn new(tree: bool) -> Self {
        if tree {
            C::T(RbTree::new())
        } else {
            C::M(Map::new())
        }
    }
    fn t(&self) -> &RbTree<K, V> {
        match self {
            C::M(m) => m.as_tree(),
            C::T(t) => t,
        }
    }
    fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self {
            C::M(m) => m.insert(k, v),
            C::T(t) => t.insert(k, v).0,
        }
    }
    fn remove(&mut self, k: u16) -> Option<(Option<K>, V)> {
        match self {
            C::M(m) if k % 2 == 0 => m.remove::<u16>(&k).map(|v| (None, v)),
            C::M(m) => m.remove_entry::<u16>(&k).map(|(k, v)| (Some(k), v)),
            C::T(t) => t.delete::<u16>(&k).map(|(k, v)| (Some(k), v)),
        }
    }
    fn with(&mut self, k: u16, f: impl FnOnce(&mut V)) -> bool {
        match self {
            C::M(m) => m.get_mut::<u16>(&k).map(f).is_some(),
            C::T(t) => t.modify::<u16, _>(&k, f).is_some(),
        }
    }
    fn entry(&mut self, k: K) -> Entry<'_, K, V> {
        match self {
            C::M(m) => m.entry(k),
            C::T(t) => t.entry(k),
        }
    }
}

struct Env<K: Key, V: Val> {
    a: C<K, V>,
    b: C<K, V>,
    tree: bool,
    /// keys of a and b, each with the tokens of its value
    ma: BTreeMap<u16, Vec<u64>>,
    mb: BTreeMap<u16, Vec<u64>>,
    held: Vec<(Option<K>, V)>,
}

fn toks<V: Val>(v: &V) -> Vec<u64> {
    let mut t = vec![];
    v.toks(&mut t);
    t
}

impl<K: Key, V: Val> Env<K, V> {
    fn new(tree: bool) -> Self {
        Env { a: C::new(tree), b: C::new(tree), tree, ma: BTreeMap::new(), mb: BTreeMap::new(), held: vec![] }
    }

    fn back(got: &V, want: Option<Vec<u64>>, what: &str) -> Res {
        let t = toks(got);
        ensure!(want.as_ref() == Some(&t), "{} handed back tokens {:?}, expected {:?}", what, t, want);
        Ok(())
    }

    fn step(&mut self, o: &Do) -> Res {
        let Env { a, ma, .. } = self;
        match o {
            Do::Insert(k, v) | Do::InsertHold(k, v) => {
                let v = V::make(*v);
                let t = toks(&v);
                let old = ma.insert(*k, t);
                match (a.insert(K::new(*k), v), old) {
                    (None, None) => {}
                    (Some(g), w @ Some(_)) => {
                        Self::back(&g, w, "insert")?;
                        if let Do::InsertHold(..) = o {
                            self.held.push((None, g));
                        }
                    }
                    (g, w) => return Err(format!("insert handed back a value: {}, expected: {}", g.is_some(), w.is_some())),
                }
            }
            Do::InsRef(k, v, e) => {
                let v = V::make(*v);
                let t = toks(&v);
                let old = ma.insert(*k, t.clone());
                let (g, r) = match a {
                    C::T(x) => x.insert(K::new(*k), v),
                    C::M(x) => {
                        let g = x.insert(K::new(*k), v);
                        (g, x.get_mut::<u16>(k).ok_or("a key just inserted is missing")?)
                    }
                };
                ensure!(toks(r) == t, "the reference from insert is to another value");
                r.change(*e);
                ma.insert(*k, toks(r));
                ensure!(g.is_some() == old.is_some(), "insert handed back a value: {}", g.is_some());
                if let Some(g) = g {
                    Self::back(&g, old, "insert")?;
                }
            }
            Do::Remove(k) | Do::RemoveHold(k) => match (a.remove(*k), ma.remove(k)) {
                (None, None) => {}
                (Some((gk, g)), w @ Some(_)) => {
                    Self::back(&g, w, "remove")?;
                    if let Some(gk) = &gk {
                        ensure!(gk.n() == *k, "remove_entry handed back another key");
                        gk.tok();
                    }
                    if let Do::RemoveHold(_) = o {
                        self.held.push((gk, g));
                    }
                }
                (g, _) => return Err(format!("remove of key {} gave a value: {}", k, g.is_some())),
            },
            Do::Change(k, e) => {
                let mut now = None;
                let found = a.with(*k, |v| {
                    v.change(*e);
                    now = Some(toks(v));
                });
                ensure!(found == ma.contains_key(k), "lookup of key {} for a change: {}", k, found);
                if let Some(n) = now {
                    ma.insert(*k, n);
                }
            }
            Do::Replace(k, v) => {
                let mut out = None;
                let new = V::make(*v);
                let t = toks(&new);
                a.with(*k, |r| out = Some(std::mem::replace(r, new)));
                if let Some(old) = out {
                    Self::back(&old, ma.insert(*k, t), "replace")?;
                    self.held.push((None, old));
                } else {
                    ensure!(!ma.contains_key(k), "key {} is missing", k);
                }
            }
            Do::ModMax(p, e) => {
                if let C::T(t) = a {
                    let p = [*p % 3];
                    let p = &p[..(*e % 2) as usize];
                    let mut now = None;
                    t.modify_max_with_prefix::<[u8], _>(p, |k, v| {
                        v.change(*e);
                        now = Some((k.n(), toks(v)));
                    });
                    if let Some((k, n)) = now {
                        ensure!(ma.insert(k, n).is_some(), "modify_max_with_prefix passed an unknown key");
                    }
                }
            }
            Do::OrInsert(k, v) | Do::OrInsertWith(k, v) | Do::OrInsertWithKey(k, v) | Do::VacInsert(k, v) => {
                let e = a.entry(K::new(*k));
                let r = match o {
                    Do::OrInsert(..) => e.or_insert(V::make(*v)),
                    Do::OrInsertWith(..) => e.or_insert_with(|| V::make(*v)),
                    Do::OrInsertWithKey(..) => e.or_insert_with_key(|k| {
                        k.tok();
                        V::make(*v)
                    }),
                    _ => match e {
                        Entry::Vacant(x) => x.insert(V::make(*v)),
                        Entry::Occupied(x) => x.into_mut(),
                    },
                };
                let t = toks(r);
                if let Some(w) = ma.insert(*k, t.clone()) {
                    ensure!(w == t, "entry of a present key has tokens {:?}, expected {:?}", t, w);
                }
            }
            Do::OrDefault(k) => {
                let t = toks(a.entry(K::new(*k)).or_default());
                if let Some(w) = ma.insert(*k, t.clone()) {
                    ensure!(w == t, "entry of a present key has tokens {:?}, expected {:?}", t, w);
                }
            }
            Do::AndModify(k, v, ins) => {
                let e = a.entry(K::new(*k)).and_modify(|r| r.change(*v));
                if *ins {
                    let t = toks(e.or_insert(V::make(*v)));
                    ma.insert(*k, t);
                } else if let Entry::Occupied(x) = e {
                    let t = toks(x.get());
                    ma.insert(*k, t);
                }
            }
            Do::EntryDrop(k) => {
                let e = a.entry(K::new(*k));
                ensure!(e.key().n() == *k, "entry has another key");
            }
            Do::IntoKey(k) => {
                if let Entry::Vacant(x) = a.entry(K::new(*k)) {
                    let k2 = x.into_key();
                    k2.tok();
                    ensure!(k2.n() == *k, "into_key gave another key");
                    ensure!(!ma.contains_key(k), "entry of a present key is vacant");
                }
            }
            Do::OccGetMut(k, e) | Do::OccIntoMut(k, e) => {
                if let Entry::Occupied(mut x) = a.entry(K::new(*k)) {
                    let t = match o {
                        Do::OccGetMut(..) => {
                            x.get_mut().change(*e);
                            x.get_mut().change(*e / 2);
                            toks(x.get())
                        }
                        _ => {
                            let r = x.into_mut();
                            r.change(*e);
                            toks(r)
                        }
                    };
                    ensure!(ma.insert(*k, t).is_some(), "entry of an absent key is occupied");
                }
            }
            Do::OccRemove(k, both) => {
                if let Entry::Occupied(x) = a.entry(K::new(*k)) {
                    let w = ma.remove(k);
                    if *both {
                        let (k2, v) = x.remove_entry();
                        ensure!(k2.n() == *k, "remove_entry gave another key");
                        k2.tok();
                        Self::back(&v, w, "remove_entry")?;
                        self.held.push((Some(k2), v));
                    } else {
                        Self::back(&x.remove(), w, "remove")?;
                    }
                }
            }
            Do::Clear => {
                match a {
                    C::M(m) => m.clear(),
                    C::T(t) => *t = RbTree::default(),
                }
                ma.clear();
            }
            Do::Drop => {
                *a = C::new(self.tree);
                ma.clear();
            }
            Do::Unwind => {
                let x = std::mem::replace(a, C::new(self.tree));
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let _x = x;
                    std::panic::resume_unwind(Box::new(()));
                }));
                ma.clear();
            }
            Do::Take => {
                match a {
                    C::M(m) => drop(std::mem::take(m)),
                    C::T(t) => drop(std::mem::take(t)),
                }
                ma.clear();
            }
            Do::SwapContainers => {
                std::mem::swap(&mut self.a, &mut self.b);
                std::mem::swap(&mut self.ma, &mut self.mb);
            }
            Do::CloneByHand(ord) => {
                let ks: Vec<u16> = ma.keys().cloned().collect();
                let mut n = C::<K, V>::new(self.tree);
                let mut mn = BTreeMap::new();
                for i in ord.seq(ks.len() as u32) {
                    let k = ks[i as usize];
                    let (gk, v) = a.remove(k).ok_or("a key is missing")?;
                    mn.insert(k, toks(&v));
                    n.insert(gk.unwrap_or_else(|| K::new(k)), v);
                }
                ensure!(mn == *ma, "moving all pairs to another collection changed them");
                *a = n;
            }
            Do::Collect(v) => {
                let mut m2 = BTreeMap::new();
                let pairs: Vec<(K, V)> = v
                    .iter()
                    .map(|(k, v)| {
                        let v = V::make(*v);
                        m2.insert(*k, toks(&v));
                        (K::new(*k), v)
                    })
                    .collect();
                match a {
                    C::M(m) => *m = pairs.into_iter().collect(),
                    C::T(t) => {
                        let mut t2 = RbTree::new();
                        for (k, v) in pairs {
                            t2.insert(k, v);
                        }
                        *t = t2;
                    }
                }
                *ma = m2;
            }
            Do::Iter(n) => {
                let mut it = certified_vars::rbtree::iterator::RbTreeIterator::new(a.t());
                for _ in 0..*n {
                    match it.next() {
                        Some((k, v)) => {
                            k.tok();
                            let mut t = vec![];
                            v.toks(&mut t);
                        }
                        None => break,
                    }
                }
                a.t().for_each(|k, _| {
                    k.tok();
                });
            }
            Do::Reads(k) => {
                let t = a.t();
                let root = t.root_hash();
                let key = K::new(*k);
                let key2 = K::new(k.wrapping_add(3));
                for w in [
                    t.as_hash_tree(),
                    t.keys(),
                    t.witness::<u16>(k),
                    t.key_range::<K, K>(&key, &key2),
                    t.value_range::<K, K>(&key, &key2),
                    t.keys_with_prefix::<[u8]>(&[0]),
                    t.nested_witness::<u16>(k, |v| v.as_hash_tree()),
                ] {
                    ensure!(w.reconstruct() == root, "a witness does not match the root hash");
                }
                let _ = (t.get::<u16>(k).is_some(), t.max_entry_with_prefix::<[u8]>(&[0]).is_some(), t.get_with(|x| x.n().cmp(k)).is_some());
            }
            Do::Append(k, v) => {
                // only maps of sequences have this operation
                let any: &mut dyn std::any::Any = match a {
                    C::M(m) => m,
                    C::T(_) => return Ok(()),
                };
                if let Some(m) = any.downcast_mut::<Map<K, Seq<OV>>>() {
                    let v = OV::new(*v);
                    let id = v.tok.touch();
                    m.append_deep(K::new(*k), v);
                    ma.entry(*k).or_default().push(id);
                    ensure!(m.len_deep::<u16>(k) == ma[k].len(), "len_deep is wrong");
                }
            }
            Do::ReleaseHeld => {
                for (k, v) in self.held.drain(..) {
                    if let Some(k) = k {
                        k.tok();
                    }
                    toks(&v);
                }
            }
            Do::Fill(from, n, ord) => {
                for i in ord.seq(*n as u32) {
                    self.step(&Do::Insert(from + i as u16, i))?;
                }
            }
            Do::Drain(from, n, ord) => {
                for i in ord.seq(*n as u32) {
                    self.step(&Do::Remove(from + i as u16))?;
                }
            }
        }
        Ok(())
    }

    /// Exactly the tokens of the contents and of what the caller holds are live.
    fn audit(&self) -> Res {
        let mut want = BTreeSet::new();
        for (c, m) in [(&self.a, &self.ma), (&self.b, &self.mb)] {
            ensure!(c.t().len() == m.len(), "len() is {}, expected {}", c.t().len(), m.len());
            let mut n = 0;
            for ((k, v), (k2, w)) in certified_vars::rbtree::iterator::RbTreeIterator::new(c.t()).zip(m) {
                n += 1;
                ensure!(k.n() == *k2, "key {} where {} is expected", k.n(), k2);
                if let Some(x) = k.tok() {
                    ensure!(want.insert(x), "a key is stored twice");
                }
                let t = toks(v);
                ensure!(t == *w, "value of key {} has tokens {:?}, expected {:?}", k2, t, w);
                for x in t.into_iter().filter(|_| V::TOKENS) {
                    ensure!(want.insert(x), "a value is stored twice");
                }
            }
            ensure!(n == m.len(), "iteration stopped after {} of {} entries", n, m.len());
        }
        for (k, v) in &self.held {
            if let Some(k) = k {
                if let Some(x) = k.tok() {
                    ensure!(want.insert(x), "a removed key is still stored");
                }
            }
            for x in toks(v).into_iter().filter(|_| V::TOKENS) {
                ensure!(want.insert(x), "a value that was handed back is still stored");
            }
        }
        reg_error()?;
        let live = reg_live();
        if live != want {
            let leaked: Vec<_> = live.difference(&want).collect();
            let lost: Vec<_> = want.difference(&live).collect();
            return Err(format!("{} keys or values are neither stored nor handed back nor dropped; {} stored ones were dropped", leaked.len(), lost.len()));
        }
        Ok(())
    }
}

fn history<K: Key, V: Val>(c: &OwnCase, st: Option<&mut Stats>) -> Res {
    reg_reset();
    let mut e = Env::<K, V>::new(c.tree);
    let (mut removed, mut replaced, mut max) = (0, 0, 0);
    for o in &c.ops {
        let before = (e.ma.len(), e.held.len());
        e.step(o)?;
        reg_error()?;
        e.audit()?;
        max = max.max(e.ma.len());
        if e.ma.len() < before.0 {
            removed += 1;
        }
        if matches!(o, Do::Insert(..) | Do::InsertHold(..) | Do::Collect(_)) && e.ma.len() == before.0 {
            replaced += 1;
        }
    }
    drop(e);
    reg_error()?;
    ensure!(reg_count() == 0, "{} keys or values were never dropped", reg_count());
    if let Some(st) = st {
        if removed > 0 && replaced > 0 && max >= 4 {
            st.mark();
        }
        st.class(match max {
            0..=3 => "up to 3 entries",
            4..=15 => "up to 15 entries",
            16..=99 => "up to 99 entries",
            _ => "100 entries and more",
        });
        st.class(KINDS[c.val as usize % KINDS.len()]);
    }
    Ok(())
}

const KINDS: [&str; 6] = [
    "instrumented keys and values",
    "map values",
    "seq values",
    "instrumented keys, plain values",
    "plain keys, instrumented values",
    "plain keys, values without a size",
];

/// Runs the history on the guarding allocator.
fn one(c: &OwnCase, st: Option<&mut Stats>) -> Res {
    match c.val as usize % KINDS.len() {
        0 => history::<OK, OV>(c, st),
        1 => history::<OK, Map<OK, OV>>(c, st),
        2 => history::<OK, Seq<OV>>(c, st),
        3 => history::<OK, PV>(c, st),
        4 => history::<PK, OV>(c, st),
        _ => history::<PK, ZV>(c, st),
    }
}

/// Blocks that `f` leaves allocated; measured again if there are some, to rule out one-time
/// initialisations.
pub fn leak_check(mut f: impl FnMut() -> Res) -> Res {
    let mut d = 0;
    for _ in 0..3 {
        reg_reset();
        let b = alloc::blocks();
        f()?;
        reg_reset();
        d = alloc::blocks() - b;
        if d == 0 {
            return Ok(());
        }
    }
    Err(format!("{} heap blocks stay allocated after everything was dropped", d))
}

pub struct C10;
impl Prop for C10 {
    type Case = OwnCase;
    fn id(&self) -> &'static str {
        "C10"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if its history removed entries, replaced a value and reached 4 entries; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 40_000,
            Tier::Thorough => 2_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        (i % 20 == 19) as usize
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<OwnCase> {
        let (n, len) = if class == 0 { (14u16, 2..60) } else { (300, 30..60) };
        let ops = prop::collection::vec(doit(n), len);
        (0u8..9, any::<bool>(), ops).prop_map(|(v, tree, ops)| OwnCase { val: v.saturating_sub(3), tree, ops }).boxed()
    }
    fn check(&self, c: &OwnCase, st: &mut Stats) -> Res {
        alloc::guard(true);
        let r = guarded(|| one(c, Some(st))).and_then(|_| leak_check(|| one(c, None)));
        alloc::guard(false);
        // tokens of a failed run die outside the registry
        reg_reset();
        r
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["memory that is read after being freed is only noticed through keys, values and the freed-block pattern, not for every byte (the tree's own nodes carry no canary of ours)".into()]
    }
}
