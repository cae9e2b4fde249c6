//! C19, C20, C23: groups of up to 326 leaf types against a path model.
use super::keys::mk_string;
use super::vals::{seed_bytes, HV};
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use certified_vars::{AsHashTree, Group, GroupBuilder, Hash, HashTree, Map, Seq};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

// ------------------------------------------------------------------ leaves

/// Contents of a leaf; `MD` is the model.
#[derive(Clone, Debug, PartialEq)]
pub enum MD {
    Bytes(Vec<u8>),
    Num(u64),
    Map(BTreeMap<u8, u16>),
    Seq(Vec<u32>),
    /// an inner group of two leaves
    Grp(Vec<u8>, u64),
    /// all there is to a type without a size
    Unit(u8),
}
pub enum D {
    Bytes(Vec<u8>),
    Num(u64),
    Map(Map<u8, u16>),
    Seq(Seq<u32>),
    Grp(Group),
    Unit(u8),
}
pub struct InA(Vec<u8>);
pub struct InB(u64);
impl AsHashTree for InA {
    fn root_hash(&self) -> Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
impl AsHashTree for InB {
    fn root_hash(&self) -> Hash {
        self.0.root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.as_hash_tree()
    }
}
fn be64(x: u64) -> Vec<u8> {
    (0..8).rev().map(|i| (x >> (8 * i)) as u8).collect()
}

impl MD {
    fn mk(s: u32) -> MD {
        match s % 7 {
            0 | 1 => MD::Bytes(seed_bytes(s)),
            2 => MD::Num((s as u64).wrapping_mul(0x1_0001_0001)),
            3 | 4 => MD::Map(<Map<u8, u16> as HV>::mk_m(s)),
            5 => MD::Seq(<Seq<u32> as HV>::mk_m(s)),
            _ => MD::Grp(seed_bytes(s / 2), s as u64),
        }
    }
    /// Contents for a leaf of this type.
    pub fn for_type(ty: usize, s: u32) -> MD {
        match ty.checked_sub(SIZED) {
            Some(n) => MD::Unit(n as u8),
            None => MD::mk(s),
        }
    }
    fn real(&self) -> D {
        match self {
            MD::Unit(n) => D::Unit(*n),
            MD::Bytes(b) => D::Bytes(b.clone()),
            MD::Num(n) => D::Num(*n),
            MD::Map(m) => D::Map(HV::of(m)),
            MD::Seq(m) => D::Seq(HV::of(m)),
            MD::Grp(a, b) => D::Grp(GroupBuilder::new().insert(["b"], InB(*b)).insert(["a", "x"], InA(a.clone())).build()),
        }
    }
    fn edit(&mut self, s: u32) {
        match self {
            MD::Unit(_) => {}
            MD::Map(m) if s % 4 != 0 => <Map<u8, u16> as HV>::edit_m(m, s),
            MD::Seq(m) if s % 4 != 0 => <Seq<u32> as HV>::edit_m(m, s),
            MD::Grp(a, b) if s % 4 != 0 => {
                if s % 2 == 0 {
                    a.push(s as u8)
                } else {
                    *b = s as u64
                }
            }
            x => *x = MD::mk(s / 4),
        }
    }
}
impl D {
    fn edit(&mut self, s: u32) {
        match self {
            D::Unit(_) => {}
            D::Map(m) if s % 4 != 0 => m.edit(s),
            D::Seq(m) if s % 4 != 0 => m.edit(s),
            D::Grp(g) if s % 4 != 0 => {
                if s % 2 == 0 {
                    g.get_mut::<InA>().0.push(s as u8)
                } else {
                    g.get_mut::<InB>().0 = s as u64
                }
            }
            x => *x = MD::mk(s / 4).real(),
        }
    }
    pub fn same(&self, m: &MD) -> bool {
        match (self, m) {
            (D::Bytes(a), MD::Bytes(b)) => a == b,
            (D::Num(a), MD::Num(b)) => a == b,
            (D::Map(a), MD::Map(b)) => a.same(b),
            (D::Seq(a), MD::Seq(b)) => a.same(b),
            (D::Unit(a), MD::Unit(b)) => a == b,
            (D::Grp(g), MD::Grp(a, b)) => &g.get::<InA>().0 == a && g.get::<InB>().0 == *b,
            _ => false,
        }
    }
    /// The certified form, checked against the model.
    fn tree(&self, m: &MD) -> Result<T, String> {
        let lab = |l: &str, t: T| T::Lab(l.as_bytes().to_vec(), Box::new(t));
        match (self, m) {
            (D::Map(a), MD::Map(b)) => a.tree(b),
            (D::Seq(a), MD::Seq(b)) => a.tree(b),
            _ => Ok(match m {
                MD::Bytes(b) => T::Leaf(b.clone()),
                MD::Num(n) => T::Leaf(be64(*n)),
                MD::Unit(n) => T::Leaf(UNITS[*n as usize].to_vec()),
                MD::Grp(a, b) => T::Fork(Box::new(lab("a", lab("x", T::Leaf(a.clone())))), Box::new(lab("b", T::Leaf(be64(*b))))),
                _ => return Err("leaf contents of another kind".into()),
            }),
        }
    }
    pub fn inner(&self) -> &dyn AsHashTree {
        match self {
            D::Bytes(x) => x,
            D::Num(x) => x,
            D::Map(x) => x,
            D::Seq(x) => x,
            D::Grp(x) => x,
            D::Unit(n) => &UNITS[*n as usize],
        }
    }
    /// A valid witness of the contents.
    pub fn partial(&self, how: u8) -> HashTree<'_> {
        match self {
            D::Map(m) => match how % 6 {
                0 => m.witness_keys(),
                1 => m.witness(&(how / 6 % 11)),
                2 => m.witness_key_range::<u8, u8>(&(how / 6 % 5), &(how / 6 % 5 + 3)),
                3 => m.witness_value_range::<u8, u8>(&(how / 6 % 7), &(how / 6 % 7 + 2)),
                4 => m.as_hash_tree(),
                _ => HashTree::Pruned(m.root_hash()),
            },
            D::Grp(g) => match how % 5 {
                0 => g.witness().full::<InA>().build(),
                1 => g.witness().full::<InB>().build(),
                2 => g.witness().build(),
                3 => g.witness().full::<InB>().partial(|a: &InA| HashTree::Pruned(a.root_hash())).build(),
                _ => g.as_hash_tree(),
            },
            x if how % 2 == 0 => x.inner().as_hash_tree(),
            x => HashTree::Pruned(x.inner().root_hash()),
        }
    }
}

pub struct L<const N: usize>(D);
impl<const N: usize> AsHashTree for L<N> {
    fn root_hash(&self) -> Hash {
        self.0.inner().root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        self.0.inner().as_hash_tree()
    }
}

static UNITS: [&[u8]; 6] = [b"", b"a", b"a", b"unit", b"\0", b"bb"];
/// Leaf types from this index on have no size.
const SIZED: usize = 320;
pub struct Z<const N: usize>;
impl<const N: usize> AsHashTree for Z<N> {
    fn root_hash(&self) -> Hash {
        UNITS[N].root_hash()
    }
    fn as_hash_tree(&self) -> HashTree<'_> {
        UNITS[N].as_hash_tree()
    }
}
impl<const N: usize> Z<N> {
    const U: &'static D = &D::Unit(N as u8);
}
fn z_insert<const N: usize>(b: GroupBuilder, p: &[String], _: D, _: u8) -> GroupBuilder {
    b.insert(p.to_vec(), Z::<N>)
}
fn z_get<const N: usize>(g: &Group) -> &D {
    let _: &Z<N> = g.get::<Z<N>>();
    Z::<N>::U
}
fn z_get_mut<const N: usize>(g: &mut Group) -> &mut D {
    let _: &mut Z<N> = g.get_mut::<Z<N>>();
    // (a few bytes of each worker)
    Box::leak(Box::new(D::Unit(N as u8)))
}
fn z_full<const N: usize>(r: &mut Option<Ray<'_>>) {
    *r = Some(r.take().unwrap().full::<Z<N>>());
}
fn z_partial<const N: usize>(r: &mut Option<Ray<'_>>, how: u8) {
    *r = Some(r.take().unwrap().partial(|x: &Z<N>| if how % 2 == 0 { x.as_hash_tree() } else { HashTree::Pruned(x.root_hash()) }));
}
fn z_leaf<const N: usize>(_: D) -> Box<dyn GroupLeaf> {
    Box::new(Z::<N>)
}
fn z_is<const N: usize>(x: &dyn GroupLeaf) -> bool {
    x.is::<Z<N>>()
}
fn z_peek<const N: usize>(x: &dyn GroupLeaf) -> Option<&D> {
    x.downcast_ref::<Z<N>>().map(|_| Z::<N>::U)
}
fn z_peek_mut<const N: usize>(x: &mut dyn GroupLeaf) -> Option<&mut D> {
    x.downcast_mut::<Z<N>>().map(|_| &mut *Box::leak(Box::new(D::Unit(N as u8))))
}

/// What can be done with the leaf type of an index.
pub struct Ty {
    pub insert: fn(GroupBuilder, &[String], D, u8) -> GroupBuilder,
    pub get: fn(&Group) -> &D,
    pub get_mut: fn(&mut Group) -> &mut D,
    pub full: fn(&mut Option<Ray<'_>>),
    pub partial: fn(&mut Option<Ray<'_>>, u8),
    pub leaf: fn(D) -> Box<dyn GroupLeaf>,
    pub is: fn(&dyn GroupLeaf) -> bool,
    pub peek: fn(&dyn GroupLeaf) -> Option<&D>,
    pub peek_mut: fn(&mut dyn GroupLeaf) -> Option<&mut D>,
}
type Ray<'a> = certified_vars::collections::group::Ray<'a>;
use certified_vars::collections::group::GroupLeaf;

fn insert<const N: usize>(b: GroupBuilder, p: &[String], d: D, how: u8) -> GroupBuilder {
    // paths of several kinds
    match how % 3 {
        0 => b.insert(p.to_vec(), L::<N>(d)),
        1 => b.insert(p.iter().map(|x| x.as_str()), L::<N>(d)),
        _ => b.insert(p.iter().map(|x| x.clone().into_boxed_str()), L::<N>(d)),
    }
}
fn get<const N: usize>(g: &Group) -> &D {
    &g.get::<L<N>>().0
}
fn get_mut<const N: usize>(g: &mut Group) -> &mut D {
    &mut g.get_mut::<L<N>>().0
}
fn full<const N: usize>(r: &mut Option<Ray<'_>>) {
    *r = Some(r.take().unwrap().full::<L<N>>());
}
fn partial<const N: usize>(r: &mut Option<Ray<'_>>, how: u8) {
    *r = Some(r.take().unwrap().partial(|x: &L<N>| x.0.partial(how)));
}
fn leaf<const N: usize>(d: D) -> Box<dyn GroupLeaf> {
    Box::new(L::<N>(d))
}
fn is<const N: usize>(x: &dyn GroupLeaf) -> bool {
    x.is::<L<N>>()
}
fn peek<const N: usize>(x: &dyn GroupLeaf) -> Option<&D> {
    x.downcast_ref::<L<N>>().map(|l| &l.0)
}
fn peek_mut<const N: usize>(x: &mut dyn GroupLeaf) -> Option<&mut D> {
    x.downcast_mut::<L<N>>().map(|l| &mut l.0)
}
macro_rules! table {
    ($($n:literal)*; $($z:literal)*) => {
        pub static TYPES: &[Ty] = &[$(Ty { insert: insert::<$n>, get: get::<$n>, get_mut: get_mut::<$n>, full: full::<$n>, partial: partial::<$n>, leaf: leaf::<$n>, is: is::<$n>, peek: peek::<$n>, peek_mut: peek_mut::<$n> },)* $(Ty { insert: z_insert::<$z>, get: z_get::<$z>, get_mut: z_get_mut::<$z>, full: z_full::<$z>, partial: z_partial::<$z>, leaf: z_leaf::<$z>, is: z_is::<$z>, peek: z_peek::<$z>, peek_mut: z_peek_mut::<$z> }),*];
    };
}
table! {
    0 1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17 18 19
    20 21 22 23 24 25 26 27 28 29 30 31 32 33 34 35 36 37 38 39
    40 41 42 43 44 45 46 47 48 49 50 51 52 53 54 55 56 57 58 59
    60 61 62 63 64 65 66 67 68 69 70 71 72 73 74 75 76 77 78 79
    80 81 82 83 84 85 86 87 88 89 90 91 92 93 94 95 96 97 98 99
    100 101 102 103 104 105 106 107 108 109 110 111 112 113 114 115 116 117 118 119
    120 121 122 123 124 125 126 127 128 129 130 131 132 133 134 135 136 137 138 139
    140 141 142 143 144 145 146 147 148 149 150 151 152 153 154 155 156 157 158 159
    160 161 162 163 164 165 166 167 168 169 170 171 172 173 174 175 176 177 178 179
    180 181 182 183 184 185 186 187 188 189 190 191 192 193 194 195 196 197 198 199
    200 201 202 203 204 205 206 207 208 209 210 211 212 213 214 215 216 217 218 219
    220 221 222 223 224 225 226 227 228 229 230 231 232 233 234 235 236 237 238 239
    240 241 242 243 244 245 246 247 248 249 250 251 252 253 254 255 256 257 258 259
    260 261 262 263 264 265 266 267 268 269 270 271 272 273 274 275 276 277 278 279
    280 281 282 283 284 285 286 287 288 289 290 291 292 293 294 295 296 297 298 299
    300 301 302 303 304 305 306 307 308 309 310 311 312 313 314 315 316 317 318 319;
    0 1 2 3 4 5
}
pub fn ntypes() -> usize {
    TYPES.len()
}

// ------------------------------------------------------------------ cases

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Reg {
    /// labels by index
    pub path: Vec<u16>,
    pub ty: u16,
    pub seed: u32,
    pub how: u8,
    /// how many more times the first label is repeated
    #[serde(default)]
    pub deep: u32,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GCase {
    pub labels: Vec<Vec<u8>>,
    pub regs: Vec<Reg>,
    /// order in which the registrations are made a second time
    pub shuffle: u32,
    pub edits: Vec<(u16, u32)>,
    /// sets of chosen leaves; None: full
    pub picks: Vec<Vec<(u16, Option<u8>)>>,
    pub probes: Vec<u16>,
}
impl GCase {
    fn label(&self, i: u16) -> String {
        let n = self.labels.len() as u16;
        let s = mk_string(&self.labels[(i % n) as usize]);
        match i / n {
            0 => s,
            k => format!("{}{}", s, k),
        }
    }
    fn path(&self, r: &Reg) -> Vec<String> {
        let first = std::iter::repeat(r.path[0]).take(r.deep as usize);
        first.chain(r.path.iter().copied()).map(|i| self.label(i)).collect()
    }
    fn ty(r: &Reg) -> usize {
        r.ty as usize % ntypes()
    }
}

fn raw_label() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        6 => prop::collection::vec(prop::sample::select(vec![b'a', b'b', b'c', 0u8, 0x7f, 0x90, 0xd0, 0xf5, 0xff]), 0..4),
        2 => prop::collection::vec(any::<u8>(), 0..8),
        1 => (20usize..300).prop_map(|n| vec![b'l'; n]),
    ]
    .boxed()
}
/// Class 0: few leaves, labels that collide; 1: few leaves, mostly free of conflicts; 2: many siblings; 3: one directory as
/// wide as there are types; 4 and 5: one leaf at a depth of about 2^8 or 2^16, others at small depths.
pub fn gcase(class: usize) -> BoxedStrategy<GCase> {
    if class == 4 || class == 5 {
        let big = if class == 4 { 256u32 } else { 65536 };
        let deep = prop_oneof![3 => 0u32..60, 1 => Just(0)];
        return (gcase(0), any::<u16>(), 0u32..70, prop::collection::vec((deep, 0u16..4, prop::bool::weighted(0.7)), 3..6), any::<u32>())
            .prop_map(move |(mut c, long, less, regs, seed)| {
                let long = long as usize % regs.len();
                let mut pick = vec![];
                c.regs = vec![];
                for (i, (deep, tail, chosen)) in regs.into_iter().enumerate() {
                    let deep = if i == long { big - less } else { deep };
                    let path = if tail == 0 { vec![i as u16] } else { vec![i as u16, tail] };
                    if chosen && i != long {
                        pick.push((i as u16, if seed >> i & 1 == 0 { None } else { Some(seed as u8) }));
                    }
                    c.regs.push(Reg { path, ty: i as u16, seed: seed.wrapping_mul(i as u32 + 1), how: i as u8, deep });
                }
                c.picks.truncate(1);
                c.picks.push(pick);
                c.edits.truncate(1);
                c
            })
            .boxed();
    }
    if class == 3 {
        return (gcase(0), prop::collection::vec(0u16..3, 0..3), 100u16..=320, any::<u32>())
            .prop_map(|(mut c, at, n, seed)| {
                c.regs = (0..n)
                    .map(|i| {
                        let mut path = at.clone();
                        path.push(i);
                        Reg { path, ty: i, seed: seed.wrapping_mul(i as u32 + 1), how: i as u8, deep: 0 }
                    })
                    .collect();
                c
            })
            .boxed();
    }
    let reg = move || match class {
        0 => (prop::collection::vec(0u16..4, 1..5), prop_oneof![5 => 0u16..8, 1 => 320u16..323]).boxed(),
        1 => (prop::collection::vec(0u16..24, 1..6), prop_oneof![5 => 0u16..320, 1 => 320u16..326]).boxed(),
        _ => (
            prop_oneof![
                5 => prop::collection::vec(0u16..900, 1..2),
                3 => (0u16..3, 0u16..900).prop_map(|(a, b)| vec![a, b]),
                1 => prop::collection::vec(0u16..40, 2..12),
            ],
            0u16..320,
        )
            .boxed(),
    };
    let n = [1..8usize, 1..14, 20..150][class].clone();
    (
        prop::collection::vec(raw_label(), 1..8),
        prop::collection::vec((reg(), any::<u32>(), any::<u8>()), n),
        any::<u32>(),
        prop::collection::vec((any::<u16>(), any::<u32>()), 0..8),
        prop::collection::vec(prop::collection::vec((any::<u16>(), proptest::option::weighted(0.6, any::<u8>())), 0..7), 1..5),
        prop::collection::vec(any::<u16>(), 3..8),
    )
        .prop_map(|(labels, regs, shuffle, edits, picks, probes)| GCase {
            labels,
            regs: regs.into_iter().map(|((path, ty), seed, how)| Reg { path, ty, seed, how, deep: 0 }).collect(),
            shuffle,
            edits,
            picks,
            probes,
        })
        .boxed()
}

#[derive(Default)]
pub struct Model {
    pub paths: BTreeMap<Vec<String>, usize>,
    pub data: BTreeMap<usize, MD>,
}
impl Model {
    /// Why a registration has to be refused.
    fn conflict(&self, p: &[String], ty: usize) -> Option<&'static str> {
        if self.data.contains_key(&ty) {
            return Some("the type is registered already");
        }
        for q in self.paths.keys() {
            if q == p {
                return Some("the path is registered already");
            }
            if p.starts_with(q) {
                return Some("the path runs through a leaf");
            }
            if q.starts_with(p) {
                return Some("the path is a directory");
            }
        }
        None
    }
    fn add(&mut self, p: Vec<String>, ty: usize, d: MD) {
        self.paths.insert(p, ty);
        self.data.insert(ty, d);
    }
}

/// Registers in the given order and skips conflicts by the model; returns what was registered.
pub fn build(c: &GCase, order: &[usize], st: &mut Stats) -> Result<Option<(Group, Model)>, String> {
    let mut m = Model::default();
    let mut b = GroupBuilder::new();
    for i in order {
        let r = &c.regs[*i];
        let (p, ty) = (c.path(r), GCase::ty(r));
        if m.conflict(&p, ty).is_some() {
            st.class("conflicting registration skipped");
            continue;
        }
        let d = MD::for_type(ty, r.seed);
        b = guarded(|| Ok((TYPES[ty].insert)(b, &p, d.real(), r.how))).map_err(|e| format!("registering {:?} failed: {}", p, e))?;
        m.add(p, ty, d);
    }
    if m.paths.is_empty() {
        return Ok(None);
    }
    let g = guarded(|| Ok(b.build())).map_err(|e| format!("building failed: {}", e))?;
    Ok(Some((g, m)))
}
/// The accepted registrations in another order.
fn shuffled(n: usize, s: u32) -> Vec<usize> {
    super::sut::Order::Shuffle(s).seq(n as u32).into_iter().map(|x| x as usize).collect()
}

/// Compares a directory of the tree with the paths under it.
fn check_dir(t: &T, g: &Group, m: &Model, paths: &[(&[String], usize)], at: &str) -> Res {
    let mut want: BTreeMap<&str, Vec<(&[String], usize)>> = BTreeMap::new();
    for (p, ty) in paths {
        want.entry(&p[0]).or_default().push((&p[1..], *ty));
    }
    let mut fl = vec![];
    t.flatten(&mut fl);
    ensure!(fl.len() == want.len(), "the directory {:?} has {} children, expected {}: {:?}", at, fl.len(), want.len(), t);
    // deeper than a balanced tree by a constant factor at most
    let n = fl.len() as u32;
    let log = 32 - (n - 1).leading_zeros();
    ensure!(t.fork_depth() as u32 <= 3 * log / 2 + 2, "the directory {:?} of {} children is {} forks deep", at, n, t.fork_depth());
    for (x, (l, sub)) in fl.iter().zip(want) {
        match x {
            T::Lab(l2, s) if l2 == l.as_bytes() => match &sub[..] {
                [([], ty)] => {
                    let d = (TYPES[*ty].get)(g);
                    let w = d.tree(&m.data[ty])?;
                    ensure!(**s == w, "the leaf {:?}/{:?} shows {:?}, expected {:?}", at, l, s, w);
                }
                _ => check_dir(s, g, m, &sub, &format!("{}/{}", at, l))?,
            },
            x => return Err(format!("the directory {:?} has {:?} where label {:?} is expected", at, x, l)),
        }
    }
    Ok(())
}
fn check_tree(c: &GCase, g: &Group, m: &Model) -> Result<T, String> {
    let root = g.root_hash();
    let t = T::from_ht(&g.as_hash_tree());
    ensure!(t.hash() == root, "root_hash is {}, the hash of the tree {}", hx(&root), hx(&t.hash()));
    let ps: Vec<(&[String], usize)> = m.paths.iter().map(|(p, t)| (&p[..], *t)).collect();
    check_dir(&t, g, m, &ps, "")?;
    // lookups
    for (p, ty) in &m.paths {
        let path: Vec<&[u8]> = p.iter().map(|x| x.as_bytes()).collect();
        let w = (TYPES[*ty].get)(g).tree(&m.data[ty])?;
        ensure!(lookup(&t, &path) == Look::Found(&w), "lookup of {:?} gives {:?}, expected {:?}", p, lookup(&t, &path), w);
        for pr in &c.probes {
            // one label exchanged, the path cut there or not
            let k = *pr as usize % p.len();
            let new = match pr % 5 {
                0 => format!("{}\0", p[k]),
                1 => p[k].chars().skip(1).collect(),
                2 => format!("{}~", p[k]),
                _ => c.label(pr / 5 % 900),
            };
            let mut q = p[..k].to_vec();
            q.push(new);
            let exists = m.paths.keys().any(|x| x.starts_with(&q));
            if !exists {
                let mut b: Vec<&[u8]> = q.iter().map(|x| x.as_bytes()).collect();
                ensure!(lookup(&t, &b) == Look::Absent, "lookup of the unregistered {:?} gives {:?}", q, lookup(&t, &b));
                b.push(b"x");
                ensure!(lookup(&t, &b) == Look::Absent, "lookup below the unregistered {:?} gives {:?}", q, lookup(&t, &b));
            }
            if matches!(w, T::Leaf(_)) {
                let mut b = path.clone();
                b.push(b"x");
                ensure!(lookup(&t, &b) == Look::Absent, "lookup below the leaf {:?} gives {:?}", p, lookup(&t, &b));
            }
        }
    }
    Ok(t)
}

fn stats(m: &Model, st: &mut Stats) {
    st.class(match m.paths.len() {
        1 => "groups of 1 leaf",
        2..=5 => "groups of 2-5 leaves",
        6..=20 => "groups of 6-20 leaves",
        21..=255 => "groups of 21-255 leaves",
        _ => "groups of more than 255 leaves",
    });
    st.class(match m.paths.keys().map(|x| x.len()).max().unwrap_or(0) {
        0 | 1 => "depth 1",
        2..=3 => "depth 2-3",
        4..=99 => "depth 4 or more",
        100..=999 => "depth 100 or more",
        _ => "depth 1000 or more",
    });
}
pub fn edit(c: &GCase, g: &mut Group, m: &mut Model, k: usize) -> Option<usize> {
    let (i, s) = *c.edits.get(k)?;
    let tys: Vec<usize> = m.data.keys().copied().collect();
    let ty = tys[i as usize % tys.len()];
    (TYPES[ty].get_mut)(g).edit(s);
    m.data.get_mut(&ty).unwrap().edit(s);
    Some(ty)
}

pub fn gclass(i: u64) -> usize {
    match i % 20 {
        0..=9 => 0,
        10..=18 => 1,
        _ if i % 200 == 199 => 3,
        _ => 2,
    }
}
const GRULE: &str = "a case is non-trivial if the group has at least 3 leaves, two of them in one directory; duplicates removed by hashing the case";
fn mark(m: &Model, st: &mut Stats) {
    let dirs: BTreeSet<&[String]> = m.paths.keys().map(|p| &p[..p.len() - 1]).collect();
    if m.paths.len() >= 3 && dirs.len() < m.paths.len() {
        st.mark();
    }
}
fn gassume() -> Vec<String> {
    vec![
        "at most 320 leaf types with contents and 6 without a size, paths of at most 11 labels, some of about 256 and (C20) 65 536".into(),
        "building without any registration and registering the empty path panic by design and are not generated".into(),
        "leaf types are the check's own (bytes, number, Map, Seq and inner Group contents)".into(),
    ]
}

pub struct C19;
impl Prop for C19 {
    type Case = GCase;
    fn id(&self) -> &'static str {
        "C19"
    }
    fn rule(&self) -> &'static str {
        GRULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 45_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        match gclass(i) {
            _ if i % 400 == 79 => 4,
            x => x,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<GCase> {
        gcase(class)
    }
    fn check(&self, c: &GCase, st: &mut Stats) -> Res {
        let all: Vec<usize> = (0..c.regs.len()).collect();
        let (mut g, mut m) = match build(c, &all, st)? {
            Some(x) => x,
            None => return Ok(()),
        };
        stats(&m, st);
        mark(&m, st);
        let t = check_tree(c, &g, &m)?;
        // the same registrations in another order
        let acc: Vec<usize> = {
            let mut seen = Model::default();
            all.iter()
                .copied()
                .filter(|i| {
                    let (p, ty) = (c.path(&c.regs[*i]), GCase::ty(&c.regs[*i]));
                    let ok = seen.conflict(&p, ty).is_none();
                    if ok {
                        seen.add(p, ty, MD::Num(0));
                    }
                    ok
                })
                .collect()
        };
        let order: Vec<usize> = shuffled(acc.len(), c.shuffle).into_iter().map(|i| acc[i]).collect();
        let (g2, m2) = build(c, &order, st)?.ok_or("nothing registered")?;
        ensure!(m.paths == m2.paths, "the model of the check is inconsistent");
        let t2 = T::from_ht(&g2.as_hash_tree());
        // (inner maps of the same history have the same shape)
        ensure!(t2 == t && g2.root_hash() == g.root_hash(), "the order of registration matters: {:?} and {:?}", t, t2);
        for k in 0..c.edits.len() {
            if let Some(ty) = edit(c, &mut g, &mut m, k) {
                check_tree(c, &g, &m).map_err(|e| format!("after a change of leaf {}: {}", ty, e))?;
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        gassume()
    }
}

/// `t` with everything replaced by its hash that leads to no chosen leaf; None: nothing chosen. `paths` are the rests of
/// the paths that lead through here.
fn prune(t: &T, paths: &[(&[String], usize)], picks: &BTreeMap<usize, T>) -> Option<T> {
    if !paths.iter().any(|(_, ty)| picks.contains_key(ty)) {
        return None;
    }
    match t {
        T::Fork(a, b) => {
            let (x, y) = (prune(a, paths, picks), prune(b, paths, picks));
            if x.is_none() && y.is_none() {
                return None;
            }
            let p = |x: Option<T>, t: &T| Box::new(x.unwrap_or_else(|| T::Pruned(t.hash())));
            Some(T::Fork(p(x, a), p(y, b)))
        }
        T::Lab(l, s) => {
            let sub: Vec<(&[String], usize)> = paths.iter().filter(|(p, _)| p[0].as_bytes() == &l[..]).map(|(p, ty)| (&p[1..], *ty)).collect();
            let r = match &sub[..] {
                [([], ty)] => picks.get(ty).cloned(),
                _ => prune(s, &sub, picks),
            };
            r.map(|x| T::Lab(l.clone(), Box::new(x)))
        }
        _ => None,
    }
}

pub struct C20;
impl Prop for C20 {
    type Case = GCase;
    fn id(&self) -> &'static str {
        "C20"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if the group has at least 3 leaves, two of them in one directory, and some witness chose some but not all leaves; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 80_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        // conflicts are not this check's matter
        match gclass(i) {
            _ if i % 2000 == 1019 => 5,
            _ if i % 200 == 79 => 4,
            0 => 1,
            x => x,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<GCase> {
        gcase(class)
    }
    fn check(&self, c: &GCase, st: &mut Stats) -> Res {
        let all: Vec<usize> = (0..c.regs.len()).collect();
        let (mut g, mut m) = match build(c, &all, st)? {
            Some(x) => x,
            None => return Ok(()),
        };
        stats(&m, st);
        let tys: Vec<usize> = m.data.keys().copied().collect();
        for (k, picks) in c.picks.iter().enumerate() {
            edit(c, &mut g, &mut m, k);
            let root = g.root_hash();
            let fullt = T::from_ht(&g.as_hash_tree());
            let mut want = BTreeMap::new();
            let mut ray = Some(g.witness());
            for (i, how) in picks {
                // wide groups: neighbours are chosen as well
                let ty = tys[*i as usize % tys.len()];
                let d = (TYPES[ty].get)(&g);
                match how {
                    None => {
                        (TYPES[ty].full)(&mut ray);
                        want.insert(ty, d.tree(&m.data[&ty])?);
                    }
                    Some(h) => {
                        (TYPES[ty].partial)(&mut ray, *h);
                        want.insert(ty, T::from_ht(&d.partial(*h)));
                    }
                }
            }
            if want.len() < picks.len() {
                st.class("a leaf chosen twice");
            }
            st.class(match (want.len(), want.len() == tys.len()) {
                (0, _) => "nothing chosen",
                (_, true) => "all leaves chosen",
                (1, _) => "one leaf chosen",
                _ => "several leaves chosen",
            });
            if !want.is_empty() && want.len() < tys.len() {
                mark(&m, st);
            }
            let t = T::from_ht(&ray.unwrap().build());
            ensure!(t.hash() == root, "the witness of {:?} has hash {}, the root hash is {}", want, hx(&t.hash()), hx(&root));
            let paths: Vec<(&[String], usize)> = m.paths.iter().map(|(p, t)| (&p[..], *t)).collect();
            let expect = prune(&fullt, &paths, &want).unwrap_or(T::Pruned(root));
            ensure!(t == expect, "the witness of {:?} is {:?}, expected {:?}", want, t, expect);
            ensure!(g.root_hash() == root, "building a witness changed the root hash");
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        let mut v = gassume();
        v.push("trees given by the caller of partial are valid witnesses of the leaf".into());
        v
    }
}

pub struct C23;
impl Prop for C23 {
    type Case = GCase;
    fn id(&self) -> &'static str {
        "C23"
    }
    fn rule(&self) -> &'static str {
        "a case is non-trivial if at least one registration conflicts with an earlier one and at least two do not; duplicates removed by hashing the case"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 80_000,
            Tier::Thorough => 4_000_000,
        }
    }
    fn class_of(&self, i: u64, _: Tier) -> usize {
        match i % 100 {
            0..=74 => 0,
            75..=98 => 1,
            _ if i % 1000 == 999 => 3,
            _ => 2,
        }
    }
    fn strategy(&self, class: usize, _: Tier) -> BoxedStrategy<GCase> {
        gcase(class)
    }
    fn check(&self, c: &GCase, st: &mut Stats) -> Res {
        let all: Vec<usize> = (0..c.regs.len()).collect();
        for order in [all.clone(), shuffled(all.len(), c.shuffle)] {
            // each conflict on top of what was accepted before it
            let mut acc: Vec<usize> = vec![];
            let mut m = Model::default();
            let mut conflicts = 0;
            for i in order {
                let r = &c.regs[i];
                let (p, ty) = (c.path(r), GCase::ty(r));
                match m.conflict(&p, ty) {
                    None => {
                        acc.push(i);
                        m.add(p, ty, MD::for_type(ty, r.seed));
                    }
                    Some(_) if acc.len() > 40 && conflicts > 3 => {}
                    Some(why) => {
                        conflicts += 1;
                        st.class(&format!("refused: {}", why));
                        let mut b = GroupBuilder::default();
                        for j in &acc {
                            let r = &c.regs[*j];
                            b = (TYPES[GCase::ty(r)].insert)(b, &c.path(r), MD::for_type(GCase::ty(r), r.seed).real(), r.how);
                        }
                        ensure!(panics(|| (TYPES[ty].insert)(b, &p, MD::for_type(ty, r.seed).real(), r.how)), "registering {:?} succeeded although {}; registered: {:?}", p, why, m.paths);
                    }
                }
            }
            if conflicts > 0 && acc.len() > 1 {
                st.mark();
            }
            let (mut g, mut m) = build(c, &acc, st)?.ok_or("nothing registered")?;
            stats(&m, st);
            for k in 0..=c.edits.len() {
                for (ty, d) in &m.data {
                    let same = guarded(|| Ok((TYPES[*ty].get)(&g).same(d)))?;
                    ensure!(same, "get for type {} shows other contents than {:?}", ty, d);
                    let same = guarded(|| Ok((TYPES[*ty].get_mut)(&mut g).same(d)))?;
                    ensure!(same, "get_mut for type {} shows other contents than {:?}", ty, d);
                }
                edit(c, &mut g, &mut m, k);
            }
            for ty in (0..8).chain(SIZED..SIZED + 3).chain(c.probes.iter().map(|p| *p as usize % ntypes())) {
                if !m.data.contains_key(&ty) {
                    ensure!(panics(|| (TYPES[ty].get)(&g)), "get for the unregistered type {} succeeded", ty);
                    ensure!(panics(|| (TYPES[ty].get_mut)(&mut g)), "get_mut for the unregistered type {} succeeded", ty);
                }
            }
            // the same leaves on their own, behind the type-erased interface of a leaf
            for (own, d) in m.data.iter().take(6) {
                let mut x = (TYPES[*own].leaf)(d.real());
                for ty in (0..8).chain(SIZED..SIZED + 3).chain(c.probes.iter().map(|p| *p as usize % ntypes())).chain([*own]) {
                    let t = &TYPES[ty];
                    let (is, r, w) = guarded(|| Ok(((t.is)(&*x), (t.peek)(&*x).is_some(), (t.peek_mut)(&mut *x).is_some())))?;
                    let want = ty == *own;
                    ensure!(is == want && r == want && w == want, "a leaf of type {} asked for type {}: is {}, downcast_ref {}, downcast_mut {}", own, ty, is, r, w);
                }
                let same = guarded(|| Ok((TYPES[*own].peek)(&*x).map_or(false, |y| y.same(d)) && (TYPES[*own].peek_mut)(&mut *x).map_or(false, |y| y.same(d))))?;
                ensure!(same, "a downcast leaf of type {} shows other contents than {:?}", own, d);
            }
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        gassume()
    }
}
