//! Independent model of the Internet Computer hash tree: hashing, CBOR form, lookup.
//! Nothing here calls the code under test, except the structural conversion `T::from_ht`.
use certified_vars::hashtree::ForkInner;
use certified_vars::HashTree;
use sha2::{Digest, Sha256};
use std::borrow::Cow;
use std::fmt;

pub type H = [u8; 32];

#[derive(Clone, PartialEq, Eq, PartialOrd, Ord)]
pub enum T {
    Empty,
    Fork(Box<T>, Box<T>),
    Lab(Vec<u8>, Box<T>),
    Leaf(Vec<u8>),
    Pruned(H),
}

impl fmt::Debug for T {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            T::Empty => write!(f, "E"),
            T::Fork(a, b) => write!(f, "F({:?}, {:?})", a, b),
            T::Lab(l, t) => write!(f, "L({}, {:?})", hx(l), t),
            T::Leaf(v) => write!(f, "V({})", hx(v)),
            T::Pruned(h) => write!(f, "P({}..)", hx(&h[..4])),
        }
    }
}

pub fn hx(b: &[u8]) -> String {
    let mut s = String::new();
    for x in b.iter().take(48) {
        s.push_str(&format!("{:02x}", x));
    }
    if b.len() > 48 {
        s.push_str(&format!("..({} bytes)", b.len()));
    }
    s
}

pub fn sha(parts: &[&[u8]]) -> H {
    let mut h = Sha256::new();
    for p in parts {
        h.update(p);
    }
    h.finalize().into()
}

pub fn h_empty() -> H {
    sha(&[b"\x11ic-hashtree-empty"])
}
pub fn h_fork(a: &H, b: &H) -> H {
    sha(&[b"\x10ic-hashtree-fork", a, b])
}
pub fn h_lab(l: &[u8], t: &H) -> H {
    sha(&[b"\x13ic-hashtree-labeled", l, t])
}
pub fn h_leaf(v: &[u8]) -> H {
    sha(&[b"\x10ic-hashtree-leaf", v])
}

impl T {
    pub fn from_ht(t: &HashTree<'_>) -> T {
        match t {
            HashTree::Empty => T::Empty,
            HashTree::Fork(f) => T::Fork(Box::new(T::from_ht(&f.0)), Box::new(T::from_ht(&f.1))),
            HashTree::Labeled(l, t) => T::Lab(l.to_vec(), Box::new(T::from_ht(t))),
            HashTree::Leaf(v) => T::Leaf(v.to_vec()),
            HashTree::Pruned(h) => T::Pruned(*h),
        }
    }

    /// Borrowed form of the code under test.
    pub fn to_ht(&self) -> HashTree<'_> {
        match self {
            T::Empty => HashTree::Empty,
            T::Fork(a, b) => HashTree::Fork(Box::new(ForkInner(a.to_ht(), b.to_ht()))),
            T::Lab(l, t) => HashTree::Labeled(Cow::Borrowed(l), Box::new(t.to_ht())),
            T::Leaf(v) => HashTree::Leaf(Cow::Borrowed(v)),
            T::Pruned(h) => HashTree::Pruned(*h),
        }
    }

    /// Same, with owned byte strings.
    pub fn to_ht_owned(&self) -> HashTree<'static> {
        match self {
            T::Empty => HashTree::Empty,
            T::Fork(a, b) => HashTree::Fork(Box::new(ForkInner(a.to_ht_owned(), b.to_ht_owned()))),
            T::Lab(l, t) => HashTree::Labeled(Cow::Owned(l.clone()), Box::new(t.to_ht_owned())),
            T::Leaf(v) => HashTree::Leaf(Cow::Owned(v.clone())),
            T::Pruned(h) => HashTree::Pruned(*h),
        }
    }

    pub fn hash(&self) -> H {
        match self {
            T::Empty => h_empty(),
            T::Fork(a, b) => h_fork(&a.hash(), &b.hash()),
            T::Lab(l, t) => h_lab(l, &t.hash()),
            T::Leaf(v) => h_leaf(v),
            T::Pruned(h) => *h,
        }
    }

    pub fn size(&self) -> usize {
        match self {
            T::Fork(a, b) => 1 + a.size() + b.size(),
            T::Lab(_, t) => 1 + t.size(),
            _ => 1,
        }
    }

    /// Levels of nodes.
    pub fn depth(&self) -> usize {
        match self {
            T::Fork(a, b) => 1 + a.depth().max(b.depth()),
            T::Lab(_, t) => 1 + t.depth(),
            _ => 1,
        }
    }

    // ---- CBOR as the interface specification defines it ----
    pub fn cbor(&self) -> Vec<u8> {
        let mut o = Vec::new();
        self.cbor_to(&mut o);
        o
    }
    fn cbor_to(&self, o: &mut Vec<u8>) {
        match self {
            T::Empty => o.extend([0x81, 0x00]),
            T::Fork(a, b) => {
                o.extend([0x83, 0x01]);
                a.cbor_to(o);
                b.cbor_to(o);
            }
            T::Lab(l, t) => {
                o.extend([0x83, 0x02]);
                cbor_bytes(l, o);
                t.cbor_to(o);
            }
            T::Leaf(v) => {
                o.extend([0x82, 0x03]);
                cbor_bytes(v, o);
            }
            T::Pruned(h) => {
                o.extend([0x82, 0x04]);
                cbor_bytes(h, o);
            }
        }
    }

    pub fn from_cbor(b: &[u8]) -> Result<T, String> {
        let mut p = 0;
        let t = dec(b, &mut p)?;
        if p != b.len() {
            return Err(format!("{} trailing bytes", b.len() - p));
        }
        Ok(t)
    }

    pub fn flatten<'a>(&'a self, out: &mut Vec<&'a T>) {
        match self {
            T::Empty => {}
            T::Fork(a, b) => {
                a.flatten(out);
                b.flatten(out);
            }
            t => out.push(t),
        }
    }

    pub fn labels(&self, out: &mut Vec<Vec<u8>>) {
        match self {
            T::Lab(l, t) => {
                out.push(l.clone());
                t.labels(out);
            }
            T::Fork(a, b) => {
                a.labels(out);
                b.labels(out);
            }
            _ => {}
        }
    }

    pub fn leaves(&self, out: &mut Vec<Vec<u8>>) {
        match self {
            T::Leaf(v) => out.push(v.clone()),
            T::Lab(_, t) => t.leaves(out),
            T::Fork(a, b) => {
                a.leaves(out);
                b.leaves(out);
            }
            _ => {}
        }
    }

    /// Maximal number of forks above any label, leaf or hash (not counting inside labels).
    pub fn fork_depth(&self) -> usize {
        match self {
            T::Fork(a, b) => 1 + a.fork_depth().max(b.fork_depth()),
            _ => 0,
        }
    }
}

pub fn cbor_head(major: u8, n: u64, o: &mut Vec<u8>) {
    let m = major << 5;
    if n < 24 {
        o.push(m | n as u8);
    } else if n < 256 {
        o.extend([m | 24, n as u8]);
    } else if n < 65536 {
        o.push(m | 25);
        o.extend((n as u16).to_be_bytes());
    } else if n < 1 << 32 {
        o.push(m | 26);
        o.extend((n as u32).to_be_bytes());
    } else {
        o.push(m | 27);
        o.extend(n.to_be_bytes());
    }
}
pub fn cbor_bytes(b: &[u8], o: &mut Vec<u8>) {
    cbor_head(2, b.len() as u64, o);
    o.extend_from_slice(b);
}

fn head(b: &[u8], p: &mut usize) -> Result<(u8, u64), String> {
    let x = *b.get(*p).ok_or("truncated")?;
    *p += 1;
    let (m, a) = (x >> 5, x & 31);
    let n = match a {
        0..=23 => return Ok((m, a as u64)),
        24 => 1,
        25 => 2,
        26 => 4,
        27 => 8,
        _ => return Err(format!("unsupported head {:02x}", x)),
    };
    let s = b.get(*p..*p + n).ok_or("truncated")?;
    *p += n;
    Ok((m, s.iter().fold(0u64, |v, x| v << 8 | *x as u64)))
}
fn bytes(b: &[u8], p: &mut usize) -> Result<Vec<u8>, String> {
    match head(b, p)? {
        (2, n) => {
            let s = b.get(*p..*p + n as usize).ok_or("truncated")?;
            *p += n as usize;
            Ok(s.to_vec())
        }
        (m, _) => Err(format!("expected a byte string, found major type {}", m)),
    }
}
fn dec(b: &[u8], p: &mut usize) -> Result<T, String> {
    let n = match head(b, p)? {
        (4, n) => n,
        (m, _) => return Err(format!("expected an array, found major type {}", m)),
    };
    let tag = match head(b, p)? {
        (0, t) => t,
        (m, _) => return Err(format!("expected a tag number, found major type {}", m)),
    };
    match (tag, n) {
        (0, 1) => Ok(T::Empty),
        (1, 3) => Ok(T::Fork(Box::new(dec(b, p)?), Box::new(dec(b, p)?))),
        (2, 3) => Ok(T::Lab(bytes(b, p)?, Box::new(dec(b, p)?))),
        (3, 2) => Ok(T::Leaf(bytes(b, p)?)),
        (4, 2) => {
            let h = bytes(b, p)?;
            Ok(T::Pruned(h.try_into().map_err(|_| "pruned hash is not 32 bytes")?))
        }
        (t, n) => Err(format!("bad node: tag {} in array of {}", t, n)),
    }
}

/// Outcome of the specification's `lookup_path`.
#[derive(Clone, Debug, PartialEq)]
pub enum Look<'a> {
    Absent,
    Unknown,
    Found(&'a T),
}

/// `find_label` of the interface specification, rule by rule.
pub fn find_label<'a>(l: &[u8], ts: &[&'a T]) -> Look<'a> {
    for t in ts {
        if let T::Lab(l1, sub) = t {
            if l1 == l {
                return Look::Found(sub);
            }
        }
    }
    for w in ts.windows(2) {
        if let (T::Lab(a, _), T::Lab(b, _)) = (w[0], w[1]) {
            if &a[..] < l && l < &b[..] {
                return Look::Absent;
            }
        }
    }
    if let Some(T::Lab(a, _)) = ts.first() {
        if l < &a[..] {
            return Look::Absent;
        }
    }
    if let Some(T::Lab(a, _)) = ts.last() {
        if &a[..] < l {
            return Look::Absent;
        }
    }
    match ts {
        [] | [T::Leaf(_)] => Look::Absent,
        _ => Look::Unknown,
    }
}

pub fn lookup<'a>(t: &'a T, path: &[&[u8]]) -> Look<'a> {
    match path.split_first() {
        None => match t {
            T::Pruned(_) => Look::Found(t),
            _ => Look::Found(t),
        },
        Some((l, rest)) => {
            let mut fl = Vec::new();
            t.flatten(&mut fl);
            match find_label(l, &fl) {
                Look::Found(s) => lookup(s, rest),
                x => x,
            }
        }
    }
}

/// One element of the in-order view of a map level.
#[derive(Clone, Debug, PartialEq)]
pub enum Item {
    Gap,
    Lab(Vec<u8>, T),
}

/// The in-order view of one level: labels and merged pruned gaps.
pub fn items(t: &T) -> Result<Vec<Item>, String> {
    let mut fl = Vec::new();
    t.flatten(&mut fl);
    let mut out: Vec<Item> = Vec::new();
    for x in fl {
        match x {
            T::Pruned(_) => {
                if out.last() != Some(&Item::Gap) {
                    out.push(Item::Gap)
                }
            }
            T::Lab(l, s) => out.push(Item::Lab(l.clone(), (**s).clone())),
            x => return Err(format!("unexpected {:?} among the entries", x)),
        }
    }
    Ok(out)
}

pub fn show_items(v: &[Item]) -> String {
    let mut s = String::from("[");
    for (i, x) in v.iter().enumerate() {
        if i > 0 {
            s.push_str(", ");
        }
        if i > 40 {
            s.push_str("..");
            break;
        }
        match x {
            Item::Gap => s.push_str("gap"),
            Item::Lab(l, t) => s.push_str(&format!("{}={:?}", hx(l), t)),
        }
    }
    s.push(']');
    s
}
