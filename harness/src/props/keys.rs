//! Key types, each with an independent oracle for its label and its prefix relation.
use super::sut::Ct;
use super::vals::HV;
use candid::Principal;
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::RbTree;
use certified_vars::HashTree;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use std::borrow::{Borrow, Cow};
use std::cmp::Ordering;
use std::fmt::Debug;
use std::rc::Rc;
use std::sync::Arc;

pub trait HK: Label + Ord + Clone + Debug + Serialize + DeserializeOwned + Borrow<Self::Q> + 'static {
    const NAME: &'static str;
    /// Key order is the byte order of the labels (so that the specification's lookup applies).
    const ORDERED: bool;
    /// Some(signature) if the key type has a listed defect in that order.
    const SIG: Option<&'static str> = None;
    const HAS_PREFIX: bool = false;
    /// The borrowed form used for lookups.
    type Q: ?Sized + Ord;
    fn mk(raw: &[u8]) -> Self;
    /// The documented label, computed without the code under test.
    fn lab(&self) -> Vec<u8>;

    // ---- prefixes (None: the type has none) ----
    fn keys_with_prefix<'a, V: HV>(_c: &'a Ct<Self, V>, _raw: &[u8]) -> Option<HashTree<'a>> {
        None
    }
    #[allow(clippy::type_complexity)]
    fn max_with_prefix<'a, V: HV>(_c: &'a RbTree<Self, V>, _raw: &[u8]) -> Option<Option<(&'a Self, &'a V)>> {
        None
    }
    fn modify_max<V: HV>(_c: &mut RbTree<Self, V>, _raw: &[u8], _f: &mut dyn FnMut(&Self, &mut V)) -> Option<bool> {
        None
    }
    /// Does the key carry the prefix made from `raw`?
    fn carries(&self, _raw: &[u8]) -> bool {
        false
    }
    /// Order of the key's borrowed prefix form relative to the prefix made from `raw`.
    fn pcmp(&self, _raw: &[u8]) -> Ordering {
        Ordering::Equal
    }
}

macro_rules! prefix_impl {
    // $mk: expression from &[u8] to &P
    ($p:ty, $raw:ident => $mk:expr, $s:ident, $pp:ident => $carries:expr) => {
        const HAS_PREFIX: bool = true;
        fn keys_with_prefix<'a, V: HV>(c: &'a Ct<Self, V>, $raw: &[u8]) -> Option<HashTree<'a>> {
            let p: &$p = $mk;
            Some(match c {
                Ct::Map(m) => m.witness_keys_with_prefix::<$p>(p),
                Ct::Tree(t) => t.keys_with_prefix::<$p>(p),
            })
        }
        fn max_with_prefix<'a, V: HV>(c: &'a RbTree<Self, V>, $raw: &[u8]) -> Option<Option<(&'a Self, &'a V)>> {
            let p: &$p = $mk;
            Some(c.max_entry_with_prefix::<$p>(p))
        }
        fn modify_max<V: HV>(c: &mut RbTree<Self, V>, $raw: &[u8], f: &mut dyn FnMut(&Self, &mut V)) -> Option<bool> {
            let p: &$p = $mk;
            Some(c.modify_max_with_prefix::<$p, ()>(p, |k, v| f(k, v)).is_some())
        }
        fn carries(&self, $raw: &[u8]) -> bool {
            let $pp: &$p = $mk;
            let $s = self;
            $carries
        }
        fn pcmp(&self, $raw: &[u8]) -> Ordering {
            let p: &$p = $mk;
            Borrow::<$p>::borrow(self).cmp(p)
        }
    };
}

impl HK for Vec<u8> {
    const NAME: &'static str = "Vec<u8>";
    const ORDERED: bool = true;
    type Q = [u8];
    fn mk(raw: &[u8]) -> Self {
        raw.to_vec()
    }
    fn lab(&self) -> Vec<u8> {
        self.clone()
    }
    prefix_impl!([u8], raw => raw, s, p => s.len() >= p.len() && s[..p.len()] == *p);
}

impl HK for Box<[u8]> {
    const NAME: &'static str = "Box<[u8]>";
    const ORDERED: bool = true;
    type Q = [u8];
    fn mk(raw: &[u8]) -> Self {
        raw.to_vec().into_boxed_slice()
    }
    fn lab(&self) -> Vec<u8> {
        self.to_vec()
    }
    prefix_impl!([u8], raw => raw, s, p => s.len() >= p.len() && s[..p.len()] == *p);
}

/// Bytes to characters of 1 to 4 UTF-8 bytes, order preserving.
pub fn mk_string(raw: &[u8]) -> String {
    raw.iter()
        .map(|b| {
            let b = *b as u32;
            let c = match b {
                0..=127 => b,
                128..=191 => 0x80 + (b - 128) * 24,
                192..=223 => 0x800 + (b - 192) * 1000,
                224..=239 => 0xE000 + (b - 224) * 500,
                _ => 0x10000 + (b - 240) * 60000,
            };
            char::from_u32(c).unwrap()
        })
        .collect()
}

impl HK for String {
    const NAME: &'static str = "String";
    const ORDERED: bool = true;
    type Q = str;
    fn mk(raw: &[u8]) -> Self {
        mk_string(raw)
    }
    fn lab(&self) -> Vec<u8> {
        self.as_bytes().to_vec()
    }
    prefix_impl!(str, raw => &mk_string(raw), s, p => s.len() >= p.len() && s.as_bytes()[..p.len()] == *p.as_bytes());
}

/// `N` bytes made from any number of bytes; short ones are padded.
pub fn fixed<const N: usize>(raw: &[u8]) -> [u8; N] {
    let mut o = [0u8; N];
    for (i, b) in raw.iter().enumerate() {
        if i < N {
            o[i] = *b;
        } else {
            o[N - 1] = o[N - 1].wrapping_mul(31).wrapping_add(*b);
        }
    }
    o
}

macro_rules! arr {
    ($($n:expr, $name:expr);*) => {$(
        impl HK for [u8; $n] {
            const NAME: &'static str = $name;
            const ORDERED: bool = true;
            type Q = [u8];
            fn mk(raw: &[u8]) -> Self {
                fixed::<$n>(raw)
            }
            fn lab(&self) -> Vec<u8> {
                self.to_vec()
            }
            prefix_impl!([u8], raw => raw, s, p => s.len() >= p.len() && s[..p.len()] == *p);
        }
    )*};
}
arr!(1, "[u8;1]"; 3, "[u8;3]"; 8, "[u8;8]"; 32, "[u8;32]");

macro_rules! ints {
    ($($t:ty, $n:expr, $name:expr, $ord:expr, $sig:expr);*) => {$(
        impl HK for $t {
            const NAME: &'static str = $name;
            const ORDERED: bool = $ord;
            const SIG: Option<&'static str> = $sig;
            type Q = $t;
            fn mk(raw: &[u8]) -> Self {
                let mut x: u128 = 0;
                for b in fixed::<$n>(raw) {
                    x = x << 8 | b as u128;
                }
                x as $t
            }
            fn lab(&self) -> Vec<u8> {
                let mut v = Vec::new();
                let mut x = *self as u128;
                for _ in 0..$n {
                    v.push((x & 255) as u8);
                    x >>= 8;
                }
                v.reverse();
                v
            }
        }
    )*};
}
ints!(u8, 1, "u8", true, None; u16, 2, "u16", true, None; u32, 4, "u32", true, None; u64, 8, "u64", true, None;
    u128, 16, "u128", true, None; usize, 8, "usize", true, None;
    i8, 1, "i8", false, Some("label-order:i8"); i16, 2, "i16", false, Some("label-order:i16");
    i32, 4, "i32", false, Some("label-order:i32"); i64, 8, "i64", false, Some("label-order:i64");
    i128, 16, "i128", false, Some("label-order:i128"); isize, 8, "isize", false, Some("label-order:isize"));

impl HK for bool {
    const NAME: &'static str = "bool";
    const ORDERED: bool = true;
    type Q = bool;
    fn mk(raw: &[u8]) -> Self {
        raw.iter().fold(0u8, |a, b| a ^ b).count_ones() % 2 == 1
    }
    fn lab(&self) -> Vec<u8> {
        vec![if *self { 1 } else { 0 }]
    }
}

impl HK for Principal {
    const NAME: &'static str = "Principal";
    const ORDERED: bool = false;
    const SIG: Option<&'static str> = Some("label-order:Principal");
    type Q = Principal;
    fn mk(raw: &[u8]) -> Self {
        Principal::try_from_slice(&raw[..raw.len().min(29)]).unwrap()
    }
    fn lab(&self) -> Vec<u8> {
        self.as_slice().to_vec()
    }
}

macro_rules! wrapped {
    ($($w:ident, $t:ty, $name:expr);*) => {$(
        impl HK for $w<$t> {
            const NAME: &'static str = $name;
            const ORDERED: bool = true;
            type Q = $t;
            fn mk(raw: &[u8]) -> Self {
                $w::new(<$t as HK>::mk(raw))
            }
            fn lab(&self) -> Vec<u8> {
                <$t as HK>::lab(&**self)
            }
        }
    )*};
}
wrapped!(Box, u32, "Box<u32>"; Rc, String, "Rc<String>"; Arc, u16, "Arc<u16>"; Box, String, "Box<String>");

/// A composite key of the kind `Prefix` is documented for: fixed-width head, free tail.
#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord, Serialize, Deserialize, candid::CandidType)]
pub struct CK {
    pub a: u16,
    pub b: Vec<u8>,
}
impl Label for CK {
    fn as_label(&self) -> Cow<[u8]> {
        let mut v = self.a.to_be_bytes().to_vec();
        v.extend_from_slice(&self.b);
        Cow::Owned(v)
    }
}
impl Borrow<u16> for CK {
    fn borrow(&self) -> &u16 {
        &self.a
    }
}
impl Prefix<u16> for CK {}
fn ck_head(raw: &[u8]) -> u16 {
    // few heads, so that many keys share one
    match raw.first() {
        None => 0,
        Some(b) => [0u16, 1, 2, 3, 0x80, 0xff, 0x100, 0xffff][(*b % 8) as usize],
    }
}
impl HK for CK {
    const NAME: &'static str = "composite";
    const ORDERED: bool = true;
    type Q = CK;
    fn mk(raw: &[u8]) -> Self {
        CK { a: ck_head(raw), b: raw.get(1..).unwrap_or(&[]).to_vec() }
    }
    fn lab(&self) -> Vec<u8> {
        let mut v = vec![(self.a >> 8) as u8, self.a as u8];
        v.extend_from_slice(&self.b);
        v
    }
    prefix_impl!(u16, raw => &ck_head(raw), s, p => s.a == *p);
}
