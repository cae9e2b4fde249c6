//! The checks. Which of them are compiled in is chosen by cargo features (see run.sh).
#![allow(dead_code)]
#[cfg(feature = "codec")]
pub mod codec;
#[cfg(feature = "misc")]
pub mod cost;
#[cfg(feature = "codec")]
pub mod huge;
#[cfg(feature = "maps")]
pub mod enc;
#[cfg(any(feature = "groups", feature = "cross"))]
pub mod group;
#[cfg(feature = "misc")]
pub mod fault;
#[cfg(feature = "misc")]
pub mod ht;
#[cfg(feature = "cross")]
pub mod cross;
#[cfg(not(feature = "life"))]
pub mod keys;
#[cfg(feature = "life")]
pub mod life;
#[cfg(feature = "maps")]
pub mod mapprops;
#[cfg(feature = "maps")]
pub mod nested;
#[cfg(feature = "misc")]
pub mod own;
#[cfg(not(feature = "life"))]
pub mod paged;
#[cfg(not(feature = "life"))]
pub mod seq;
#[cfg(feature = "maps")]
pub mod shapes;
#[cfg(not(feature = "life"))]
pub mod sut;
#[cfg(not(feature = "life"))]
pub mod vals;

use crate::engine::{DynProp, W};

pub fn all() -> Vec<Box<dyn DynProp>> {
    let mut v: Vec<Box<dyn DynProp>> = vec![];
    #[cfg(feature = "maps")]
    {
        v.push(Box::new(W(mapprops::C01)));
        v.push(Box::new(W(mapprops::C02)));
        v.push(Box::new(W(mapprops::C03)));
        v.push(Box::new(W(mapprops::C04)));
        v.push(Box::new(W(mapprops::C05)));
        v.push(Box::new(W(mapprops::C06)));
        v.push(Box::new(W(mapprops::C07)));
        v.push(Box::new(W(nested::C08)));
        v.push(Box::new(W(mapprops::C09)));
        v.push(Box::new(W(enc::C13)));
        v.push(Box::new(W(enc::C14)));
    }
    #[cfg(feature = "misc")]
    {
        v.push(Box::new(W(own::C10)));
        v.push(Box::new(W(ht::C11)));
        v.push(Box::new(W(ht::C12)));
        v.push(Box::new(W(seq::C15)));
        v.push(Box::new(W(paged::C17)));
        v.push(Box::new(W(paged::C18)));
        v.push(Box::new(W(fault::C24)));
        v.push(Box::new(W(cost::C27)));
    }
    #[cfg(feature = "groups")]
    {
        v.push(Box::new(W(group::C19)));
        v.push(Box::new(W(group::C20)));
        v.push(Box::new(W(group::C23)));
    }
    #[cfg(feature = "codec")]
    {
        v.push(Box::new(W(codec::C16)));
        v.push(Box::new(W(codec::C25)));
    }
    #[cfg(feature = "cross")]
    {
        v.push(Box::new(W(cross::C21)));
        v.push(Box::new(W(cross::C22)));
    }
    #[cfg(feature = "life")]
    v.push(Box::new(W(life::C26)));
    v
}
pub fn get(id: &str) -> Option<Box<dyn DynProp>> {
    all().into_iter().find(|p| p.id() == id)
}

/// A writer that fails once it has taken so many bytes.
pub struct Short(usize);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.0);
        self.0 -= n;
        if n == 0 && !b.is_empty() {
            return Err(std::io::Error::new(std::io::ErrorKind::Other, "no space left"));
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// Encoding into a writer that fails before the last of the `len` bytes must fail.
pub fn short_output(what: &str, len: usize, encodes: impl Fn(Short) -> bool) -> crate::engine::Res {
    // all cuts of a short encoding; otherwise both ends and some places in between
    let cuts: Vec<usize> = if len <= 24 {
        (0..len).collect()
    } else if len > 5000 {
        vec![len / 2, len - 1]
    } else {
        (0..4).chain((1..10).map(|i| len * i / 10)).chain(len - 4..len).collect()
    };
    for n in cuts {
        if encodes(Short(n)) {
            return Err(format!("encoding {} of {} bytes into a writer that takes only {} bytes reports success", what, len, n));
        }
    }
    Ok(())
}
