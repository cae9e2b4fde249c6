//! All shapes the search tree can take with few entries, each with a history that leads to it.
//! The shapes come from a model of left-leaning red-black trees, not from the code under test: they
//! only choose histories.
use super::sut::*;
use std::collections::{HashMap, VecDeque};

#[derive(Clone, Debug)]
struct N {
    red: bool,
    l: B,
    r: B,
}
type B = Option<Box<N>>;

fn red(b: &B) -> bool {
    b.as_ref().map_or(false, |n| n.red)
}
fn rot_right(mut h: Box<N>) -> Box<N> {
    let mut x = h.l.take().unwrap();
    h.l = x.r.take();
    x.red = h.red;
    h.red = true;
    x.r = Some(h);
    x
}
fn rot_left(mut h: Box<N>) -> Box<N> {
    let mut x = h.r.take().unwrap();
    h.r = x.l.take();
    x.red = h.red;
    h.red = true;
    x.l = Some(h);
    x
}
fn flip(h: &mut N) {
    h.red = !h.red;
    for c in [&mut h.l, &mut h.r] {
        let c = c.as_mut().unwrap();
        c.red = !c.red;
    }
}
fn balance(mut h: Box<N>) -> Box<N> {
    if red(&h.r) && !red(&h.l) {
        h = rot_left(h);
    }
    if red(&h.l) && red(&h.l.as_ref().unwrap().l) {
        h = rot_right(h);
    }
    if red(&h.l) && red(&h.r) {
        flip(&mut h);
    }
    h
}
fn size(b: &B) -> usize {
    b.as_ref().map_or(0, |n| 1 + size(&n.l) + size(&n.r))
}
fn ins(b: B, gap: usize) -> Box<N> {
    let mut h = match b {
        None => return Box::new(N { red: true, l: None, r: None }),
        Some(h) => h,
    };
    let s = size(&h.l);
    if gap <= s {
        h.l = Some(ins(h.l.take(), gap));
    } else {
        h.r = Some(ins(h.r.take(), gap - s - 1));
    }
    balance(h)
}
fn move_left(mut h: Box<N>) -> Box<N> {
    flip(&mut h);
    if red(&h.r.as_ref().unwrap().l) {
        h.r = h.r.take().map(rot_right);
        h = rot_left(h);
        flip(&mut h);
    }
    h
}
fn move_right(mut h: Box<N>) -> Box<N> {
    flip(&mut h);
    if red(&h.l.as_ref().unwrap().l) {
        h = rot_right(h);
        flip(&mut h);
    }
    h
}
fn grand(b: &B) -> bool {
    b.as_ref().map_or(false, |n| red(&n.l))
}
fn del_min(mut h: Box<N>) -> B {
    if h.l.is_none() {
        return None;
    }
    if !red(&h.l) && !grand(&h.l) {
        h = move_left(h);
    }
    h.l = del_min(h.l.take().unwrap());
    Some(balance(h))
}
fn del(mut h: Box<N>, rank: usize) -> B {
    if rank < size(&h.l) {
        if !red(&h.l) && !grand(&h.l) {
            h = move_left(h);
        }
        h.l = del(h.l.take().unwrap(), rank);
    } else {
        if red(&h.l) {
            h = rot_right(h);
        }
        if rank == size(&h.l) && h.r.is_none() {
            return None;
        }
        if !red(&h.r) && !grand(&h.r) {
            h = move_right(h);
        }
        let s = size(&h.l);
        if rank == s {
            h.r = del_min(h.r.take().unwrap());
        } else {
            h.r = del(h.r.take().unwrap(), rank - s - 1);
        }
    }
    Some(balance(h))
}
fn sig(b: &B, out: &mut Vec<u8>) {
    match b {
        None => out.push(0),
        Some(n) => {
            out.push(1 + n.red as u8);
            sig(&n.l, out);
            sig(&n.r, out);
        }
    }
}

#[derive(Clone, Copy, Debug)]
pub enum Step {
    /// before the entry of this rank
    Ins(usize),
    Del(usize),
}
fn step(b: &B, s: Step) -> B {
    let mut x = b.clone();
    match s {
        Step::Ins(g) => x = Some(ins(x.take(), g)),
        Step::Del(r) => {
            let mut h = x.take().unwrap();
            if !red(&h.l) && !red(&h.r) {
                h.red = true;
            }
            x = del(h, r);
        }
    }
    if let Some(n) = &mut x {
        n.red = false;
    }
    x
}

/// One shortest history for every shape of up to `max` entries, breadth first, with its size.
pub fn shapes(max: usize) -> Vec<(Vec<Step>, usize)> {
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    let mut out = vec![];
    let mut q: VecDeque<(B, Vec<Step>)> = VecDeque::new();
    q.push_back((None, vec![]));
    seen.insert(vec![0], ());
    while let Some((b, path)) = q.pop_front() {
        let n = size(&b);
        for s in (0..=n).map(Step::Ins).chain((0..n).map(Step::Del)) {
            if matches!(s, Step::Ins(_)) && n == max {
                continue;
            }
            let x = step(&b, s);
            let mut k = vec![];
            sig(&x, &mut k);
            if seen.insert(k, ()).is_none() {
                let mut p = path.clone();
                p.push(s);
                q.push_back((x, p));
            }
        }
        out.push((path, n));
    }
    out.sort_by_key(|x| x.1);
    out
}

/// A history over places in a line: inserted or removed, place; then the places of the final
/// entries, and the number of places.
pub fn realise(path: &[Step]) -> (Vec<(bool, usize)>, Vec<usize>, usize) {
    // the line of all entries ever made, by identity
    let (mut line, mut live): (Vec<usize>, Vec<usize>) = (vec![], vec![]);
    let mut hist = vec![];
    for s in path {
        match *s {
            Step::Ins(g) => {
                let id = line.len();
                let at = if g == 0 { 0 } else { line.iter().position(|x| *x == live[g - 1]).unwrap() + 1 };
                line.insert(at, id);
                live.insert(g, id);
                hist.push((true, id));
            }
            Step::Del(r) => hist.push((false, live.remove(r))),
        }
    }
    let place = |id: usize| line.iter().position(|x| *x == id).unwrap();
    (hist.iter().map(|(i, id)| (*i, place(*id))).collect(), live.iter().map(|id| place(*id)).collect(), line.len())
}

/// What is done to a tree of some shape.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Act {
    None,
    Ins(usize),
    Replace(usize),
    Remove(usize),
    Change(usize),
    OrDefault(usize),
}

fn acts(n: usize) -> Vec<Act> {
    let mut v = vec![Act::None];
    v.extend((0..=n).map(Act::Ins));
    for r in 0..n {
        v.extend([Act::Remove(r), Act::Change(r), Act::Replace(r), Act::OrDefault(r)]);
    }
    v
}

/// The cases for all shapes of up to `max` entries: every act on each of them. Each is looked at
/// once, at the end.
pub fn cases(max: usize, combos: &[u8]) -> Vec<MapCase> {
    let mut out = vec![];
    for (path, n) in shapes(max) {
        for a in acts(n) {
            let k = out.len() as u32;
            let mut p = path.clone();
            match a {
                Act::Ins(g) => p.push(Step::Ins(g)),
                Act::Remove(r) => p.push(Step::Del(r)),
                _ => {}
            }
            let (hist, live, places) = realise(&p);
            let idx = |place: usize| 2 * place as u32 + 1;
            let mut ops: Vec<Op> = hist.iter().map(|(i, x)| if *i { Op::Insert(idx(*x), *x as u32 * 7 + k % 5) } else { Op::Remove(idx(*x)) }).collect();
            match a {
                Act::Change(r) if k % 2 == 0 => ops.push(Op::GetMut(idx(live[r]), 77 + k % 9)),
                Act::Change(r) => ops.push(Op::AndModify(idx(live[r]), 77 + k % 9, 1)),
                Act::Replace(r) => ops.push(Op::Insert(idx(live[r]), 3000 + k % 9)),
                Act::OrDefault(r) => ops.push(Op::OrDefault(idx(live[r]), Some(k % 9))),
                _ => {}
            }
            // probes[0] says that only the end is looked at
            let mut probes = vec![3];
            probes.extend(0..(2 * places as u32 + 1).min(64));
            out.push(MapCase {
                combo: combos[k as usize % combos.len()],
                tree: k / combos.len() as u32 % 2 == 0,
                pool: Pool::Dense { pre: vec![b'k'], stride: [1, 3, 256, 86][k as usize % 4], base: [0, 250, 65_400][k as usize / 4 % 3] },
                ops,
                probes,
            });
        }
    }
    out
}

/// The cases for prefixes: every group of neighbours of every shape has a prefix of its own.
/// Key types: byte strings, strings and the composite key.
pub fn prefix_cases(max: usize, combos: &[u8]) -> Vec<MapCase> {
    let mut out = vec![];
    for (path, n) in shapes(max) {
        let (hist, live, places) = realise(&path);
        for a in 0..=n {
            for b in a..=n {
                let k = out.len();
                // entries below the group, in it, and above it; the first one in it may be the prefix itself
                let from = if a < n { live[a] } else { places };
                let to = if b > a { live[b - 1] + 1 } else { from };
                let mut pool: Vec<Vec<u8>> = (0..places)
                    .map(|x| match () {
                        _ if x < from => vec![1, x as u8],
                        _ if x == from && x < to && k % 2 == 0 => vec![2],
                        _ if x < to => vec![2, x as u8],
                        _ => vec![3, x as u8],
                    })
                    .collect();
                pool.extend([vec![2u8], vec![2, 0], vec![2, 0xff], vec![1], vec![3], vec![], vec![1, 0xff], vec![3, 0]]);
                let mut ops: Vec<Op> = hist.iter().map(|(i, x)| if *i { Op::Insert(*x as u32, *x as u32 * 7) } else { Op::Remove(*x as u32) }).collect();
                if k % 3 == 0 {
                    ops.push(Op::ModMax(places as u32, 9 + k as u32 % 50));
                }
                let mut probes = vec![3];
                probes.extend(0..pool.len() as u32);
                out.push(MapCase { combo: combos[k % combos.len()], tree: k / combos.len() % 2 == 0, pool: Pool::Raw(pool), ops, probes });
            }
        }
    }
    out
}

#[cfg(test)]
mod t {
    #[test]
    fn count() {
        for n in 0..15 {
            let s = super::shapes(n);
            let c: usize = s.iter().map(|x| super::acts(x.1).len()).sum();
            println!("{} {} {} longest {}", n, s.len(), c, s.iter().map(|x| x.0.len()).max().unwrap());
        }
    }
}
