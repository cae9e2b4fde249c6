//! C01-C07, C09: histories of Map / RbTree.
use super::shapes;
use super::sut::*;
use crate::engine::*;
use crate::ensure;
use crate::spec::*;
use proptest::prelude::*;
use std::cmp::Ordering;
use std::sync::OnceLock;

fn is_bulk(o: &Op) -> bool {
    matches!(o, Op::Fill { .. } | Op::Drain { .. })
}
fn op_class(o: &Op) -> &'static str {
    match o {
        Op::Insert(..) | Op::InsRef(..) => "op:insert",
        Op::Remove(_) | Op::RemoveEntry(_) => "op:remove",
        Op::GetMut(..) | Op::GetMut2(..) => "op:get_mut/modify",
        Op::ModMax(..) => "op:modify_max_with_prefix",
        Op::OrInsert(..) | Op::OrInsertWith(..) | Op::OrInsertWithKey(..) | Op::OrDefault(..) => "op:entry or_*",
        Op::AndModify(..) => "op:entry and_modify",
        Op::EntryMut(..) | Op::IntoMut(..) => "op:entry mutable",
        Op::EntryRemove(_) | Op::EntryRemoveEntry(_) => "op:entry remove",
        Op::EntryLook(_) => "op:entry look",
        Op::Clear => "op:clear",
        Op::Collect(_) => "op:collect",
        Op::Codec(_) => "op:codec round trip",
        Op::Fill { .. } => "op:bulk insert",
        Op::Drain { .. } => "op:bulk remove",
        Op::Read(..) => "op:read",
    }
}
pub fn size_class(n: usize) -> &'static str {
    match n {
        0 => "state: empty",
        1 => "state: 1 entry",
        2..=8 => "state: 2-8 entries",
        9..=64 => "state: 9-64 entries",
        65..=1000 => "state: 65-1000 entries",
        1001..=10000 => "state: 1001-10000 entries",
        _ => "state: >10000 entries",
    }
}

/// Splits bulk steps, so that a check can look in between.
fn split(ops: &[Op], chunk: u32) -> Vec<Op> {
    let mut v = Vec::new();
    for o in ops {
        match o {
            Op::Fill { n, from, order, vs } if *n > chunk => {
                for x in order.seq(*n) {
                    v.push(Op::Insert(from + x, vs + x));
                }
            }
            Op::Drain { n, from, order } if *n > chunk => {
                for x in order.seq(*n) {
                    v.push(Op::Remove(from + x));
                }
            }
            o => v.push(o.clone()),
        }
    }
    v
}

/// Runs the history; `look` is called on states chosen by the case (every step, every other
/// step, ... or only at the end), so that reads do not always come between two writes.
pub fn run_history(c: &MapCase, st: &mut Stats, look: &mut dyn FnMut(&dyn DynSut, usize, bool, &mut Stats) -> Res) -> Res {
    let mut s = make(c.combo, c.tree, c.pool.clone());
    st.class(&format!("type {}", s.name()));
    let every = [1usize, 2, 3, usize::MAX][(c.probes[0] % 4) as usize];
    let (mut maxn, mut removed) = (0, false);
    for (i, o) in c.ops.iter().enumerate() {
        let before = s.n();
        st.class(op_class(o));
        s.apply(o).map_err(|e| format!("{} step {} {:?}: {}", s.name(), i, o, e))?;
        if s.n() < before && !matches!(o, Op::Clear) {
            removed = true;
        }
        maxn = maxn.max(s.n());
        let last = i + 1 == c.ops.len();
        if last || (every != usize::MAX && i % every == 0 && (s.n() <= 100 || is_bulk(o) || i % 5 == 0)) {
            st.class(size_class(s.n()));
            look(&*s, i, last, st).map_err(|e| format!("{} with {} entries after step {} {:?}: {}", s.name(), s.n(), i, o, e))?;
        }
    }
    if c.ops.is_empty() {
        look(&*s, 0, true, st)?;
    }
    if removed && maxn >= 3 {
        st.mark();
    }
    Ok(())
}

const HIST_RULE: &str = "a case counts as non-trivial if its history reached at least 3 entries and removed a present entry (other than by clear); duplicates are removed by hashing the case";

fn cls(idx: u64, per: &[(u64, usize)]) -> usize {
    // per: (modulus, class): class if idx % modulus == modulus-1, first match
    for (m, c) in per {
        if idx % m == m - 1 {
            return *c;
        }
    }
    0
}
const STD: &[(u64, usize)] = &[(797, 3), (29, 2), (4, 1)];

fn combos_for(class: usize, base: Vec<u8>) -> Vec<u8> {
    if class >= 3 {
        wide_combos().into_iter().filter(|c| base.contains(c)).collect()
    } else {
        base
    }
}

/// Every shape of the tree with few entries, and every change of it, comes before the random cases.
fn small(t: Tier, prefix: bool) -> &'static [MapCase] {
    static ALL: [OnceLock<Vec<MapCase>>; 4] = [OnceLock::new(), OnceLock::new(), OnceLock::new(), OnceLock::new()];
    let quick = t == Tier::Quick;
    ALL[prefix as usize * 2 + quick as usize].get_or_init(|| match prefix {
        false => shapes::cases(if quick { 11 } else { 17 }, &[0, 1, 2, 3, 7, 8, 15, 16, 22]),
        true => shapes::prefix_cases(if quick { 10 } else { 15 }, &[0, 4, 1, 23, 8, 23]),
    })
}
const SMALL: usize = 1000;
fn small_cls(i: u64, t: Tier, prefix: bool, per: &[(u64, usize)]) -> usize {
    let n = small(t, prefix).len() as u64;
    if i < n {
        SMALL + i as usize
    } else {
        cls(i - n, per)
    }
}
fn mcase(class: usize, t: Tier, prefix: bool, base: Vec<u8>) -> BoxedStrategy<MapCase> {
    if class >= SMALL {
        Just(small(t, prefix)[class - SMALL].clone()).boxed()
    } else {
        mapcase(class, combos_for(class, base))
    }
}

fn assume() -> Vec<String> {
    vec![
        "SHA-256 of the sha2 crate is correct and behaves as a collision-free function".into(),
        "std's BTreeMap and the standard key types' Ord are correct (they are the model)".into(),
        "bounds: see the distribution; the search is random (except that every shape a tree of up to 11 entries can take is reached, 17 in the thorough tier; for C07 10 and 15), absence of a violation is not proved".into(),
    ]
}

// ---------------------------------------------------------------- C01, C02
pub struct C01;
impl Prop for C01 {
    type Case = MapCase;
    fn id(&self) -> &'static str {
        "C01"
    }
    fn rule(&self) -> &'static str {
        HIST_RULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 60_000 + small(t, false).len() as u64,
            Tier::Thorough => 3_000_000 + small(t, false).len() as u64,
        }
    }
    fn class_of(&self, i: u64, t: Tier) -> usize {
        small_cls(i, t, false, &[(9_973, 4), (397, 3), (29, 2), (4, 1)])
    }
    fn strategy(&self, class: usize, t: Tier) -> BoxedStrategy<MapCase> {
        mcase(class, t, false, all_combos())
    }
    fn check(&self, c: &MapCase, st: &mut Stats) -> Res {
        run_history(c, st, &mut |s, _, _, _| {
            s.check_dict(&c.probes)?;
            c.probes.iter().try_for_each(|p| s.check_max(*p))
        })
    }
    fn assumptions(&self) -> Vec<String> {
        assume()
    }
}

pub struct C02;
impl Prop for C02 {
    type Case = MapCase;
    fn id(&self) -> &'static str {
        "C02"
    }
    fn rule(&self) -> &'static str {
        HIST_RULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 36_000 + small(t, false).len() as u64,
            Tier::Thorough => 3_000_000 + small(t, false).len() as u64,
        }
    }
    fn class_of(&self, i: u64, t: Tier) -> usize {
        small_cls(i, t, false, &[(19_997, 4), (397, 3), (29, 2), (4, 1)])
    }
    fn strategy(&self, class: usize, t: Tier) -> BoxedStrategy<MapCase> {
        mcase(class, t, false, all_combos())
    }
    fn check(&self, c: &MapCase, st: &mut Stats) -> Res {
        run_history(c, st, &mut |s, i, _, _| {
            if (i as u32 + c.probes[1]) % 3 == 0 {
                // the tree is asked for before the hash
                let t = s.tree().hash();
                ensure!(t == s.root(), "the full tree hashes to {}, the root hash is {}", hx(&t), hx(&s.root()));
            }
            s.check_hash()
        })
    }
    fn assumptions(&self) -> Vec<String> {
        assume()
    }
}

// ---------------------------------------------------------------- witnesses
/// Key indices to look at in a state.
fn probes(c: &MapCase, last: bool) -> Vec<u32> {
    let mut v = c.probes.clone();
    if last {
        if let Pool::Raw(_) = c.pool {
            v.extend(0..c.pool.size().min(48));
        } else {
            v.extend(0..40);
            v.extend([100, 299, 300, 599, 2499, 2500]);
        }
    }
    v
}

fn gap_before(out: &mut Vec<Item>, yes: bool) {
    if yes {
        out.push(Item::Gap)
    }
}

/// The in-order view a witness must have that reveals entries lo..=hi (labels), with the
/// contents of those inside `vals`.
fn expect_range(e: &[(Vec<u8>, T)], lo: usize, hi: Option<usize>, vals: impl Fn(usize) -> bool) -> Vec<Item> {
    let mut out = Vec::new();
    let n = e.len();
    let end = hi.map(|h| h + 1).unwrap_or(n);
    gap_before(&mut out, lo > 0);
    for (p, (l, t)) in e.iter().enumerate().take(end).skip(lo) {
        out.push(Item::Lab(l.clone(), if vals(p) { t.clone() } else { T::Pruned(t.hash()) }));
    }
    gap_before(&mut out, end < n && end > lo || (end == lo && n > 0 && lo == 0 && end < n));
    out
}

/// The revealed positions for a key or a range between two keys.
fn bounds(a: Result<usize, usize>, b: Result<usize, usize>, n: usize) -> (usize, Option<usize>) {
    let lo = match a {
        Ok(p) => p,
        Err(p) => p.saturating_sub(1),
    };
    let hi = match b {
        Ok(p) => Some(p),
        Err(p) if p < n => Some(p),
        Err(_) => None,
    };
    (lo, hi)
}
fn inside(a: Result<usize, usize>, b: Result<usize, usize>, p: usize) -> bool {
    let first = match a {
        Ok(x) | Err(x) => x,
    };
    let end = match b {
        Ok(x) => x + 1,
        Err(x) => x,
    };
    p >= first && p < end
}

fn range_pairs(c: &MapCase, s: &dyn DynSut, last: bool) -> Vec<(u32, u32)> {
    let p = probes(c, false);
    let mut v = Vec::new();
    for i in 0..p.len() {
        for j in 0..p.len() {
            if last || (i + j) % 3 == 0 {
                v.push((p[i], p[j]));
            }
        }
    }
    if last && s.n() < 100 {
        let m = c.pool.size().min(24);
        for i in 0..m {
            v.push((i, (i * 7 + 5) % m));
            v.push((i, i + 1));
        }
    }
    v.retain(|(a, b)| s.key_cmp(*a, *b) != Ordering::Greater);
    v
}

pub struct C03;
impl Prop for C03 {
    type Case = MapCase;
    fn id(&self) -> &'static str {
        "C03"
    }
    fn rule(&self) -> &'static str {
        HIST_RULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 14_000 + small(t, false).len() as u64,
            Tier::Thorough => 1_500_000 + small(t, false).len() as u64,
        }
    }
    fn class_of(&self, i: u64, t: Tier) -> usize {
        small_cls(i, t, false, STD)
    }
    fn strategy(&self, class: usize, t: Tier) -> BoxedStrategy<MapCase> {
        mcase(class, t, false, all_combos())
    }
    fn check(&self, c: &MapCase, st: &mut Stats) -> Res {
        run_history(c, st, &mut |s, i, last, st| {
            let ps = probes(c, last);
            let mut ws: Vec<(String, T)> = Vec::new();
            // the kind of witness asked for first rotates: nothing else has read the tree before
            for kind in 0..6 {
                match (kind + i + c.probes[1] as usize) % 6 {
                    0 => ps.iter().for_each(|p| ws.push((format!("witness of key {}", hx(&s.lab(*p))), s.w_key(*p)))),
                    1 => ws.push(("key list witness".into(), s.w_keys())),
                    2 => range_pairs(c, s, last).iter().for_each(|(a, b)| {
                        ws.push((format!("key range {}..={}", hx(&s.lab(*a)), hx(&s.lab(*b))), s.w_range(*a, *b, false)))
                    }),
                    3 => range_pairs(c, s, last).iter().for_each(|(a, b)| {
                        ws.push((format!("value range {}..={}", hx(&s.lab(*a)), hx(&s.lab(*b))), s.w_range(*a, *b, true)))
                    }),
                    4 => ps.iter().for_each(|p| {
                        if let Some(w) = s.w_prefix(*p) {
                            ws.push((format!("prefix witness for {}", hx(&c.pool.raw(*p))), w))
                        }
                    }),
                    _ => ps.iter().for_each(|p| {
                        ws.push((format!("nested witness of key {}", hx(&s.lab(*p))), s.w_nested(*p).0));
                        ws.push((format!("witness of borrowed key {}", hx(&s.lab(*p))), s.w_q(*p)));
                    }),
                }
            }
            let root = s.root();
            st.class_n("witnesses checked", ws.len() as u64);
            for (n, w) in ws {
                ensure!(w.hash() == root, "{} hashes to {}, the root hash is {}: {:?}", n, hx(&w.hash()), hx(&root), w);
            }
            Ok(())
        })
    }
    fn assumptions(&self) -> Vec<String> {
        assume()
    }
}

/// Is the byte order of these labels the order they are listed in?
fn ascending(l: &[Vec<u8>]) -> bool {
    l.windows(2).all(|w| w[0] < w[1])
}

pub struct C04;
impl Prop for C04 {
    type Case = MapCase;
    fn id(&self) -> &'static str {
        "C04"
    }
    fn rule(&self) -> &'static str {
        HIST_RULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 40_000 + small(t, false).len() as u64,
            Tier::Thorough => 2_000_000 + small(t, false).len() as u64,
        }
    }
    fn class_of(&self, i: u64, t: Tier) -> usize {
        small_cls(i, t, false, STD)
    }
    fn strategy(&self, class: usize, t: Tier) -> BoxedStrategy<MapCase> {
        mcase(class, t, false, all_combos())
    }
    fn check(&self, c: &MapCase, st: &mut Stats) -> Res {
        run_history(c, st, &mut |s, _, last, st| {
            let e = s.entries()?;
            for p in probes(c, last) {
                let lab = s.lab(p);
                let pos = s.pos(p);
                for (w, how) in [(s.w_key(p), "witness"), (s.w_q(p), "witness by borrowed key")] {
                    let got = lookup(&w, &[&lab]);
                    st.class(if pos.is_ok() { "proof of presence" } else { "proof of absence" });
                    let ok = match (&got, pos) {
                        (Look::Found(t), Ok(i)) => **t == e[i].1,
                        (Look::Absent, Err(_)) => true,
                        _ => false,
                    };
                    if ok {
                        continue;
                    }
                    let msg = format!(
                        "{} of {} key {}: the specification's lookup says {:?}; the witness is {:?}",
                        how,
                        if pos.is_ok() { "present" } else { "absent" },
                        hx(&lab),
                        got,
                        w
                    );
                    // A listed finding covers only a witness that is right for the key order,
                    // where that order and the label order disagree.
                    if let (Some(sig), Err(i)) = (s.sig(), pos) {
                        let (lo, hi) = bounds(pos, pos, e.len());
                        let want = expect_range(&e, lo, hi, |_| false);
                        let mut ls: Vec<Vec<u8>> = e[lo..i].iter().map(|x| x.0.clone()).collect();
                        ls.push(lab.clone());
                        ls.extend(e[i..hi.map(|h| h + 1).unwrap_or(i)].iter().map(|x| x.0.clone()));
                        if items(&w) == Ok(want) && !ascending(&ls) && st.known(sig, || msg.clone()) {
                            continue;
                        }
                    }
                    return Err(msg);
                }
            }
            Ok(())
        })
    }
    fn assumptions(&self) -> Vec<String> {
        let mut a = assume();
        a.push("the lookup procedure of the Internet Computer interface specification as transcribed in spec.rs".into());
        a
    }
    fn known_demo(&self, sig: &str) -> Option<String> {
        label_order_demo(sig)
    }
}

/// Fixed demonstrations of the label-order findings: keys that are present or absent and for
/// which the specification's lookup in the witness gives the wrong answer.
pub fn label_order_demo(sig: &str) -> Option<String> {
    use candid::Principal;
    use certified_vars::label::Label;
    use certified_vars::Map;
    fn demo<K: Label + Ord + Copy + std::fmt::Debug + 'static>(a: K, b: K, c: K, q: K) -> Option<String> {
        let mut m = Map::<K, u32>::new();
        m.insert(a, 1);
        m.insert(b, 2);
        m.insert(c, 3);
        let w = T::from_ht(&m.witness(&q));
        let ql = q.as_label().to_vec();
        let r = lookup(&w, &[&ql]);
        if r == Look::Absent {
            return None;
        }
        let lab = |k: &K| hx(&k.as_label());
        Some(format!(
            "in a Map whose keys have the labels {}, {}, {} in tree order, looking up the absent key with label {} in its own witness gives {:?} instead of Absent",
            lab(&a), lab(&b), lab(&c), lab(&q), r
        ))
    }
    match sig {
        "label-order:i8" => demo(-5i8, 1, 3, -1),
        "label-order:i16" => demo(-5i16, 1, 3, -1),
        "label-order:i32" => demo(-5i32, 1, 3, -1),
        "label-order:i64" => demo(-5i64, 1, 3, -1),
        "label-order:i128" => demo(-5i128, 1, 3, -1),
        "label-order:isize" => demo(-5isize, 1, 3, -1),
        "label-order:Principal" => {
            let p = |b: &[u8]| Principal::try_from_slice(b).unwrap();
            demo(p(&[5]), p(&[1, 1]), p(&[3, 3]), p(&[9]))
        }
        _ => None,
    }
}

pub struct C05;
impl Prop for C05 {
    type Case = MapCase;
    fn id(&self) -> &'static str {
        "C05"
    }
    fn rule(&self) -> &'static str {
        HIST_RULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 24_000 + small(t, false).len() as u64,
            Tier::Thorough => 2_000_000 + small(t, false).len() as u64,
        }
    }
    fn class_of(&self, i: u64, t: Tier) -> usize {
        small_cls(i, t, false, STD)
    }
    fn strategy(&self, class: usize, t: Tier) -> BoxedStrategy<MapCase> {
        mcase(class, t, false, all_combos())
    }
    fn check(&self, c: &MapCase, st: &mut Stats) -> Res {
        run_history(c, st, &mut |s, _, last, st| {
            let e = s.entries()?;
            for p in probes(c, last) {
                let pos = s.pos(p);
                let w = s.w_key(p);
                let (mut labs, mut vals) = (vec![], vec![]);
                w.labels(&mut labs);
                w.leaves(&mut vals);
                let (mut wl, mut wv) = (vec![], vec![]);
                match pos {
                    Ok(i) => {
                        st.class("disclosure of a present key");
                        wl.push(e[i].0.clone());
                        e[i].1.labels(&mut wl);
                        e[i].1.leaves(&mut wv);
                    }
                    Err(i) => {
                        st.class("disclosure of an absent key");
                        if i > 0 {
                            wl.push(e[i - 1].0.clone());
                        }
                        if i < e.len() {
                            wl.push(e[i].0.clone());
                        }
                    }
                }
                ensure!(
                    labs == wl && vals == wv,
                    "witness of {} key {} shows labels {:?} and {} values, expected labels {:?} and {} values: {:?}",
                    if pos.is_ok() { "present" } else { "absent" },
                    hx(&s.lab(p)),
                    labs.iter().map(|x| hx(x)).collect::<Vec<_>>(),
                    vals.len(),
                    wl.iter().map(|x| hx(x)).collect::<Vec<_>>(),
                    wv.len(),
                    w
                );
            }
            let want: Vec<Item> = e.iter().map(|(l, t)| Item::Lab(l.clone(), T::Pruned(t.hash()))).collect();
            let w = s.w_keys();
            if !e.is_empty() {
                let got = items(&w)?;
                ensure!(got == want, "key list witness shows {}, expected {}", show_items(&got), show_items(&want));
            } else {
                ensure!(w == T::Empty, "key list witness of an empty map is {:?}", w);
            }
            Ok(())
        })
    }
    fn assumptions(&self) -> Vec<String> {
        assume()
    }
}

pub struct C06;
impl Prop for C06 {
    type Case = MapCase;
    fn id(&self) -> &'static str {
        "C06"
    }
    fn rule(&self) -> &'static str {
        HIST_RULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 18_000 + small(t, false).len() as u64,
            Tier::Thorough => 2_000_000 + small(t, false).len() as u64,
        }
    }
    fn class_of(&self, i: u64, t: Tier) -> usize {
        small_cls(i, t, false, STD)
    }
    fn strategy(&self, class: usize, t: Tier) -> BoxedStrategy<MapCase> {
        mcase(class, t, false, all_combos())
    }
    fn check(&self, c: &MapCase, st: &mut Stats) -> Res {
        run_history(c, st, &mut |s, _, last, st| {
            let e = s.entries()?;
            let n = e.len();
            for (i, j) in range_pairs(c, s, last) {
                let (a, b) = (s.pos(i), s.pos(j));
                let (lo, hi) = bounds(a, b, n);
                for values in [false, true] {
                    let w = s.w_range(i, j, values);
                    let want = expect_range(&e, lo, hi, |p| values && inside(a, b, p));
                    let got = items(&w)?;
                    st.class(match (a, b, want.len() == n) {
                        (_, _, true) => "range: whole map revealed",
                        (Ok(_), Ok(_), _) => "range: both bounds present",
                        (Err(_), Err(_), _) => "range: both bounds absent",
                        _ => "range: one bound present",
                    });
                    ensure!(
                        got == want,
                        "{} range {}..={} shows {}, expected {}",
                        if values { "value" } else { "key" },
                        hx(&s.lab(i)),
                        hx(&s.lab(j)),
                        show_items(&got),
                        show_items(&want)
                    );
                }
            }
            Ok(())
        })
    }
    fn assumptions(&self) -> Vec<String> {
        assume()
    }
}

pub struct C07;
impl Prop for C07 {
    type Case = MapCase;
    fn id(&self) -> &'static str {
        "C07"
    }
    fn rule(&self) -> &'static str {
        HIST_RULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 22_000 + small(t, true).len() as u64,
            Tier::Thorough => 3_000_000 + small(t, true).len() as u64,
        }
    }
    fn class_of(&self, i: u64, t: Tier) -> usize {
        small_cls(i, t, true, STD)
    }
    fn strategy(&self, class: usize, t: Tier) -> BoxedStrategy<MapCase> {
        mcase(class, t, true, prefix_combos())
    }
    fn check(&self, c: &MapCase, st: &mut Stats) -> Res {
        run_history(c, st, &mut |s, _, last, st| {
            let e = s.entries()?;
            for p in probes(c, last) {
                s.check_max(p)?;
                let w = s.w_prefix(p).unwrap();
                let v = s.prefix_view(p);
                st.class(match v.matches.len() {
                    0 => "prefix: no key carries it",
                    1 => "prefix: one key carries it",
                    _ => "prefix: several keys carry it",
                });
                let lo = v.lo.unwrap_or(0);
                let want = expect_range(&e, lo, v.hi, |_| false);
                let got = items(&w)?;
                ensure!(
                    got == want,
                    "prefix {} carried by {} keys: the witness shows {}, expected {}",
                    hx(&c.pool.raw(p)),
                    v.matches.len(),
                    show_items(&got),
                    show_items(&want)
                );
            }
            Ok(())
        })
    }
    fn assumptions(&self) -> Vec<String> {
        assume()
    }
}

// ---------------------------------------------------------------- C09
/// Levels of the search tree behind a full tree, in the most favourable reading.
fn levels(t: &T) -> usize {
    match t {
        T::Fork(x, y) => {
            let mut best = usize::MAX;
            if let T::Lab(..) = **y {
                best = best.min(1 + levels(x));
            }
            if let T::Lab(..) = **x {
                best = best.min(1 + levels(y));
            }
            if let T::Fork(d, r) = &**y {
                if let T::Lab(..) = **d {
                    best = best.min(1 + levels(x).max(levels(r)));
                }
            }
            if best == usize::MAX {
                1 + levels(x).max(levels(y))
            } else {
                best
            }
        }
        _ => 1,
    }
}

pub struct C09;
impl Prop for C09 {
    type Case = MapCase;
    fn id(&self) -> &'static str {
        "C09"
    }
    fn rule(&self) -> &'static str {
        HIST_RULE
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 8_000 + small(t, false).len() as u64,
            Tier::Thorough => 300_000 + small(t, false).len() as u64,
        }
    }
    fn class_of(&self, i: u64, t: Tier) -> usize {
        small_cls(i, t, false, &[(997, 4), (37, 3), (5, 2), (2, 1)])
    }
    fn strategy(&self, class: usize, t: Tier) -> BoxedStrategy<MapCase> {
        mcase(class, t, false, if class < 2 { all_combos() } else { wide_combos() })
    }
    fn check(&self, c: &MapCase, st: &mut Stats) -> Res {
        let mut s = make(c.combo, c.tree, c.pool.clone());
        let (mut maxn, mut removed, mut next) = (0, false, 0);
        let ops = split(&c.ops, 24);
        for (i, o) in ops.iter().enumerate() {
            let before = s.n();
            s.apply(o).map_err(|e| format!("{} step {} {:?}: {}", s.name(), i, o, e))?;
            removed |= s.n() < before && !matches!(o, Op::Clear);
            maxn = maxn.max(s.n());
            if i < next && i + 1 < ops.len() {
                continue;
            }
            // looked at again after a number of steps in proportion to the size
            next = i + 1 + s.n() / 3;
            let n = s.n();
            if n == 0 {
                continue;
            }
            st.class(size_class(n));
            let t = s.tree();
            let l = levels(&t);
            let bound = 2.0 * ((n + 1) as f64).log2() + 1e-9;
            ensure!(l as f64 <= bound, "{} with {} entries after step {}: an entry lies {} levels deep, the bound is {:.1}", s.name(), n, i, l, bound);
            let fd = t.fork_depth();
            for p in &c.probes {
                let d = s.w_key(*p).fork_depth();
                ensure!(d <= fd.max(1) && d as f64 <= 2.0 * bound, "{} with {} entries: the witness of key {} has {} forks in a row", s.name(), n, hx(&s.lab(*p)), d);
            }
        }
        if removed && maxn >= 3 {
            st.mark();
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec!["depth is read off the shape of the full tree in its most favourable reading".into()]
    }
}
