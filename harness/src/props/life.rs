//! C26: generated programs that use a reference after the collection it came from was changed,
//! moved or dropped. Each must be rejected by the compiler; its twin, in which the use comes
//! first, shows that nothing else is wrong with it.
use crate::engine::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::process::{exit, Command, Stdio};
use std::sync::OnceLock;

const HEAD: &str = r#"#![allow(warnings)]
use certified_vars::as_hash_tree::AsHashTree;
use certified_vars::collections::group::{GroupLeaf, Ray};
use certified_vars::hashtree::{fork, labeled};
use certified_vars::label::{Label, Prefix};
use certified_vars::rbtree::entry::{Entry, OccupiedEntry, VacantEntry};
use certified_vars::rbtree::iterator::RbTreeIterator;
use certified_vars::rbtree::RbTree;
use certified_vars::{Group, GroupBuilder, Hash, HashTree, Map, Paged, Seq};
use std::borrow::{Borrow, Cow};
use std::cell::Cell;
use std::cmp::Ordering;
use std::rc::Rc;
use std::sync::Arc;
fn mk<T>() -> T { loop {} }
fn touch<T>(_: T) {}
fn look<T: ?Sized>(_: &T) {}
fn change<T: ?Sized>(_: &mut T) {}
fn same<T>(x: T) -> T { x }
fn forever<T: 'static>(_: T) {}
fn any<T: ?Sized>() {}
fn send<T: ?Sized + Send>() {}
fn sync<T: ?Sized + Sync>() {}
struct Keep<T> { it: T }
struct Cells(Cell<u8>);
impl AsHashTree for Cells {
    fn root_hash(&self) -> Hash { [0; 32] }
    fn as_hash_tree(&self) -> HashTree<'_> { HashTree::Empty }
}
"#;

/// A kind of thing that references are taken from.
struct Scene {
    name: &'static str,
    /// generic parameters, type
    types: Vec<(&'static str, String)>,
    /// an expression that borrows from $; whether it borrows mutably
    sources: Vec<(String, bool)>,
    /// what changes, moves or drops $
    acts: Vec<String>,
    /// what only reads $
    reads: Vec<&'static str>,
    /// before $ exists (then $ is `e`)
    setup: &'static str,
}

const MAP_SHARED: &[&str] = &[
    "$.get::<#K>(&mk())",
    "$.get::<#K>(&mk()).unwrap()",
    "$.get::<#K>(&mk()).map(|x| x.as_hash_tree())",
    "$.get::<#K>(&mk()).into_iter().collect::<Vec<_>>()",
    "$.iter()",
    "$.iter().next()",
    "$.iter().last().map(|x| x.0)",
    "$.iter().map(|x| x.1).collect::<Vec<_>>()",
    "$.iter().skip(1).peekable()",
    "$.witness::<#K>(&mk())",
    "$.witness_keys()",
    "$.witness_value_range::<#K, #K>(&mk(), &mk())",
    "$.witness_key_range::<#K, #K>(&mk(), &mk())",
    "$.as_tree()",
    "AsRef::<RbTree<#K, #V>>::as_ref(&$)",
    "$.as_hash_tree()",
    "fork($.as_hash_tree(), HashTree::Empty)",
    "labeled(b\"x\", $.witness_keys())",
    "$.witness_keys_with_prefix::<#P>(mk())",
];
const TREE_SHARED: &[&str] = &[
    "$.get::<#K>(&mk())",
    "$.get_with(|_| Ordering::Equal)",
    "{ let s = Cell::new(None); $.get_with(|x| { s.set(Some(x)); Ordering::Less }); s.into_inner() }",
    "$.max_entry_with_prefix::<#P>(mk())",
    "$.witness::<#K>(&mk())",
    "$.nested_witness::<#K>(&mk(), |x| x.as_hash_tree())",
    "{ let s = Cell::new(None); $.nested_witness::<#K>(&mk(), |x| { s.set(Some(x)); HashTree::Empty }); s.into_inner() }",
    "{ let mut s = None; let t = $.nested_witness::<#K>(&mk(), |x| { s = Some(x.as_hash_tree()); x.as_hash_tree() }); s }",
    "$.keys()",
    "$.key_range::<#K, #K>(&mk(), &mk())",
    "$.value_range::<#K, #K>(&mk(), &mk())",
    "$.keys_with_prefix::<#P>(mk())",
    "{ let mut s = None; $.for_each(|a, b| s = Some((a, b))); s }",
    "{ let mut s = vec![]; $.for_each(|_, b| s.push(b)); s }",
    "RbTreeIterator::new(&$)",
    "RbTreeIterator::new(&$).next()",
    "$.as_hash_tree()",
];
const ENTRY_MUT: &[&str] = &[
    "$.entry(mk())",
    "$.entry(mk()).or_insert(mk())",
    "$.entry(mk()).or_insert_with(|| mk())",
    "$.entry(mk()).or_insert_with_key(|_| mk())",
    "$.entry(mk()).or_default()",
    "$.entry(mk()).and_modify(|_| ())",
    "$.entry(mk()).and_modify(|_| ()).or_insert(mk())",
    "{ let mut s = None; $.entry(mk()).and_modify(|x| s = Some(x)); s }",
    "{ let mut s = None; $.entry(mk()).or_insert_with_key(|x| { s = Some(x); mk() }); s }",
    "match $.entry(mk()) { Entry::Occupied(e) => e.into_mut(), Entry::Vacant(e) => e.insert(mk()) }",
    "match $.entry(mk()) { Entry::Occupied(e) => e, _ => mk() }",
    "match $.entry(mk()) { Entry::Vacant(e) => e, _ => mk() }",
];
const MAP_MUT: &[&str] = &[
    "$.get_mut::<#K>(&mk())",
    "$.get_mut::<#K>(&mk()).unwrap()",
    "$.get_mut::<#K>(&mk()).map(|x| &*x)",
    "$.get_mut::<#K>(&mk()).map(|x| x.as_hash_tree())",
];
const TREE_MUT: &[&str] = &[
    "$.insert(mk(), mk()).1",
    "$.insert(mk(), mk())",
    "$.modify::<#K, _>(&mk(), |x| x)",
    "{ let mut s = None; $.modify::<#K, _>(&mk(), |x| s = Some(x)); s }",
    "{ let mut s = vec![]; $.modify::<#K, _>(&mk(), |x| s.push(x.as_hash_tree())); s }",
    "$.modify_max_with_prefix::<#P, _>(mk(), |a, b| (a, b))",
    "$.modify_max_with_prefix::<#P, _>(mk(), |a, _| a)",
    "{ let mut s = None; $.modify_max_with_prefix::<#P, _>(mk(), |a, b| s = Some((a, b))); s }",
];
const MOVES: &[&str] = &[
    "$ = mk();",
    "drop($);",
    "let moved = $;",
    "let moved = Box::new($);",
    "let moved = vec![$];",
    "touch($);",
    "let taken = std::mem::replace(&mut $, mk());",
    "let mut other = mk(); std::mem::swap(&mut $, &mut other);",
    "change(&mut $);",
    "let again = &mut $; change(again);",
    "(|| change(&mut $))();",
];
const MAP_ACTS: &[&str] = &[
    "$.insert(mk(), mk());",
    "$.remove::<#K>(&mk());",
    "$.remove_entry::<#K>(&mk());",
    "$.clear();",
    "$.entry(mk()).or_insert(mk());",
    "$.entry(mk()).or_insert_with(|| mk());",
    "$.entry(mk()).and_modify(|x| *x = mk());",
    "if let Entry::Occupied(e) = $.entry(mk()) { e.remove(); }",
    "if let Entry::Vacant(e) = $.entry(mk()) { e.insert(mk()); }",
    "let other = $.get_mut::<#K>(&mk());",
    "*$.get_mut::<#K>(&mk()).unwrap() = mk();",
    "let taken = std::mem::take(&mut $);",
    "$ = std::iter::once((mk(), mk())).collect();",
];
const TREE_ACTS: &[&str] = &[
    "$.insert(mk(), mk());",
    "$.delete::<#K>(&mk());",
    "$.entry(mk()).or_insert(mk());",
    "$.entry(mk()).and_modify(|x| *x = mk());",
    "if let Entry::Occupied(e) = $.entry(mk()) { e.remove_entry(); }",
    "$.modify::<#K, _>(&mk(), |x| *x = mk());",
    "$.modify_max_with_prefix::<#P, _>(mk(), |_, x| *x = mk());",
    "let taken = std::mem::take(&mut $);",
];
const MAP_READS: &[&str] = &[
    "$.len();",
    "$.is_empty();",
    "$.root_hash();",
    "$.get::<#K>(&mk());",
    "$.iter().count();",
    "$.witness::<#K>(&mk());",
    "$.as_hash_tree();",
    "look(&$);",
];
const TREE_READS: &[&str] = &["$.len();", "$.root_hash();", "$.get::<#K>(&mk());", "$.for_each(|_, _| ());", "$.keys();", "look(&$);"];

/// generics, K, V, P
const KV: &[(&str, &str, &str, &str)] = &[
    ("", "String", "Vec<u8>", "str"),
    ("", "Vec<u8>", "String", "[u8]"),
    ("", "u64", "Map<u8, u32>", "u64"),
    ("", "[u8; 4]", "Seq<u64>", "[u8]"),
    ("", "Rc<String>", "Box<Vec<u8>>", "Rc<String>"),
    ("", "bool", "RbTree<String, Seq<Vec<u8>>>", "bool"),
    ("<K: Label + Ord + 'static, V: AsHashTree + Default + 'static>", "K", "V", "K"),
    ("<K: Label + Ord + Prefix<P> + 'static, P: ?Sized + Ord + 'static, V: AsHashTree + 'static>", "K", "V", "P"),
];

fn scenes() -> &'static Vec<Scene> {
    static S: OnceLock<Vec<Scene>> = OnceLock::new();
    S.get_or_init(|| {
        let mut v = vec![];
        for (g, k, val, p) in KV.iter().copied() {
            let fill = |s: &str| s.replace("#K", k).replace("#V", val).replace("mk::<#P>", "mk").replace("#P", p);
            // a prefix is passed by reference
            let prefix = |s: &str| fill(&s.replace("#P>(mk()", "#P>(mk::<&'static #P>()").replace("#P, _>(mk()", "#P, _>(mk::<&'static #P>()"));
            let has_prefix = ["str", "[u8]", "P"].contains(&p);
            let can = |s: &&&str| has_prefix || !s.contains("#P");
            let all = |l: &[&[&str]], m: bool| -> Vec<(String, bool)> { l.iter().flat_map(|l| l.iter()).filter(can).map(|s| (prefix(s), m)).collect() };
            let acts = |l: &[&str]| -> Vec<String> { l.iter().chain(MOVES).filter(can).map(|s| prefix(s)).collect() };
            let reads = |l: &[&str]| -> Vec<&'static str> { l.iter().map(|s| &*Box::leak(prefix(s).into_boxed_str())).collect() };
            let mut sources = all(&[MAP_SHARED], false);
            sources.extend(TREE_SHARED.iter().filter(can).map(|s| (prefix(&s.replace('$', "$.as_tree()").replace("&$.", "$.")), false)));
            sources.extend(all(&[MAP_MUT, ENTRY_MUT], true));
            v.push(Scene { name: "Map", types: vec![(g, fill("Map<#K, #V>"))], sources, acts: acts(MAP_ACTS), reads: reads(MAP_READS), setup: "" });
            let mut sources = all(&[TREE_SHARED], false);
            sources.extend(all(&[TREE_MUT, ENTRY_MUT], true));
            v.push(Scene { name: "RbTree", types: vec![(g, fill("RbTree<#K, #V>"))], sources, acts: acts(TREE_ACTS), reads: reads(TREE_READS), setup: "" });
            for t in ["Map", "RbTree"] {
                let ty = format!("{}<{}, {}>", t, k, val);
                v.push(Scene {
                    name: "OccupiedEntry",
                    types: vec![(g, ty.clone())],
                    sources: vec![
                        ("$.get()".into(), false),
                        ("$.key()".into(), false),
                        ("($.key(), $.get())".into(), false),
                        ("$.get_mut()".into(), true),
                        ("(&*$.get_mut()).as_hash_tree()".into(), true),
                    ],
                    acts: ["$.get_mut();", "*$.get_mut() = mk();", "$.remove();", "$.remove_entry();", "touch($.into_mut());", "*$.into_mut() = mk();"]
                        .iter()
                        .map(|s| s.to_string())
                        .collect(),
                    reads: vec!["$.get();", "$.key();"],
                    setup: "let mut e = match $.entry(mk()) { Entry::Occupied(e) => e, _ => mk() };",
                });
                v.push(Scene {
                    name: "VacantEntry",
                    types: vec![(g, ty.clone())],
                    sources: vec![("$.key()".into(), false)],
                    acts: ["$.insert(mk());", "$.into_key();", "drop($.insert(mk()));"].iter().map(|s| s.to_string()).collect(),
                    reads: vec![],
                    setup: "let mut e = match $.entry(mk()) { Entry::Vacant(e) => e, _ => mk() };",
                });
                v.push(Scene {
                    name: "Entry",
                    types: vec![(g, ty.clone())],
                    sources: vec![("s".into(), true)],
                    acts: ["$.or_insert(mk());", "$.and_modify(|x| *x = mk());"].iter().map(|s| s.to_string()).collect(),
                    reads: vec![],
                    setup: "let mut s = None; let e = $.entry(mk()).and_modify(|x| s = Some(x));",
                });
                v.push(Scene {
                    name: "Entry",
                    types: vec![(g, ty)],
                    sources: vec![("$.key()".into(), false)],
                    acts: ["$.or_insert(mk());", "$.or_insert_with(|| mk());", "$.or_insert_with_key(|_| mk());", "$.and_modify(|x| *x = mk());"]
                        .iter()
                        .map(|s| s.to_string())
                        .collect(),
                    reads: vec![],
                    setup: "let mut e = $.entry(mk());",
                });
            }
        }
        let list = |l: &[&str]| -> Vec<String> { l.iter().chain(MOVES).map(|s| s.to_string()).collect() };
        let src = |l: &[&str], m: &[&str]| -> Vec<(String, bool)> {
            l.iter().map(|s| (s.to_string(), false)).chain(m.iter().map(|s| (s.to_string(), true))).collect()
        };
        v.push(Scene {
            name: "Seq",
            types: vec![
                ("", "Seq<Vec<u8>>".into()),
                ("", "Seq<String>".into()),
                ("", "Seq<u64>".into()),
                ("<T: AsHashTree>", "Seq<T>".into()),
                ("", "Seq<Seq<u8>>".into()),
            ],
            sources: src(
                &[
                    "$.as_vec()",
                    "$.as_vec().first()",
                    "$.iter()",
                    "$.iter().next()",
                    "$.iter().rev().collect::<Vec<_>>()",
                    "&$[0]",
                    "&$[1..]",
                    "$[0].as_hash_tree()",
                    "AsRef::<[_]>::as_ref(&$)",
                    "Borrow::<[_]>::borrow(&$)",
                    "$.as_hash_tree()",
                ],
                &[],
            ),
            acts: list(&[
                "$.append(mk());",
                "$.clear();",
                "$.extend(vec![mk()]);",
                "$.reserve(1);",
                "$.reserve_exact(1);",
                "$.shrink_to_fit();",
                "let v: Vec<_> = $.into();",
                "$ = Seq::from(vec![mk()]);",
                "$ = std::iter::once(mk()).collect();",
            ]),
            reads: vec![],
            setup: "",
        });
        v.push(Scene {
            name: "Paged",
            types: vec![
                ("", "Paged<String, Vec<u8>, 3>".into()),
                ("", "Paged<u32, u64, 1>".into()),
                ("", "Paged<Vec<u8>, Seq<u8>, 100>".into()),
                ("<K: Label + Ord + Clone + 'static, V: AsHashTree + 'static>", "Paged<K, V, 2>".into()),
            ],
            sources: src(
                &[
                    "$.get(&mk(), 0)",
                    "$.get(&mk(), 0).unwrap().as_vec()",
                    "$.get(&mk(), 0).map(|x| x.iter())",
                    "&$.get(&mk(), 0).unwrap()[0]",
                    "$.witness(&mk(), 0)",
                    "$.witness_last_page_number(&mk())",
                    "$.as_hash_tree()",
                ],
                &[],
            ),
            acts: list(&["$.insert(mk(), mk());", "$ = Paged::new();"]),
            reads: vec![],
            setup: "",
        });
        v.push(Scene {
            name: "Group",
            types: vec![("", "Group".into())],
            sources: src(
                &[
                    "$.get::<String>()",
                    "$.get::<Map<u8, Vec<u8>>>().get(&1)",
                    "$.get::<Seq<Vec<u8>>>().iter()",
                    "$.witness()",
                    "$.witness().full::<String>()",
                    "$.witness().full::<String>().build()",
                    "$.witness().partial::<String, _>(|x| x.as_hash_tree())",
                    "$.witness().partial::<Map<u8, Vec<u8>>, _>(|x| x.witness(&1)).build()",
                    "$.witness().full::<String>().partial::<Map<u8, Vec<u8>>, _>(|x| x.witness_keys())",
                    "{ let s = Cell::new(None); $.witness().partial::<String, _>(|x| { s.set(Some(x)); HashTree::Empty }); s.into_inner() }",
                    "$.as_hash_tree()",
                ],
                &["$.get_mut::<String>()", "$.get_mut::<Map<u8, Vec<u8>>>().get_mut(&1)", "$.get_mut::<Map<u8, Vec<u8>>>().entry(1)"],
            ),
            acts: list(&[
                "$.get_mut::<String>();",
                "$.get_mut::<String>().push('a');",
                "$.get_mut::<Map<u8, Vec<u8>>>().clear();",
                "*$.get_mut::<String>() = mk();",
                "$ = GroupBuilder::new().insert([\"a\"], String::new()).build();",
            ]),
            reads: vec!["$.get::<String>();", "$.root_hash();", "$.witness();", "look(&$);"],
            setup: "",
        });
        v.push(Scene {
            name: "dyn GroupLeaf",
            types: vec![("", "Box<dyn GroupLeaf>".into())],
            sources: src(&["(*$).downcast_ref::<String>()"], &["(*$).downcast_mut::<String>()"]),
            acts: list(&["(*$).downcast_mut::<String>();", "*(*$).downcast_mut::<String>().unwrap() = mk();", "$ = Box::new(String::new());"]),
            reads: vec!["(*$).downcast_ref::<String>();", "look(&$);"],
            setup: "",
        });
        // values and labels
        for (part, types) in [("[u8]", ["Vec<u8>", "Box<Vec<u8>>", "Rc<Vec<u8>>", "Arc<Vec<u8>>"]), ("str", ["String", "Box<String>", "Rc<String>", "Arc<String>"])] {
            let bytes = if part == "str" { "a.as_bytes()" } else { "a" };
            let mut sources = src(&["Label::as_label(&$)", "AsHashTree::as_hash_tree(&$)", "labeled(b\"x\", AsHashTree::as_hash_tree(&$))", "fork(HashTree::Empty, AsHashTree::as_hash_tree(&$))"], &[]);
            for s in [
                "labeled(#B, HashTree::Empty)",
                "HashTree::Leaf(Cow::Borrowed(#B))",
                "HashTree::Labeled(Cow::Borrowed(#B), Box::new(HashTree::Empty))",
                "{ let mut q: Seq<&#T> = Seq::new(); q.append(a); q }",
                "Seq::<&#T>::from(vec![a])",
                "Seq::<&#T>::from(&[a, a][..])",
                "std::iter::once(a).collect::<Seq<&#T>>()",
                "{ let mut q: Seq<&#T> = Seq::new(); q.extend(vec![a]); q.as_vec().clone() }",
                "{ let q = Seq::<&#T>::from(vec![a]); q[0] }",
                "{ let q = Seq::<&#T>::from(vec![a]); Vec::from(q) }",
            ] {
                let s = s.replace("#B", bytes).replace("#T", part);
                sources.push((format!("{{ let a: &{} = $.as_ref(); {} }}", part, s), false));
            }
            v.push(Scene { name: "value", types: types.iter().map(|t| ("", t.to_string())).collect(), sources, acts: list(&[]), reads: vec![], setup: "" });
        }
        v
    })
}

/// Types that must not cross threads since a part of them must not.
const SINGLE: &[&str] = &[
    "Map<Rc<String>, u32>",
    "Map<String, Rc<Vec<u8>>>",
    "RbTree<Rc<String>, u32>",
    "RbTree<String, Rc<Vec<u8>>>",
    "Map<u8, Map<u8, Rc<Vec<u8>>>>",
    "Seq<Rc<Vec<u8>>>",
    "Paged<Rc<String>, u32, 2>",
    "Paged<u32, Rc<Vec<u8>>, 2>",
    "Group",
    "GroupBuilder",
    "Box<dyn GroupLeaf>",
    "Ray<'static>",
    "RbTreeIterator<'static, Rc<String>, u32>",
    "RbTreeIterator<'static, String, Rc<Vec<u8>>>",
    "Entry<'static, String, Rc<Vec<u8>>>",
    "OccupiedEntry<'static, Rc<String>, u32>",
    "VacantEntry<'static, Rc<String>, u32>",
    "&'static Map<u8, Rc<Vec<u8>>>",
];
const CELLS: &[&str] = &[
    "Map<u8, Cells>",
    "RbTree<u8, Cells>",
    "Seq<Cells>",
    "Paged<u8, Cells, 2>",
    "RbTreeIterator<'static, u8, Cells>",
    "OccupiedEntry<'static, u8, Cells>",
    "Map<u8, Seq<Cells>>",
];

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Prog {
    /// `scene` chooses among the scenes of kind `kind`
    Use { kind: u8, scene: u8, ty: u8, src: u16, act: u16, read: bool, wraps: Vec<u8>, ctx: u8, place: u8, before: Vec<u16> },
    Thread { ty: u8, how: u8 },
}

const KINDS: [&str; 10] =
    ["Map", "RbTree", "OccupiedEntry", "VacantEntry", "Entry", "Seq", "Paged", "Group", "dyn GroupLeaf", "value"];
fn scene(kind: u8, scene: u8) -> &'static Scene {
    let k = KINDS[kind as usize % KINDS.len()];
    let of: Vec<_> = scenes().iter().filter(|s| s.name == k).collect();
    of[scene as usize % of.len()]
}

/// The program; with `good`, its twin that uses the reference in time.
fn text(p: &Prog, name: &str, good: bool) -> String {
    let (sc, ty, src, act, read, wraps, ctx, place, before) = match p {
        Prog::Thread { ty, how } => {
            let i = *ty as usize % (SINGLE.len() + CELLS.len());
            let (t, f) = match SINGLE.get(i) {
                Some(t) => (*t, if how % 2 == 0 { "send" } else { "sync" }),
                None => (CELLS[i - SINGLE.len()], "sync"),
            };
            return format!("fn {}() {{ {}::<{}>(); }}", name, if good { "any" } else { f }, t);
        }
        Prog::Use { kind, scene: n, ty, src, act, read, wraps, ctx, place, before } => (scene(*kind, *n), ty, src, act, read, wraps, ctx, place, before),
    };
    let (gen, ty) = &sc.types[*ty as usize % sc.types.len()];
    let (source, exclusive) = &sc.sources[*src as usize % sc.sources.len()];
    let moves = |a: &str| a.contains("($)") || a.contains("= $;") || a.contains("[$]") || a.contains("$.into()");
    let acts: Vec<&String> = sc.acts.iter().filter(|a| *ctx % 7 != 3 || !sc.setup.is_empty() || !moves(a)).collect();
    let act = if *read && *exclusive && !sc.reads.is_empty() {
        sc.reads[*act as usize % sc.reads.len()].to_string()
    } else {
        acts[*act as usize % acts.len()].clone()
    };
    let ctx = if sc.setup.is_empty() { ctx % 7 } else { [0, 4, 5][*ctx as usize % 3] };
    let (param, place) = match if ctx == 1 || ty.contains("'_") { 0 } else { place % 5 } {
        0 => ("mut m: #", "m"),
        1 => ("m: &mut #", "(*m)"),
        2 => ("mut m: (u8, #)", "m.1"),
        3 => ("mut m: Box<#>", "(*m)"),
        _ => ("mut m: Keep<#>", "m.it"),
    };
    let (param, place) = if moves(&act) && place == "(*m)" && param.contains('&') { ("mut m: #", "m") } else { (param, place) };
    let param = param.replace('#', ty);
    let (setup, on) = if sc.setup.is_empty() { (String::new(), place) } else { (sc.setup.replace('$', place), "e") };
    let fill = |s: &str| s.replace('$', on);
    let mut expr = fill(source);
    for w in wraps {
        expr = match w % 7 {
            0 => format!("Some({})", expr),
            1 => format!("({}, 1)", expr),
            2 => format!("Box::new({})", expr),
            3 => format!("vec![{}]", expr),
            4 => format!("same({})", expr),
            5 => format!("Keep {{ it: {} }}", expr),
            _ => format!("{{ let x = {}; move || touch(x) }}", expr),
        }
    }
    let act = fill(&act);
    let mut noise = String::new();
    if sc.setup.is_empty() {
        for b in before {
            // earlier changes; none of them moves the thing away
            let a = &sc.acts[*b as usize % sc.acts.len()];
            if !moves(a) {
                noise += &format!("{{ {} }} ", fill(a));
            }
        }
    }
    let body = match (ctx, good) {
        // the collection goes out of scope
        (1, true) => format!("let r; {{ let mut m = m; r = {}; touch(r); }}", expr),
        (1, false) => format!("let r; {{ let mut m = m; r = {}; }} touch(r);", expr),
        // the reference is said to last forever
        (2, true) => format!("let r = {}; touch(r);", expr),
        (2, false) => format!("let r = {}; forever(r);", expr),
        // from one round of a loop to the next
        (3, true) => format!("loop {{ let mut s = None; s = Some({}); touch(s); if mk() {{ {} break; }} }}", expr, act),
        (3, false) => format!("let mut s = None; loop {{ if mk() {{ {} }} touch(s.take()); s = Some({}); }}", act, expr),
        (4, true) => format!("let r = {}; touch(r); if mk() {{ {} }}", expr, act),
        (4, false) => format!("let r = {}; if mk() {{ {} }} touch(r);", expr, act),
        (5, true) => format!("let r = {}; if mk() {{ touch(r); return; }} {}", expr, act),
        (5, false) => format!("let r = {}; if mk() {{ {} touch(r); return; }}", expr, act),
        (6, true) => format!("let r = {}; let f = move || touch(r); f(); {}", expr, act),
        (6, false) => format!("let r = {}; let f = move || touch(r); {} f();", expr, act),
        (_, true) => format!("let mut r = {}; touch(r); {}", expr, act),
        (_, false) => format!("let mut r = {}; {} touch(r);", expr, act),
    };
    format!("fn {}{}({}) {{ {}{}{} }}", name, gen, param, noise, setup, body)
}

fn die(m: String) -> ! {
    eprintln!("C26: {}", m);
    exit(3)
}

/// Compiles the functions; the error codes of each one that has errors.
fn compile(fns: &[(usize, String)]) -> BTreeMap<usize, Vec<String>> {
    static LIB: OnceLock<(String, String)> = OnceLock::new();
    let (lib, deps) = LIB.get_or_init(|| {
        let exe = std::env::current_exe().unwrap();
        (
            format!("{}/lib/libcertified_vars.rlib", exe.display().to_string() + ".d"),
            format!("{}/harness/target/release/deps", VERIF),
        )
    });
    let dir = format!("{}/out/c26-{}", VERIF, std::process::id());
    std::fs::create_dir_all(&dir).unwrap();
    let first = HEAD.matches('\n').count() + 1;
    let src = HEAD.to_string() + &fns.iter().map(|f| f.1.clone()).collect::<Vec<_>>().join("\n") + "\n";
    std::fs::write(format!("{}/a.rs", dir), src).unwrap();
    let o = Command::new("rustc")
        .args(["--edition", "2021", "--crate-type", "lib", "--crate-name", "programs", "--emit=metadata", "--error-format=json"])
        .args(["-o", &format!("{}/a.rmeta", dir), "-L", &format!("dependency={}", deps), "--extern", &format!("certified_vars={}", lib)])
        .arg(format!("{}/a.rs", dir))
        .stdin(Stdio::null())
        .output()
        .unwrap_or_else(|e| die(format!("cannot run rustc: {}", e)));
    let _ = std::fs::remove_dir_all(&dir);
    let _ = std::fs::remove_dir(format!("{}/out", VERIF));
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let mut res: BTreeMap<usize, Vec<String>> = BTreeMap::new();
    for l in err.lines() {
        let v: serde_json::Value = match serde_json::from_str(l) {
            Ok(v) => v,
            Err(_) => die(format!("rustc says {}", l)),
        };
        if v["level"] != "error" || v["message"].as_str().unwrap_or("").starts_with("aborting due to") {
            continue;
        }
        let code = v["code"]["code"].as_str().unwrap_or("none").to_string();
        let line = v["spans"].as_array().and_then(|s| s.iter().find(|x| x["is_primary"] == true)).and_then(|s| {
            // out of macros
            let mut s = s;
            while !s["file_name"].as_str()?.ends_with("/a.rs") {
                s = &s["expansion"]["span"];
            }
            s["line_start"].as_u64()
        });
        match line {
            Some(n) if n as usize >= first && (n as usize - first) < fns.len() => res.entry(fns[n as usize - first].0).or_default().push(code),
            _ => die(format!("unexpected error of rustc at {:?}, {} programs from {}: {}", line, fns.len(), first, v)),
        }
    }
    if !o.status.success() && res.is_empty() {
        die(format!("rustc failed: {}", err));
    }
    res
}

pub struct C26;
impl Prop for C26 {
    type Case = Vec<Prog>;
    fn id(&self) -> &'static str {
        "C26"
    }
    fn rule(&self) -> &'static str {
        "a case is a batch of programs; it is non-trivial if the twin of at least one of its programs compiles and the program itself is rejected for more than a use after move; duplicates removed by hashing the case (the number of programs is in the distribution)"
    }
    fn cases(&self, t: Tier) -> u64 {
        match t {
            Tier::Quick => 700,
            Tier::Thorough => 30_000,
        }
    }
    fn strategy(&self, _: usize, _: Tier) -> BoxedStrategy<Vec<Prog>> {
        let kind = prop_oneof![6 => Just(0u8), 6 => Just(1), 3 => Just(2), 1 => 3u8..5, 2 => Just(5), 2 => Just(6), 3 => Just(7), 1 => Just(8), 2 => Just(9)];
        let one = prop_oneof![
            30 => (kind, any::<u8>(), any::<u8>(), any::<u16>(), any::<u16>(), prop::bool::weighted(0.3), prop::collection::vec(any::<u8>(), 0..3), any::<u8>(), any::<u8>(), prop::collection::vec(any::<u16>(), 0..3))
                .prop_map(|(kind, scene, ty, src, act, read, wraps, ctx, place, before)| Prog::Use { kind, scene, ty, src, act, read, wraps, ctx, place, before }),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(ty, how)| Prog::Thread { ty, how }),
        ];
        prop::collection::vec(one, 1..60).boxed()
    }
    fn check(&self, c: &Vec<Prog>, st: &mut Stats) -> Res {
        let kind = |p: &Prog| match p {
            Prog::Thread { .. } => "threads",
            Prog::Use { kind, scene: n, .. } => scene(*kind, *n).name,
        };
        let good: Vec<(usize, String)> = c.iter().enumerate().map(|(i, p)| (i, text(p, &format!("p{}", i), true))).collect();
        let bad_twins = compile(&good);
        for (i, codes) in &bad_twins {
            st.class(&format!("twin rejected ({})", codes[0]));
            st.class(&format!("twin rejected: {}", kind(&c[*i])));
        }
        let rest: Vec<(usize, String)> = (0..c.len())
            .filter(|i| !bad_twins.contains_key(i))
            .map(|i| (i, text(&c[i], &format!("p{}", i), false)))
            .collect();
        // programs about threads are rejected earlier than the others
        let mut rejected = BTreeMap::new();
        for threads in [true, false] {
            let part: Vec<_> = rest.iter().filter(|x| matches!(c[x.0], Prog::Thread { .. }) == threads).cloned().collect();
            if !part.is_empty() {
                rejected.extend(compile(&part));
            }
        }
        if std::env::var("C26_LOG").is_ok() {
            for (i, t) in &good {
                if let Prog::Use { kind, scene: n, src, act, .. } = &c[*i] {
                    let s = scene(*kind, *n);
                    println!("{}|{}|{:?}|{}", s.name, s.sources[*src as usize % s.sources.len()].0, bad_twins.get(i), t);
                }
            }
        }
        for (i, codes) in &rejected {
            st.class(&format!("program rejected: {}", kind(&c[*i])));
            for k in codes.iter().collect::<BTreeSet<_>>() {
                st.class(&format!("rejected with {}", k));
            }
        }
        for (i, t) in &rest {
            // what was not rejected among others must not be rejected alone either
            if !rejected.contains_key(i) && compile(&[(*i, t.clone())]).is_empty() {
                let say = match c[*i] {
                    Prog::Thread { .. } => "a type with a part that must stay in its thread (or must not be shared) is said to be safe to send or share",
                    _ => "a reference from a collection is used after the collection was changed, moved or dropped, or lasts longer than it",
                };
                return Err(format!("a safe program compiles in which {}: {}", say, t));
            }
        }
        if rejected.values().any(|codes| codes.iter().any(|c| c != "E0382")) {
            st.mark();
        }
        Ok(())
    }
    fn assumptions(&self) -> Vec<String> {
        vec![
            "the compiler's own rules are right; only signatures (and impls of Send and Sync) decide which programs compile".into(),
            "programs are straight code with one loop, branch, scope or closure, over the public functions that return or hand out something borrowed".into(),
        ]
    }
}
