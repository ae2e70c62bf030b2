//! Schemas as plain data, the rules they must obey, and ways to make and print them.
use std::collections::{BTreeMap, BTreeSet};

use crate::dict::{forbidden, Dict};

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Field { pub name: String, pub ty: String, pub array: bool, pub optional: bool }
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Ty { Enum(Vec<String>), Struct(Vec<Field>) }
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub enum Item { Decl(String, Ty), Export(String) }
pub type Schema = Vec<Item>;

pub const BUILTINS: [&str; 8] = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string"];
pub fn builtin(n: &str) -> bool { BUILTINS.contains(&n) }

pub fn decls(s: &Schema) -> BTreeMap<&str, &Ty> {
    let mut m = BTreeMap::new();
    for i in s { if let Item::Decl(n, t) = i { m.insert(n.as_str(), t); } }
    m
}
pub fn exports(s: &Schema) -> Vec<&str> {
    s.iter().filter_map(|i| if let Item::Export(n) = i { Some(n.as_str()) } else { None }).collect()
}
/// types a struct uses, directly or not (itself only if it is on a cycle)
pub fn reach<'a>(d: &BTreeMap<&'a str, &'a Ty>, from: &str) -> BTreeSet<&'a str> {
    let mut seen = BTreeSet::new();
    let mut todo = vec![from.to_string()];
    while let Some(n) = todo.pop() {
        if let Some(Ty::Struct(fs)) = d.get(n.as_str()) {
            for f in fs { if seen.insert(f.ty.as_str()) { todo.push(f.ty.clone()); } }
        }
    }
    seen
}
/// every message that would truthfully describe something wrong with s
pub fn faults(s: &Schema) -> Vec<String> {
    let mut out = Vec::new();
    let ex = exports(s);
    let d = decls(s);
    if ex.is_empty() { out.push("Schema has no export".into()); }
    if ex.len() > 1 { out.push("Schema has more than one export".into()); }
    let mut seen = BTreeSet::new();
    for i in s { if let Item::Decl(n, _) = i { if !seen.insert(n.as_str()) { out.push(format!("Schema has duplicate declaration: {}", n)); } } }
    for (n, t) in &d {
        match t {
            Ty::Enum(v) => {
                if v.is_empty() { out.push(format!("Enum '{}' must have at least one variant", n)); }
                if v.len() > 32 { out.push(format!("Enum '{}' has too many variants ({}/32)", n, v.len())); }
                let mut seen = BTreeSet::new();
                for x in v { if !seen.insert(x) { out.push(format!("Duplicate variant '{}' on enum '{}'", x, n)); } }
            }
            Ty::Struct(fs) => {
                let mut seen = BTreeSet::new();
                for f in fs {
                    if !seen.insert(&f.name) { out.push(format!("Duplicate field '{}' on struct '{}'", f.name, n)); }
                    if f.array && f.optional { out.push(format!("Field '{}' in struct '{}' cannot be optional and array at once", f.name, n)); }
                    if !builtin(&f.ty) && !d.contains_key(f.ty.as_str()) { out.push(format!("Declaration for type '{}' does not exist", f.ty)); }
                }
                if reach(&d, n).contains(n) { out.push(format!("Found a cycle between two or more top level definitions in type '{}'", n)); }
            }
        }
    }
    for e in &ex {
        match d.get(e) {
            Some(Ty::Struct(_)) => {}
            Some(Ty::Enum(_)) => out.push(format!("Attempted to export '{}', which is not a struct", e)),
            None if builtin(e) => out.push(format!("Attempted to export '{}', which is not a struct", e)),
            None => out.push(format!("Export '{}' could not be resolved", e)),
        }
    }
    out
}

// ---- random numbers ---------------------------------------------------------
pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn below(&mut self, n: usize) -> usize { if n == 0 { 0 } else { (self.next() % n as u64) as usize } }
    pub fn chance(&mut self, pct: usize) -> bool { self.below(100) < pct }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T { &v[self.below(v.len())] }
    pub fn shuffle<T>(&mut self, v: &mut Vec<T>) { for i in (1..v.len()).rev() { let j = self.below(i + 1); v.swap(i, j); } }
}

pub const FIELD_NAMES: [&str; 44] = [
    "a", "b", "c", "x", "y", "z", "a_b", "b_c", "a_b_c", "a_", "_a", "_", "x_y", "x_len", "x_item", "x_index", "x_temp", "x_y_len",
    "len", "item", "index", "temp", "item_x", "output", "reader", "writer", "data", "buffer", "value", "x_item_", "x_len_", "a_item_b",
    "item_len", "uint8x", "uint8_", "stringy", "enumA", "structs", "floaty", "int8s", "int16_", "exporter", "A1", "Zz9",
];
pub const TYPE_NAMES: [&str; 30] = [
    "A", "B", "C", "D", "E", "F", "G", "T0", "T1", "T2", "T3", "T4", "Pos", "Flag", "Value", "uint8s", "stringish", "structure", "enumeration",
    "floats", "_T", "T_", "a", "b", "item", "Export", "exported", "int32x", "uint16_t", "Tuple",
];
/// a name for a generated enum variant
fn variant(r: &mut Rng, i: usize) -> String {
    match r.below(6) { 0 => format!("V{}", i), 1 => format!("A_{}", i), 2 => format!("uint8_{}", i), 3 => format!("v{}x", i), 4 => format!("enum{}", i), _ => format!("K{}", i) }
}
const ENUM_SIZES: [usize; 16] = [1, 1, 2, 2, 3, 4, 7, 8, 9, 10, 15, 16, 17, 24, 31, 32];

/// how many fields a type has when written out in full
fn cost(done: &[(String, Ty)], ty: &str) -> usize {
    match done.iter().find(|d| d.0 == ty) { Some((_, Ty::Struct(fs))) => 1 + fs.iter().map(|f| cost(done, &f.ty)).sum::<usize>(), _ => 1 }
}
/// adds a field whose name is the flattened path of a field further down
fn collide(r: &mut Rng, done: &[(String, Ty)], fs: &mut Vec<Field>) {
    if fs.is_empty() { return; }
    let mut f = r.pick(fs).clone();
    let mut path = f.name.clone();
    loop {
        let sub = match done.iter().find(|d| d.0 == f.ty) { Some((_, Ty::Struct(g))) if !g.is_empty() => g, _ => break };
        if f.array { path += "_item"; }
        f = r.pick(sub).clone();
        path = format!("{}_{}", path, f.name);
        if r.chance(50) { break; }
    }
    if r.chance(35) { path += r.pick(&["_len", "_item", "_index", "_temp", "_", "_len_", "_temp_"]); }
    if fs.iter().any(|g| g.name == path) { return; }
    if r.chance(30) || cost(done, &f.ty) > 60 { f.ty = r.pick(&BUILTINS).to_string(); }
    if r.chance(30) { f.array = false; f.optional = !f.optional; }
    f.name = path;
    let at = r.below(fs.len() + 1);
    fs.insert(at, f);
}
/// renames the export to something the generator may call a local variable
fn local_name(r: &mut Rng, done: &mut Vec<(String, Ty)>, e: String) -> String {
    let fs = match done.iter().find(|d| d.0 == e) { Some((_, Ty::Struct(fs))) if !fs.is_empty() => fs.clone(), _ => return e };
    let new = format!("{}_{}{}", r.pick(&["output", "output", "this"]), r.pick(&fs).name, r.pick(&["", "", "_len", "_item", "_index", "_temp"]));
    if done.iter().any(|d| d.0 == new) { return e; }
    for d in done.iter_mut() {
        if d.0 == e { d.0 = new.clone(); }
        if let Ty::Struct(fs) = &mut d.1 { for f in fs.iter_mut() { if f.ty == e { f.ty = new.clone(); } } }
    }
    new
}
pub fn dict() -> &'static Dict {
    static D: std::sync::OnceLock<Dict> = std::sync::OnceLock::new();
    D.get_or_init(Dict::load)
}
/// whether a sized case is due: rare, unless the source has numbers the unchanged source does not have
pub fn due(r: &mut Rng, every: usize) -> bool { let e = if dict().new_sizes.is_empty() { every } else { (every / 8).max(4) }; r.below(e) == 0 }
fn leaf(r: &mut Rng) -> (String, bool, bool) { let (a, o) = match r.below(10) { 0..=5 => (false, false), 6 | 7 => (true, false), _ => (false, true) }; (r.pick(&BUILTINS).to_string(), a, o) }
/// a schema with one large dimension: fields, declarations, depth, name length, variants or uses of one type
pub fn sized(r: &mut Rng, max: usize, valid: bool) -> Schema {
    let mut items = Vec::new();
    let field = |name: String, ty: &str, array: bool, optional: bool| Field { name, ty: ty.to_string(), array, optional };
    let mut top: Vec<Field> = Vec::new();
    let mut export = "Root".to_string();
    match r.below(6) {
        0 => { let n = dict().size(r, max); for i in 0..n { let (t, a, o) = leaf(r); top.push(field(format!("f{}", i), &t, a, o)); } if r.chance(50) { items.push(Item::Decl("Sub".into(), Ty::Struct(vec![field("q".into(), "uint8", false, false)]))); top.push(field("last".into(), "Sub", r.chance(30), false)); } }
        1 => { let n = dict().size(r, max.min(300)); for i in 0..n { let t = if r.chance(50) { Ty::Enum(vec![format!("V{}", i)]) } else { Ty::Struct(vec![field(format!("g{}", i), "uint8", false, false)]) }; items.push(Item::Decl(format!("D{}", i), t)); if r.chance(90) { top.push(field(format!("f{}", i), &format!("D{}", i), r.chance(15), false)); } } }
        2 => { let n = dict().size(r, max.min(90)); for i in 0..n { let mut fs = vec![if i == 0 { field("x".into(), "uint8", false, false) } else { field(r.pick(&["a", "b", "n"]).to_string(), &format!("S{}", i - 1), i % 7 == 3 && r.chance(40), i % 7 == 5 && r.chance(40)) }]; if r.chance(40) { let (t, a, o) = leaf(r); let at = r.below(2); fs.insert(at, field("p".into(), &t, a, o)); } items.push(Item::Decl(format!("S{}", i), Ty::Struct(fs))); } top.push(field("s".into(), &format!("S{}", n.max(1) - 1), false, false)); if n == 0 { top.clear(); } }
        3 => { let n = dict().size(r, max).max(1); let long = |c: &str| { let mut s = c.repeat(n); s.truncate(n.max(1)); s }; let (t, a, o) = leaf(r); match r.below(4) { 0 => top.push(field(long("f"), &t, a, o)), 1 => { items.push(Item::Decl(long("T"), Ty::Struct(vec![field("a".into(), &t, a, o)]))); top.push(field("f".into(), &long("T"), false, false)); } 2 => { items.push(Item::Decl("E".into(), Ty::Enum(vec!["A".into(), long("V")]))); top.push(field("e".into(), "E", false, false)); } _ => { export = long("R"); top.push(field("f".into(), &t, a, o)); } } }
        4 => { let n = dict().size(r, if valid { 32 } else { max }); let n = if valid { n.max(1) } else { n }; items.push(Item::Decl("E".into(), Ty::Enum((0..n).map(|i| variant(r, i)).collect()))); top.push(field("e".into(), "E", r.chance(20), false)); }
        _ => { let n = dict().size(r, max.min(200)); items.push(Item::Decl("U".into(), Ty::Struct(vec![field("q".into(), "uint8", false, false)]))); for i in 0..n { top.push(field(format!("f{}", i), "U", r.chance(20), false)); } }
    }
    items.push(Item::Decl(export.clone(), Ty::Struct(top)));
    if r.chance(60) { r.shuffle(&mut items); }
    items.push(Item::Export(export));
    items
}
/// every name in a schema: a place to rename it at
fn names(s: &Schema) -> Vec<String> {
    let mut v = Vec::new();
    for i in s { match i { Item::Export(n) => v.push(n.clone()), Item::Decl(n, t) => { v.push(n.clone()); match t { Ty::Enum(x) => v.extend(x.iter().cloned()), Ty::Struct(f) => v.extend(f.iter().map(|f| f.name.clone())) } } } }
    v
}
/// a name that differs little from another one
fn relative(r: &mut Rng, w: &str) -> String {
    match r.below(9) {
        0 | 1 => w.to_lowercase(),
        2 | 3 => w.to_uppercase(),
        4 => format!("{}_", w),
        5 => format!("_{}", w),
        6 => w.chars().take(3).collect(),
        7 => { let mut c = w.chars(); c.next().map(|a| a.to_uppercase().chain(c).collect()).unwrap_or_default() }
        _ => w.chars().rev().skip_while(|c| c.is_ascii_digit()).collect::<Vec<_>>().into_iter().rev().collect::<String>() + "s",
    }
}
/// renames a type, field or variant to a word of the source or to a variation of another name
pub fn spice(r: &mut Rng, s: &mut Schema) {
    let all = names(s);
    if all.is_empty() { return; }
    let new = if r.chance(60) { match dict().name(r) { Some(n) => n, None => return } } else { let w = r.pick(&all).clone(); relative(r, &w) };
    if forbidden(&new) { return; }
    let at = r.below(s.len());
    let old = match &mut s[at] {
        Item::Export(e) => e.clone(),
        Item::Decl(_, Ty::Enum(v)) if r.chance(50) => { if !v.is_empty() && !v.contains(&new) { let k = r.below(v.len()); v[k] = new; } return; }
        Item::Decl(_, Ty::Struct(f)) if r.chance(70) => { if !f.is_empty() && !f.iter().any(|g| g.name == new) { let k = r.below(f.len()); f[k].name = new; } return; }
        Item::Decl(n, _) => n.clone(),
    };
    if s.iter().any(|i| matches!(i, Item::Decl(n, _) if *n == new)) { return; }
    for i in s.iter_mut() { match i { Item::Export(e) => if *e == old { *e = new.clone() }, Item::Decl(n, t) => { if *n == old { *n = new.clone(); } if let Ty::Struct(f) = t { for g in f.iter_mut() { if g.ty == old { g.ty = new.clone(); } } } } } }
}
/// a schema that obeys every rule
pub fn valid(r: &mut Rng, big: bool) -> Schema {
    let mut s = shaped(r, big);
    if r.chance(if dict().new_words.is_empty() { 15 } else { 50 }) { for _ in 0..1 + r.below(3) { spice(r, &mut s); } }
    s
}
fn shaped(r: &mut Rng, big: bool) -> Schema {
    let mut names: Vec<&str> = TYPE_NAMES.to_vec();
    r.shuffle(&mut names);
    let huge = big && r.chance(15);
    let n = if huge { 10 + r.below(18) } else { 1 + r.below(if big { 9 } else { 5 }) };
    let mut done: Vec<(String, Ty)> = Vec::new();
    let small_pool = r.chance(50);
    for k in 0..n {
        let name = if k == n - 1 { names.iter().find(|x| x.starts_with(|c: char| c.is_ascii_uppercase()) && !names[..k].contains(x)).unwrap_or(&names[k]) } else { &names[k] };
        if done.iter().any(|(m, _)| m == name) { continue; }
        let ty = if k < n - 1 && r.chance(35) {
            let c = *r.pick(&ENUM_SIZES);
            Ty::Enum((0..c).map(|i| variant(r, i)).collect())
        } else {
            let m = if r.chance(8) { 0 } else if huge && r.chance(20) { 20 + r.below(30) } else { 1 + r.below(if big { 7 } else { 4 }) };
            let mut fs: Vec<Field> = Vec::new();
            for _ in 0..m {
                let name = if m > 19 && r.chance(70) { format!("{}{}", r.pick(&["f", "field_", "x_"]), fs.len()) } else if small_pool { r.pick(&FIELD_NAMES[..12]).to_string() } else if r.chance(12) { r.pick(&TYPE_NAMES).to_string() } else { r.pick(&FIELD_NAMES).to_string() };
                let name = match fs.last() { Some(f) if r.chance(8) => Some(relative(r, &f.name)).filter(|n| !forbidden(n)).unwrap_or(name), _ => name };
                if fs.iter().any(|f| f.name == name) { continue; }
                let ty = if !done.is_empty() && r.chance(6) && done.iter().any(|d| d.0 == name) { name.clone() } else if done.is_empty() || r.chance(40) { r.pick(&BUILTINS).to_string() } else if r.chance(50) { done[done.len() - 1].0.clone() } else { r.pick(&done).0.clone() };
                // the generated code spells out every nested struct
                let ty = if fs.iter().map(|f: &Field| cost(&done, &f.ty)).sum::<usize>() + cost(&done, &ty) > 250 { "uint8".to_string() } else { ty };
                let (array, optional) = match r.below(10) { 0..=4 => (false, false), 5..=7 => (true, false), _ => (false, true) };
                fs.push(Field { name, ty, array, optional });
            }
            if r.chance(45) { for _ in 0..1 + r.below(2) { collide(r, &done, &mut fs); } }
            Ty::Struct(fs)
        };
        done.push((name.to_string(), ty));
    }
    // the export is the last declared struct, usually
    let structs: Vec<String> = done.iter().filter(|x| matches!(x.1, Ty::Struct(_)) && x.0.starts_with(|c: char| c.is_ascii_uppercase())).map(|x| x.0.clone()).collect();
    let e = if structs.is_empty() {
        done.push(("Root".into(), Ty::Struct(vec![])));
        "Root".to_string()
    } else if r.chance(80) { structs[structs.len() - 1].clone() } else { r.pick(&structs).clone() };
    let e = if r.chance(8) { local_name(r, &mut done, e) } else { e };
    let mut items: Vec<Item> = done.into_iter().map(|(n, t)| Item::Decl(n, t)).collect();
    match r.below(3) { 0 => {} _ => r.shuffle(&mut items) }
    let at = if r.chance(70) { items.len() } else { r.below(items.len() + 1) };
    items.insert(at, Item::Export(e));
    items
}

fn some_struct(r: &mut Rng, s: &Schema) -> Option<usize> {
    let v: Vec<usize> = (0..s.len()).filter(|&i| matches!(&s[i], Item::Decl(_, Ty::Struct(_)))).collect();
    if v.is_empty() { None } else { Some(*r.pick(&v)) }
}
fn some_enum(r: &mut Rng, s: &Schema) -> Option<usize> {
    let v: Vec<usize> = (0..s.len()).filter(|&i| matches!(&s[i], Item::Decl(_, Ty::Enum(_)))).collect();
    if v.is_empty() { None } else { Some(*r.pick(&v)) }
}
/// breaks (usually) one rule
pub fn break_rule(r: &mut Rng, s: &mut Schema) {
    let fields = |s: &mut Schema, i: usize| -> *mut Vec<Field> { if let Item::Decl(_, Ty::Struct(fs)) = &mut s[i] { fs } else { unreachable!() } };
    if r.chance(10) { let d = dict().size(r, 400); if let Some(i) = some_enum(r, s) { if let Item::Decl(_, t) = &mut s[i] { *t = Ty::Enum((0..d).map(|i| format!("V{}", i)).collect()); } } return; }
    match r.below(14) {
        0 => s.retain(|i| !matches!(i, Item::Export(_))),
        1 => { let e = s.iter().find(|i| matches!(i, Item::Export(_))).cloned(); if let Some(e) = e { let at = r.below(s.len() + 1); s.insert(at, e); } }
        2 => { let d: Vec<Item> = s.iter().filter(|i| matches!(i, Item::Decl(..))).cloned().collect(); if !d.is_empty() {
            let mut e = r.pick(&d).clone();
            if r.chance(50) { if let Item::Decl(_, t) = &mut e { *t = if r.chance(50) { Ty::Enum(vec!["Q".into()]) } else { Ty::Struct(vec![]) }; } }
            let at = r.below(s.len() + 1); s.insert(at, e); } }
        3 => if let Some(i) = some_enum(r, s) { if let Item::Decl(_, t) = &mut s[i] { *t = Ty::Enum(vec![]); } }
        4 => if let Some(i) = some_enum(r, s) { let k = 33 + r.below(3); if let Item::Decl(_, t) = &mut s[i] { *t = Ty::Enum((0..k).map(|i| format!("V{}", i)).collect()); } }
        5 => if let Some(i) = some_enum(r, s) { let x = r.next() as usize; if let Item::Decl(_, Ty::Enum(v)) = &mut s[i] { if !v.is_empty() { let d = v[x % v.len()].clone(); let at = (x / 64) % (v.len() + 1); v.insert(at, d); } } }
        6 | 7 => if let Some(i) = some_struct(r, s) { let fs = unsafe { &mut *fields(s, i) }; if !fs.is_empty() {
            let mut f = r.pick(fs).clone(); if r.chance(60) { f.ty = r.pick(&BUILTINS).to_string(); f.optional = false; } let at = r.below(fs.len() + 1); fs.insert(at, f); } }
        8 => if let Some(i) = some_struct(r, s) { let fs = unsafe { &mut *fields(s, i) }; if !fs.is_empty() { let k = r.below(fs.len()); fs[k].array = true; fs[k].optional = true; } }
        9 => if let Some(i) = some_struct(r, s) { let fs = unsafe { &mut *fields(s, i) }; if !fs.is_empty() { let k = r.below(fs.len()); fs[k].ty = "Nowhere".into(); } }
        10 | 11 | 12 => {
            // add an edge between two structs; may or may not close a cycle
            let names: Vec<String> = s.iter().filter_map(|i| if let Item::Decl(n, Ty::Struct(_)) = i { Some(n.clone()) } else { None }).collect();
            if let Some(i) = some_struct(r, s) { let fs = unsafe { &mut *fields(s, i) }; let t = r.pick(&names).clone(); let array = r.chance(30); let at = r.below(fs.len() + 1);
                fs.insert(at, Field { name: "edge".into(), ty: t, array, optional: false }); }
        }
        _ => { let alt: Vec<String> = s.iter().filter_map(|i| if let Item::Decl(n, Ty::Enum(_)) = i { Some(n.clone()) } else { None }).chain(["Nowhere".to_string(), "uint8".to_string()]).collect();
            let n = r.pick(&alt).clone(); for i in s.iter_mut() { if let Item::Export(e) = i { *e = n.clone(); } } }
    }
}
/// a graph of small structs, mostly about cycles and sharing
pub fn graph(r: &mut Rng) -> Schema {
    let n = 2 + r.below(5);
    let mut items = Vec::new();
    let density = 10 + r.below(50);
    let acyclic = r.chance(60);
    let mut order: Vec<usize> = (0..n).collect();
    r.shuffle(&mut order);
    for i in 0..n {
        let mut fs = Vec::new();
        for j in 0..n { if (!acyclic || order[i] < order[j]) && (i != j || r.chance(20)) && r.chance(density) { fs.push(Field { name: format!("f{}", j), ty: format!("N{}", j), array: r.chance(20), optional: false }); } }
        if r.chance(30) { fs.push(Field { name: "p".into(), ty: "uint8".into(), array: false, optional: r.chance(30) }); }
        r.shuffle(&mut fs);
        items.push(Item::Decl(format!("N{}", i), Ty::Struct(fs)));
    }
    r.shuffle(&mut items);
    items.push(Item::Export(format!("N{}", r.below(n))));
    items
}
pub fn any(r: &mut Rng) -> Schema {
    if r.chance(35) { return graph(r); }
    let big = r.chance(30);
    let mut s = if due(r, 200) { sized(r, 500, false) } else { valid(r, big) };
    if r.chance(65) { for _ in 0..1 + r.below(2) { break_rule(r, &mut s); } }
    s
}

// ---- text --------------------------------------------------------------------
fn ws(r: &mut Rng, set: &[char], max: usize) -> String { (0..r.below(max + 1)).map(|_| *r.pick(set)).collect() }
const COMMENTS: [&str; 7] = ["#\n", "# note\n", "#a: struct { }\n", "# export X\r\n", "# \u{e9}\u{4e16}\u{1f600}\n", "##\n", "# , } {\n"];
pub struct Layout { pub plain: bool }
/// prints a schema in a random layout the format allows
pub fn print(r: &mut Rng, s: &Schema, l: &Layout) -> String {
    let sp: &[char] = &[' ', '\t'];
    let nl: &[char] = &[' ', '\t', '\n', '\r'];
    let mut o = String::new();
    let g = |r: &mut Rng, set: &[char]| if l.plain { String::new() } else if r.chance(50) { String::new() } else { ws(r, set, 3) };
    o += &g(r, nl);
    for i in s {
        if !l.plain && r.chance(15) { o += &g(r, sp); o += r.pick(&COMMENTS); o += &g(r, nl); }
        match i {
            Item::Export(n) => { o += &g(r, sp); o += "export "; o += &g(r, sp); o += n; if l.plain { o += "\n"; } else { o += *r.pick(&["\n", "\r\n", " \n", "\n\n", " # end\n"]); } o += &g(r, nl); }
            Item::Decl(n, t) => {
                o += &g(r, sp); o += n; o += &g(r, sp); o += ":"; o += &g(r, sp); o += if l.plain { " " } else { "" };
                match t {
                    Ty::Enum(v) => {
                        o += "enum"; o += &g(r, sp); o += "{"; o += &g(r, nl);
                        for (k, x) in v.iter().enumerate() {
                            o += x;
                            let last = k + 1 == v.len();
                            // the separator is optional where white space already separates
                            match r.below(if l.plain { 1 } else { 4 }) { 0 => { if !last { o += ","; } o += if l.plain { " " } else { "" }; } 1 => { o += &g(r, nl); o += ","; } 2 => o += "\n", _ => { o += " "; o += if last { "" } else { "," }; } }
                            o += &g(r, nl);
                        }
                    }
                    Ty::Struct(fs) => {
                        o += "struct"; o += &g(r, sp); o += "{"; o += &g(r, nl);
                        for (k, f) in fs.iter().enumerate() {
                            if !l.plain && r.chance(8) { o += r.pick(&COMMENTS); o += &g(r, nl); }
                            o += &f.name; o += &g(r, sp); if f.optional { o += "?"; } o += ":"; o += &g(r, sp); o += if l.plain { " " } else { "" }; o += &f.ty; if f.array { o += "[]"; }
                            let last = k + 1 == fs.len();
                            match r.below(if l.plain { 1 } else { 4 }) { 0 => { if !last { o += ","; } o += if l.plain { " " } else { "" }; } 1 => { o += &g(r, nl); o += ","; } 2 => o += "\n", _ => { o += " "; o += if last { "" } else { "," }; } }
                            o += &g(r, nl);
                        }
                        if !l.plain && r.chance(8) { o += r.pick(&COMMENTS); }
                    }
                }
                o += "}";
                if l.plain { o += "\n" } else { o += &g(r, nl); }
            }
        }
    }
    if !l.plain && r.chance(20) { o += "# the end"; }
    o
}
/// a character that may be treated specially: any printable one, unusual white space, a character literal of the source
pub fn odd(r: &mut Rng) -> char {
    match r.below(4) {
        0 | 1 => (32 + r.below(95)) as u8 as char,
        2 => *r.pick(&['\u{b}', '\u{c}', '\u{85}', '\u{a0}', '\u{2028}', '\u{2029}', '\u{feff}', '\u{0}', '\u{1b}', '\u{7f}', '\u{e9}', '\u{20ac}', '\u{1f600}', '\u{3000}', '\r', '\n', '\t']),
        _ => if dict().chars.is_empty() { '$' } else { *r.pick(&dict().chars) },
    }
}
/// repeats one piece many times, somewhere
pub fn stretch(r: &mut Rng, t: &str) -> String {
    let n = dict().size(r, 6000);
    let piece = *r.pick(&["\n", "\n", " ", "a", "#\n", "\u{e9}", "# \u{20ac} x\n", "}\n", "\r\n", "\t", "_", "#"]);
    let ends: Vec<usize> = t.char_indices().filter(|x| x.1 == '\n').map(|x| x.0 + 1).collect();
    let at = match r.below(4) { 0 => 0, 1 => t.len(), 2 if !ends.is_empty() => *r.pick(&ends), _ => { let k = r.below(t.chars().count() + 1); t.char_indices().nth(k).map_or(t.len(), |x| x.0) } };
    format!("{}{}{}", &t[..at], piece.repeat(n), &t[at..])
}
/// small damage to a text
/// a text that ends inside a comment with wide characters
pub fn cut_in_comment(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    let at = r.below(v.len() + 1);
    v.truncate(at);
    v.push('#');
    for _ in 0..r.below(6) { v.push(*r.pick(&['a', ' ', '\u{e9}', '\u{20ac}', '\u{1f600}', '\t', '\r'])); }
    if r.chance(30) { for c in corrupt(r, t).chars().take(r.below(20)) { v.push(c); } }
    v.into_iter().collect()
}
pub fn corrupt(r: &mut Rng, t: &str) -> String {
    let mut v: Vec<char> = t.chars().collect();
    const BITS: [&str; 34] = ["{", "}", ":", "?", "[", "]", "[]", ",", "#", "\n", " ", "\r", "\t", "export", "enum", "struct", "uint8", "string", "a", "9", "_", "\u{e9}", "\u{1f600}", "?:", "export ", "}}", ";", "/", ": struct {", "X: enum { A }", "\u{0}", "-", "float x", "exportX"];
    for _ in 0..1 + r.below(3) {
        let at = r.below(v.len() + 1);
        match r.below(7) {
            5 => v.insert(at, odd(r)),
            6 => { if !v.is_empty() { let k = at.min(v.len() - 1); v[k] = odd(r); } }
            0 => { if at < v.len() { v.remove(at); } }
            1 | 2 => { for (k, c) in r.pick(&BITS).chars().enumerate() { v.insert(at + k, c); } }
            3 => { if v.len() > 1 { let k = r.below(v.len()); let a = at.min(v.len() - 1); v.swap(a, k); } }
            _ => { if r.chance(30) { v.truncate(at); } else if at < v.len() { let k = (at + 1 + r.below(6)).min(v.len()); v.drain(at..k); } }
        }
    }
    v.into_iter().collect()
}

// ---- JSON ---------------------------------------------------------------------
pub fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for c in s.chars() {
        match c { '"' => o += "\\\"", '\\' => o += "\\\\", '\n' => o += "\\n", '\r' => o += "\\r", '\t' => o += "\\t", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o.push('"');
    o
}
pub fn schema_json(s: &Schema) -> String {
    let items: Vec<String> = s.iter().map(|i| match i {
        Item::Export(n) => format!("{{\"export\":{}}}", js(n)),
        Item::Decl(n, Ty::Enum(v)) => format!("{{\"enum\":{},\"variants\":[{}]}}", js(n), v.iter().map(|x| js(x)).collect::<Vec<_>>().join(",")),
        Item::Decl(n, Ty::Struct(f)) => format!("{{\"struct\":{},\"fields\":[{}]}}", js(n), f.iter().map(|f| format!("{{\"name\":{},\"type\":{},\"array\":{},\"optional\":{}}}", js(&f.name), js(&f.ty), f.array, f.optional)).collect::<Vec<_>>().join(",")),
    }).collect();
    format!("[{}]", items.join(","))
}
