//! Drives the parser and the type checker through their public items.
use packetc_lib::{ast, check, parser};

use crate::grammar;
use crate::guard;
use crate::model::*;

fn to_ast(s: &Schema) -> ast::AST<'_> {
    s.iter().map(|i| match i {
        Item::Export(n) => ast::Node::Export(n),
        Item::Decl(n, Ty::Enum(v)) => ast::Node::Decl(n, ast::Type::Enum(ast::Enum(v.iter().map(|x| x.as_str()).collect()))),
        Item::Decl(n, Ty::Struct(f)) => ast::Node::Decl(n, ast::Type::Struct(ast::Struct(f.iter().map(|f| (f.name.as_str(), ast::Unresolved(&f.ty, f.array, f.optional))).collect()))),
    }).collect()
}
fn repr(n: usize) -> check::EnumRepr { if n <= 8 { check::EnumRepr::U8 } else if n <= 16 { check::EnumRepr::U16 } else { check::EnumRepr::U32 } }

/// how the resolved type differs from the declaration of name
fn differs(s: &Schema, name: &str, t: &check::ResolvedType, deep: usize, c04: bool) -> Option<String> {
    let d = decls(s);
    match (t, d.get(name)) {
        (check::ResolvedType::Builtin(b), None) => if format!("{:?}", b).to_lowercase() != name { Some(format!("base type {} resolved to {:?}", name, b)) } else { None },
        (check::ResolvedType::Enum(e), Some(Ty::Enum(v))) => {
            if e.variants.iter().map(|x| x.name).collect::<Vec<_>>() != v.iter().map(|x| x.as_str()).collect::<Vec<_>>() { return Some(format!("enum {} has the wrong variants: {:?}", name, e.variants)); }
            if c04 { return None; }
            if e.variants.iter().enumerate().any(|(i, x)| x.value != i) { return Some(format!("enum {} is numbered wrongly: {:?}", name, e.variants)); }
            if e.repr != repr(v.len()) { return Some(format!("enum {} with {} variants is carried in {:?}", name, v.len(), e.repr)); }
            None
        }
        (check::ResolvedType::Struct(x), Some(Ty::Struct(f))) => {
            let got: Vec<_> = x.fields.iter().map(|g| (g.name.to_string(), g.r#type.borrow().0.to_string(), g.array, g.optional)).collect();
            let want: Vec<_> = f.iter().map(|g| (g.name.clone(), g.ty.clone(), g.array, g.optional)).collect();
            if got != want { return Some(format!("struct {} has fields {:?}, declared {:?}", name, got, want)); }
            if deep == 0 { return None; }
            for g in &x.fields { let y = g.r#type.borrow(); if let Some(w) = differs(s, y.0, &y.1, deep - 1, c04) { return Some(w); } }
            None
        }
        _ => Some(format!("{} resolved to another kind of type", name)),
    }
}
fn judge_schema(prop: &str, s: &Schema) -> Option<String> {
    let f = faults(s);
    let a = to_ast(s);
    let r = match guard(|| check::type_check(a)) {
        Ok(r) => r,
        Err(m) => return if prop == "C02" { Some(format!("panic: {}", m)) } else { None },
    };
    match (prop, &r) {
        ("C01", Ok(_)) if !f.is_empty() => Some(format!("accepted although: {}", f.join("; "))),
        ("C02", Err(m)) if f.is_empty() => Some(format!("a schema that obeys every rule was rejected: {}", m)),
        ("C03", Err(m)) if !f.contains(m) => Some(format!("rejected with {:?}, but what is wrong is: [{}]", m, f.join("; "))),
        ("C04" | "C05", Ok(x)) if f.is_empty() => {
            let c04 = prop == "C04";
            let t = check::ResolvedType::Struct(x.export.r#struct.clone());
            if c04 && x.export.name != exports(s)[0] { return Some(format!("exports {}", x.export.name)); }
            if let Some(w) = differs(s, x.export.name, &t, 6, c04) { return Some(w); }
            for (n, p) in x.types.iter() { let y = p.borrow(); if let Some(w) = differs(s, n, &y.1, 1, c04) { return Some(w); } }
            None
        }
        ("C06", Ok(x)) if f.is_empty() => {
            let d = decls(s);
            let mut want: Vec<&str> = reach(&d, x.export.name).into_iter().collect();
            want.push(x.export.name);
            want.sort_unstable(); want.dedup();
            let mut got: Vec<&str> = x.types.keys().copied().collect();
            got.sort_unstable();
            // base types and the export itself are never declared, so keeping them or not is not observable
            let decl = |v: Vec<&str>| v.into_iter().filter(|n| !builtin(n) && *n != x.export.name).map(|n| n.to_string()).collect::<Vec<_>>();
            let (want, got) = (decl(want), decl(got));
            if want != got { Some(format!("kept types {:?}, the export needs {:?}", got, want)) } else { None }
        }
        _ => None,
    }
}
fn plain(s: &Schema) -> String { print(&mut Rng(1), s, &Layout { plain: true }) }

pub fn judge(prop: &str, r: &mut Rng) -> Option<(String, String)> {
    match prop {
        "C01" | "C02" | "C03" => { let s = any(r); for _ in 0..2 { if let Some(w) = judge_schema(prop, &s) { return Some((w, plain(&s))); } } None }
        "C04" | "C05" | "C06" => { let big = r.chance(50); let s = if due(r, 150) { sized(r, 500, true) } else if r.chance(25) { graph(r) } else { valid(r, big) }; for _ in 0..2 { if let Some(w) = judge_schema(prop, &s) { return Some((w, plain(&s))); } } None }
        _ => None,
    }
}
pub fn judge_text(prop: &str, t: &str) -> Option<(String, String)> {
    let want = grammar::parse(t);
    let w = match prop {
        "C01" | "C02" | "C03" | "C04" | "C05" | "C06" => match &want { Ok(s) => (0..3).find_map(|_| judge_schema(prop, s)), Err(_) => None },
        "C11" | "C12" => match (guard(|| parser::pkt::schema(t)), &want) {
            (Ok(Ok(got)), Ok(s)) => { let w = to_ast(s); if got != w { Some(format!("parsed as {:?}, written is {:?}", got, w)) } else { None } }
            (Ok(Ok(got)), Err(at)) => Some(format!("a text outside the format (wrong at byte {}) parsed as {:?}", at, got)),
            (Ok(Err(e)), Ok(_)) => Some(format!("a text in the format gave a parse error at {}", e.location)),
            (Err(m), _) => Some(format!("panic: {}", m)),
            _ => None,
        },
        _ => None,
    };
    w.map(|w| (w, t.to_string()))
}
