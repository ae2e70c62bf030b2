//! Mechanical extraction of /repo's functions into one Verus file.
//!
//!   pktx --repo DIR --contracts DIR --modules a,b --out FILE --report FILE [--probe 1]
//!
//! Exit status: 0 extraction written, 3 the source is outside the supported
//! subset (the message says where), 2 usage or I/O error.
mod cli;
mod contracts;
mod fmtstr;
mod lower;
mod pegrt;
mod printer;
mod marks;

use lower::*;
use proc_macro2::TokenStream;
use quote::{quote, ToTokens};
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::fs;
use syn::visit_mut::VisitMut;
use syn::*;

/// (module, file, text-writing macros record token pieces)
const FILES: &[(&str, &str, bool)] = &[
    ("ast", "src/lib/ast.rs", false),
    ("check", "src/lib/check.rs", false),
    ("gen_ctx", "src/lib/gen/gen_ctx.rs", true),
    ("gen", "src/lib/gen/mod.rs", true),
    ("ts", "src/lib/gen/ts.rs", true),
    ("pegrt", RUNTIME, false),
    ("parser", EXPANDED, false),
    ("lib", "src/lib/lib.rs", false),
    ("cli", "src/main.rs", false),
];
/// the parser is read after rustc has expanded peg's macro: module pkt of module parser
const EXPANDED: &str = "src/lib/parser.rs (expanded)";

/// the parser generator's runtime, from cargo's registry
const RUNTIME: &str = "peg-runtime";

/// the items of a module inside a module
fn inner(items: Vec<Item>, path: &[&str]) -> Option<Vec<Item>> {
    match path.first() {
        None => Some(items),
        Some(n) => items.into_iter().find_map(|i| match i {
            Item::Mod(m) if m.ident == n && !is_test(&m.attrs) => m.content,
            _ => None,
        }).and_then(|(_, v)| inner(v, &path[1..])),
    }
}

/// Functions written inside a function's body, at its start, become functions of the
/// module: they can name nothing of the body around them.
fn hoist(items: Vec<Item>) -> Res<Vec<Item>> {
    let mut out: Vec<Item> = Vec::new();
    let mut found: Vec<Item> = Vec::new();
    let mut take = |b: &mut Block| {
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Fn(f)) => {
                found.push(Item::Fn(f.clone()));
                false
            }
            _ => true,
        })
    };
    for mut i in items {
        match &mut i {
            Item::Fn(f) if !is_test(&f.attrs) => take(&mut f.block),
            Item::Impl(im) => im.items.iter_mut().for_each(|x| {
                if let ImplItem::Fn(f) = x {
                    take(&mut f.block)
                }
            }),
            _ => (),
        }
        out.push(i);
    }
    for f in found {
        let name = match &f {
            Item::Fn(g) => g.sig.ident.clone(),
            _ => continue,
        };
        if out.iter().any(|i| matches!(i, Item::Fn(g) if g.sig.ident == name)) {
            return Err(format!("two functions named {}", name));
        }
        out.push(f);
    }
    Ok(out)
}

fn is_test(attrs: &[Attribute]) -> bool { attrs.iter().any(|a| norm(a).contains("cfg(test)")) }

struct StripAttrs;
impl VisitMut for StripAttrs {
    fn visit_attributes_mut(&mut self, a: &mut Vec<Attribute>) { a.clear() }
}
struct MakePub;
impl VisitMut for MakePub {
    fn visit_field_mut(&mut self, f: &mut Field) { f.vis = parse_quote!(pub) }
    fn visit_variant_mut(&mut self, _: &mut Variant) {}
}

/// The generator is generic over the target language, and TypeScript is the only
/// one that is compiled: type parameters bound by `Language` are replaced by it.
#[derive(Default)]
struct Mono(BTreeSet<String>);
impl Mono {
    fn is_lang(bounds: &syn::punctuated::Punctuated<TypeParamBound, Token![+]>) -> bool {
        bounds.iter().any(|b| matches!(b, TypeParamBound::Trait(t) if t.path.segments.last().map_or(false, |s| s.ident == "Language")))
    }
    fn generics(&mut self, g: &mut Generics) {
        if let Some(w) = &g.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(t) = p {
                    if Mono::is_lang(&t.bounds) {
                        self.0.insert(norm(&t.bounded_ty));
                    }
                }
            }
        }
        for p in &g.params {
            if let GenericParam::Type(t) = p {
                if Mono::is_lang(&t.bounds) {
                    self.0.insert(t.ident.to_string());
                }
            }
        }
        let keep = |p: &GenericParam| !matches!(p, GenericParam::Type(t) if self.0.contains(&t.ident.to_string()));
        g.params = g.params.iter().filter(|p| keep(p)).cloned().collect();
        if let Some(w) = &mut g.where_clause {
            w.predicates = w.predicates.iter().filter(|p| !matches!(p, WherePredicate::Type(t) if self.0.contains(&norm(&t.bounded_ty)))).cloned().collect();
            if w.predicates.is_empty() {
                g.where_clause = None;
            }
        }
        if g.params.is_empty() {
            g.lt_token = None;
            g.gt_token = None;
        }
    }
    fn item(&mut self, it: &mut Item) {
        self.0.clear();
        match it {
            Item::Fn(f) => self.generics(&mut f.sig.generics),
            Item::Struct(f) => self.generics(&mut f.generics),
            Item::Impl(f) => self.generics(&mut f.generics),
            _ => return,
        }
        if !self.0.is_empty() {
            self.visit_item_mut(it);
        }
    }
}
impl VisitMut for Mono {
    fn visit_path_mut(&mut self, p: &mut Path) {
        if self.0.contains(&p.segments[0].ident.to_string()) && p.segments[0].arguments.is_empty() {
            let rest: Vec<PathSegment> = p.segments.iter().skip(1).cloned().collect();
            let mut q: Path = parse_quote!(crate::ts::TypeScript);
            q.segments.extend(rest);
            *p = q;
        }
        syn::visit_mut::visit_path_mut(self, p);
        for s in p.segments.iter_mut() {
            if let PathArguments::AngleBracketed(a) = &s.arguments {
                if a.args.len() == 1 && norm(&a.args[0]) == "crate::ts::TypeScript" {
                    s.arguments = PathArguments::None;
                }
            }
        }
    }
}

/// refuses sources that use what the erased RefCell / Rc model cannot express
fn forbidden(src: &TokenStream) -> Option<String> {
    fn walk(ts: TokenStream, out: &mut Option<String>) {
        for t in ts {
            match t {
                proc_macro2::TokenTree::Group(g) => walk(g.stream(), out),
                proc_macro2::TokenTree::Ident(i) => {
                    let s = i.to_string();
                    if matches!(s.as_str(), "borrow_mut" | "get_mut" | "make_mut" | "as_ptr" | "unsafe" | "replace_with" | "try_borrow_mut" | "ptr_eq" | "strong_count" | "static" | "thread_local") {
                        *out = Some(s);
                    }
                }
                _ => (),
            }
        }
    }
    let mut out = None;
    walk(src.clone(), &mut out);
    out
}

const PTR_ITEMS: &str = r#"
pub struct Ptr<T>(pub Rc<RefCell<T>>);
impl<T> Ptr<T> {
    pub fn new(value: T) -> Ptr<T> { Ptr(Rc::new(RefCell::new(value))) }
    pub fn strong_count(&self) -> usize { Rc::strong_count(&self.0) }
}
impl<T> std::ops::Deref for Ptr<T> {
    type Target = Rc<RefCell<T>>;
    fn deref(&self) -> &Self::Target { &self.0 }
}
"#;

fn main() {
    let mut repo = String::new();
    let mut cdir = String::new();
    let mut modules: Vec<String> = Vec::new();
    let mut out = String::new();
    let mut report = String::new();
    let mut probe = false;
    let mut expanded = String::new();
    let mut peg = String::new();
    let a: Vec<String> = std::env::args().collect();
    let mut i = 1;
    while i + 1 < a.len() {
        match a[i].as_str() {
            "--repo" => repo = a[i + 1].clone(),
            "--contracts" => cdir = a[i + 1].clone(),
            "--modules" => modules = a[i + 1].split(',').map(|s| s.to_string()).collect(),
            "--out" => out = a[i + 1].clone(),
            "--report" => report = a[i + 1].clone(),
            "--expanded" => expanded = a[i + 1].clone(),
            "--peg" => peg = a[i + 1].clone(),
            "--probe" => probe = a[i + 1] == "1",
            o => {
                eprintln!("unknown option {}", o);
                std::process::exit(2)
            }
        }
        i += 2;
    }
    match run(&repo, &cdir, &modules, &expanded, &peg, probe) {
        Ok((text, rep)) => {
            fs::write(&out, text).unwrap();
            fs::write(&report, rep).unwrap();
        }
        Err(e) => {
            eprintln!("pktx: {}", e);
            std::process::exit(3);
        }
    }
}

fn json(s: &str) -> String { format!("{:?}", s).replace("\\'", "'") }

fn run(repo: &str, cdir: &str, modules: &[String], expanded: &str, peg: &str, probe: bool) -> Res<(String, String)> {
    // ---- contracts
    let mut cs = contracts::Contracts::default();
    let read = |p: String| fs::read_to_string(&p).map_err(|e| format!("{}: {}", p, e));
    let prelude = read(format!("{}/prelude.rs", cdir))?;
    for m in modules {
        let p = format!("{}/{}.vc", cdir, m);
        if let Ok(t) = fs::read_to_string(&p) {
            let t = fmtstr::expand_emit(&t).map_err(|e| format!("{}: {}", p, e))?;
            contracts::parse(&t, &mut cs).map_err(|e| format!("{}: {}", p, e))?;
        }
    }
    if probe {
        // every function gets an assertion that must fail: it shows that its end can be reached
        for c in cs.fns.values_mut() {
            c.exit.push_str("\n        proof { assert(false); }\n");
        }
    }
    // ---- sources
    let mut units: HashMap<String, FnUnit> = HashMap::new();
    let mut unit_err: HashMap<String, String> = HashMap::new();
    let mut order: Vec<String> = Vec::new();
    let mut types: BTreeMap<String, Vec<Item>> = BTreeMap::new();
    let mut dropped: Vec<String> = Vec::new();
    let expect_ptr: Vec<String> = parse_file(PTR_ITEMS).unwrap().items.iter().map(norm).collect();
    let mut uses: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
    let mut lits = Lits::default();
    let mut macro_defs: BTreeMap<String, String> = BTreeMap::new();
    for (module, file, _) in FILES {
        if !modules.iter().any(|m| m == module) {
            continue;
        }
        let src = if *file == EXPANDED {
            read(expanded.to_string())?
        } else if *file == RUNTIME {
            ["lib.rs", "str.rs", "error.rs"].iter().map(|f| read(format!("{}/{}", peg, f))).collect::<Res<Vec<_>>>()?.concat().replace("//!", "//")
        } else { read(format!("{}/{}", repo, file))? };
        let ast = parse_file(&src).map_err(|e| format!("{}: {}", file, e))?;
        let mut ptr_seen = 0;
        let items = if *file == EXPANDED { inner(ast.items, &["parser", "pkt"]).ok_or("no grammar pkt in module parser")? } else { ast.items };
        let items = if *file == EXPANDED || *file == RUNTIME { items } else { inline_consts(items).map_err(|e| format!("{}: {}", file, e))? };
        let items = if *module == "cli" { cli::prepare(items, &cs, &mut dropped)? } else { items };
        let items = if *file == RUNTIME { pegrt::prepare(items, &mut dropped) } else { items };
        let items = hoist(items)?;
        for mut item in items {
            let attrs = match &item {
                Item::Mod(m) => m.attrs.clone(),
                Item::Fn(f) => f.attrs.clone(),
                Item::Struct(f) => f.attrs.clone(),
                Item::Enum(f) => f.attrs.clone(),
                Item::Impl(f) => f.attrs.clone(),
                Item::Use(f) => f.attrs.clone(),
                _ => vec![],
            };
            if is_test(&attrs) {
                continue;
            }
            if attrs.iter().any(|a| norm(a).starts_with("#[cfg")) {
                dropped.push(format!("{}: cfg-guarded item", file));
                continue;
            }
            match &mut item {
                Item::Enum(e) if *module == "cli" => e.variants.iter_mut().for_each(|v| v.attrs.clear()),
                _ => StripAttrs.visit_item_mut(&mut item),
            }
            Mono::default().item(&mut item);
            if *file == EXPANDED || *module == "lib" {
                PegPass.visit_item_mut(&mut item);
            }
            if expect_ptr.contains(&norm(&item)) {
                ptr_seen += 1;
                dropped.push(format!("{}: Ptr (replaced by the prelude's)", file));
                continue;
            }
            match item {
                Item::Struct(ref s) if s.ident == "Ptr" => return Err("check::Ptr has changed".into()),
                Item::Use(_) | Item::Mod(_) | Item::ExternCrate(_) => (),
                Item::Macro(m) => {
                    if let Some(id) = &m.ident {
                        macro_defs.insert(id.to_string(), norm(&m.mac.tokens));
                    }
                }
                Item::Const(c) => dropped.push(format!("{}: const {}", file, c.ident)),
                Item::Struct(mut s) => {
                    MakePub.visit_item_struct_mut(&mut s);
                    s.vis = parse_quote!(pub);
                    types.entry(module.to_string()).or_default().push(Item::Struct(s));
                }
                Item::Enum(mut s) => {
                    s.vis = parse_quote!(pub);
                    types.entry(module.to_string()).or_default().push(Item::Enum(s));
                }
                Item::Type(t) if t.ident == "PositionRepr" => dropped.push(format!("{}: type PositionRepr (peg::str::LineCol)", file)),
                Item::Type(mut t) => {
                    t.vis = parse_quote!(pub);
                    types.entry(module.to_string()).or_default().push(Item::Type(t))
                }
                Item::Trait(t) => dropped.push(format!("{}: trait {}", file, t.ident)),
                Item::Fn(f) => {
                    let key = format!("{}::{}", module, f.sig.ident);
                    add_unit(&mut units, &mut unit_err, &mut order, key, module, f.sig, *f.block, None);
                }
                Item::Impl(im) => {
                    let ty = match &*im.self_ty {
                        Type::Path(p) => p.path.segments.last().unwrap().ident.to_string(),
                        t => norm(t),
                    };
                    if let Some((_, tr, _)) = &im.trait_ {
                        let t = norm(tr);
                        if t.contains("Display") || t == "Default" {
                            dropped.push(format!("{}: impl {} for {}", file, t, ty));
                            continue;
                        }
                    }
                    for it in im.items {
                        if let ImplItem::Fn(f) = it {
                            let key = format!("{}::{}::{}", module, ty, f.sig.ident);
                            let head = {
                                let (g, t, w) = (&im.generics, &im.self_ty, &im.generics.where_clause);
                                quote!(impl #g #t #w).to_string()
                            };
                            add_unit(&mut units, &mut unit_err, &mut order, key, module, f.sig, f.block, Some((ty.clone(), head)));
                        }
                    }
                }
                o => return Err(format!("{}: unsupported item {}", file, norm(&o).chars().take(60).collect::<String>())),
            }
        }
        if *module == "check" && ptr_seen != expect_ptr.len() {
            return Err("check::Ptr or its impls have changed".into());
        }
    }
    if modules.iter().any(|m| m == "gen") {
        let want_append = "($dst:expr,$($arg:tt)*)=>(fstrings::write_f!($dst,$($arg)*).unwrap());($dst:expr,$arg:expr)=>(fstrings::write_f!($dst,\"{}\",$arg).unwrap());";
        let want_cat = "($ctx:ident+++)=>{$ctx.push_indent()};($ctx:ident---)=>{$ctx.pop_indent()};($ctx:ident,$($arg:tt)*)=>{{letfmt=fstrings::format_f!($($arg)*);fstrings::write_f!($ctx.out,\"{}{}\",$ctx.indentation,fmt).unwrap()}};";
        for (n, w) in [("append", want_append), ("cat", want_cat)] {
            match macro_defs.get(n) {
                Some(t) if t == w => (),
                Some(t) => return Err(format!("macro {}! has changed: {}", n, t)),
                None => return Err(format!("macro {}! is gone", n)),
            }
        }
    }
    for u in units.values_mut() {
        if FILES.iter().any(|(m, _, p)| *m == u.module && *p) {
            syn::visit::Visit::visit_block(&mut lits, &u.block);
        }
        let mut h = Hoist::default();
        h.visit_block_mut(&mut u.block);
        uses.entry(u.module.clone()).or_default().extend(h.0);
    }
    // ---- every contracted function must still exist
    let mut missing: Vec<&String> = cs.fns.keys().filter(|k| !units.contains_key(*k)).collect();
    missing.sort();
    if !missing.is_empty() {
        return Err(format!("lost anchor: no function {}", missing.iter().map(|s| s.as_str()).collect::<Vec<_>>().join(", ")));
    }
    // ---- lower
    let mut inlined: BTreeSet<String> = BTreeSet::new();
    let mut raws: Vec<String> = Vec::new();
    let mut bodies: HashMap<String, String> = HashMap::new();
    for key in &order {
        let c = match cs.fns.get(key) {
            Some(c) => c,
            None => continue,
        };
        if let Some(e) = unit_err.get(key) {
            return Err(format!("{}: {}", key, e));
        }
        let mut u = units[key].clone();
        if !c.external {
            if let Some(w) = forbidden(&u.block.to_token_stream()) {
                return Err(format!("{}: uses `{}`", key, w));
            }
            let mut inl = Inliner {
                fns: &units,
                contracts: &cs.fns,
                module: u.module.clone(),
                env: Default::default(),
                counter: 0,
                depth: 0,
                err: None,
                inlined: Default::default(),
                fails_with: None,
            };
            inl.run(&u.sig, &mut u.block);
            if let Some(e) = inl.err {
                return Err(format!("{}: {}", key, e));
            }
            for k in &inl.inlined {
                if let Some(e) = unit_err.get(k) {
                    return Err(format!("{}: {}", k, e));
                }
                if let Some(w) = forbidden(&units[k].block.to_token_stream()) {
                    return Err(format!("{}: uses `{}`", k, w));
                }
            }
            inlined.extend(inl.inlined);
            NoopPass.visit_block_mut(&mut u.block);
            let mut fe = ForPass { n: 0 };
            let mut sp = StdPass { err: None };
            sp.visit_block_mut(&mut u.block);
            if let Some(e) = sp.err {
                return Err(format!("{}: {}", key, e));
            }
            fe.visit_block_mut(&mut u.block);
            marks::place(&mut u, c, &mut raws, fe.n).map_err(|e| format!("{}: {}", key, e))?;
        }
        bodies.insert(key.clone(), marks::print_fn(&u, c, &mut raws).map_err(|e| format!("{}: {}", key, e))?);
    }
    // ---- print
    let mut text = String::from("#![allow(unused_imports, unused_variables, unused_mut, dead_code, unused_parens, unused_braces, unused_assignments, non_snake_case, unused_must_use, path_statements, unreachable_code)]\n");
    text.push_str(&prelude);
    let raw_for = |m: &str| -> String {
        cs.raw.iter().filter(|(n, _)| n.split_whitespace().next() == Some(m)).map(|(_, t)| t.clone()).collect::<Vec<_>>().join("\n")
    };
    if modules.iter().any(|m| m == "gen_ctx") {
        text.push_str(&lits.lemmas());
    }
    for (module, _, _) in FILES {
        if !modules.iter().any(|m| m == module) {
            continue;
        }
        text.push_str(&format!("pub mod {} {{\nuse vstd::prelude::*;\nuse crate::prelude::*;\n", module));
        for (m2, _, _) in FILES {
            if m2 != module && modules.iter().any(|m| m == m2) {
                text.push_str(&format!("use crate::{};\n", m2));
            }
        }
        for u in uses.get(*module).into_iter().flatten() {
            text.push_str(u);
            text.push('\n');
        }
        text.push_str(&raw_for(&format!("{}.use", module)));
        text.push_str("\nverus! {\n");
        for t in types.get(*module).into_iter().flatten() {
            let mut p = printer::Printer::new(&raws);
            p.print(t.to_token_stream(), false);
            text.push_str(&p.out);
            text.push('\n');
        }
        text.push_str(&raw_for(module));
        for key in &order {
            if units[key].module == *module {
                if let Some(b) = bodies.get(key) {
                    text.push_str(&format!("// @fn {}\n", key));
                    text.push_str(b);
                    text.push('\n');
                }
            }
        }
        text.push_str(&raw_for(&format!("{}.end", module)));
        text.push_str("} // verus!\n}\n");
    }
    text.push_str(&raw_for("top"));
    text.push_str("\nfn main() {}\n");
    // ---- report
    let list = |v: Vec<String>| format!("[{}]", v.iter().map(|s| json(s)).collect::<Vec<_>>().join(", "));
    let under: Vec<String> = order.iter().filter(|k| cs.fns.contains_key(*k) && !cs.fns[*k].external).cloned().collect();
    let ext: Vec<String> = order.iter().filter(|k| cs.fns.get(*k).map_or(false, |c| c.external)).cloned().collect();
    let none: Vec<String> = order.iter().filter(|k| !cs.fns.contains_key(*k) && !inlined.contains(*k)).cloned().collect();
    let props: Vec<String> = order
        .iter()
        .filter_map(|k| cs.fns.get(k).map(|c| format!("{}: {}", json(k), list(c.props.clone()))))
        .collect();
    let rep = format!(
        "{{\"under_contract\": {},\n\"inlined\": {},\n\"assumed\": {},\n\"not_extracted\": {},\n\"dropped\": {},\n\"props\": {{{}}}}}\n",
        list(under), list(inlined.into_iter().collect()), list(ext), list(none), list(dropped), props.join(", ")
    );
    Ok((text, rep))
}

/// string literals of more than one token
#[derive(Default)]
struct Lits(BTreeSet<String>);
impl<'ast> syn::visit::Visit<'ast> for Lits {
    fn visit_lit_str(&mut self, l: &'ast LitStr) {
        if fmtstr::split(&l.value()).len() > 1 {
            self.0.insert(l.value());
        }
    }
}
impl Lits {
    /// appending such a literal is appending its tokens (proved, not assumed)
    fn lemmas(&self) -> String {
        let mut t = String::from("pub mod lits {\nuse vstd::prelude::*;\nuse crate::prelude::*;\nverus! {\n");
        let mut names: Vec<String> = vec![];
        t.push_str("pub broadcast proof fn lemma_assoc(a: Name, b: Name, c: Name)\n    ensures #[trigger] (a + (b + c)) == (a + b) + c,\n{ assert(a + (b + c) =~= (a + b) + c); }\n");
        for (i, l) in self.0.iter().enumerate() {
            let ts = fmtstr::split(l);
            let mut e = "a".to_string();
            let mut rev = format!("reveal_strlit({:?});", l);
            for k in &ts {
                e = format!("({} + {:?}@)", e, k);
                rev.push_str(&format!(" reveal_strlit({:?});", k));
            }
            t.push_str(&format!("pub broadcast proof fn lemma_lit{i}(a: Name)\n    ensures #[trigger] (a + {l:?}@) == {e},\n{{ {rev} assert(a + {l:?}@ =~= {e}); }}\n"));
            names.push(format!("lemma_lit{}", i));
        }
        t.push_str(&format!("pub broadcast group tokens {{ {} }}\n}} // verus!\n}}\n", names.join(", ")));
        t
    }
}

/// `use` declarations inside functions are moved to the module
#[derive(Default)]
struct Hoist(BTreeSet<String>);
impl VisitMut for Hoist {
    fn visit_block_mut(&mut self, b: &mut Block) {
        b.stmts.retain(|s| match s {
            Stmt::Item(Item::Use(u)) => {
                self.0.insert(u.to_token_stream().to_string());
                false
            }
            _ => true,
        });
        syn::visit_mut::visit_block_mut(self, b);
    }
}

fn add_unit(
    units: &mut HashMap<String, FnUnit>, errs: &mut HashMap<String, String>, order: &mut Vec<String>, key: String, module: &str,
    mut sig: Signature, mut block: Block, imp: Option<(String, String)>,
) {
    let mut mp = MacroPass { err: None, pieces: module == "lib" };
    mp.visit_block_mut(&mut block);
    StripAttrs.visit_block_mut(&mut block);
    StripAttrs.visit_signature_mut(&mut sig);
    RawLocalPass.visit_signature_mut(&mut sig);
    RawLocalPass.visit_block_mut(&mut block);
    if module == "ts" {
        VecPass.visit_block_mut(&mut block);
    }
    // for_each closures become loops before closures are looked at
    ForEachPass::tail(&mut block);
    ForEachPass.visit_block_mut(&mut block);
    if module != "cli" {
        ResultPass::function(&sig, &mut block);
    }
    LateLetPass.visit_block_mut(&mut block);
    IndexPass.visit_block_mut(&mut block);
    CombPass { option: module == "cli" }.visit_block_mut(&mut block);
    if let Some(e) = mp.err {
        errs.insert(key.clone(), e);
    }
    order.push(key.clone());
    let (self_ty, impl_head) = match imp {
        Some((t, h)) => (Some(t), Some(h)),
        None => (None, None),
    };
    units.insert(key.clone(), FnUnit { key, module: module.to_string(), sig, block, self_ty, impl_head });
}
