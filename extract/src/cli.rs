//! The command-line program (src/main.rs).  Its functions work on the file
//! system, so every one of them gets it as an explicit last parameter:
//!
//! * `fn f(..)` becomes `fn f(.., __w: &mut World)`, and calls of the program's own
//!   functions, of `fs::..` and of `is_dir` / `is_file` / `exists` pass it on;
//! * a closure passed to one of the program's functions becomes a function of its
//!   own (`run_all__1` for the first one in run_all) with what it captures as
//!   parameters: locals (their types are given by `//@lift`), then parameters;
//! * `e?` becomes `match e { Ok(v) => v, Err(e) => return Err(v_err(e)) }`;
//! * `anyhow!(..)` becomes an opaque error value, `x == "text"` becomes `x.v_is("text")`;
//! * trait impls (argument parsing) are dropped.
use crate::contracts::Contracts;
use crate::lower::{norm, path_ident, Res, VecPass};
use quote::format_ident;
use std::collections::{BTreeMap, BTreeSet};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct Lifted {
    name: String,
    env: Vec<Type>,
}

/// the parameter types and result of a closure parameter
fn closure_sig(t: &Type) -> Option<(Vec<Type>, ReturnType)> {
    let bounds = match t {
        Type::Reference(r) => return closure_sig(&r.elem),
        Type::Paren(r) => return closure_sig(&r.elem),
        Type::TraitObject(o) => &o.bounds,
        Type::ImplTrait(o) => &o.bounds,
        _ => return None,
    };
    bounds.iter().find_map(|b| match b {
        TypeParamBound::Trait(t) => {
            let s = t.path.segments.last()?;
            match &s.arguments {
                PathArguments::Parenthesized(p) if s.ident.to_string().starts_with("Fn") => Some((p.inputs.iter().cloned().collect(), p.output.clone())),
                _ => None,
            }
        }
        _ => None,
    })
}
fn closure_of(e: &Expr) -> Option<&ExprClosure> {
    match e {
        Expr::Closure(c) => Some(c),
        Expr::Reference(r) => closure_of(&r.expr),
        Expr::Paren(r) => closure_of(&r.expr),
        _ => None,
    }
}
/// `cb`, `&mut *cb`, `&mut cb`
fn base_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Reference(r) => base_ident(&r.expr),
        Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => base_ident(&u.expr),
        Expr::Paren(p) => base_ident(&p.expr),
        e => path_ident(e),
    }
}

struct Bound(BTreeSet<String>);
impl<'ast> Visit<'ast> for Bound {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        self.0.insert(p.ident.to_string());
        syn::visit::visit_pat_ident(self, p);
    }
}
struct Used(Vec<String>);
impl<'ast> Visit<'ast> for Used {
    fn visit_expr_path(&mut self, p: &'ast ExprPath) {
        if let Some(i) = p.path.get_ident() {
            if !self.0.contains(&i.to_string()) {
                self.0.push(i.to_string());
            }
        }
    }
}

/// replaces the closures in one function
struct Lift<'a> {
    owner: String,
    outer: BTreeSet<String>,
    params: Vec<(String, Type)>,
    takes: &'a BTreeMap<String, (usize, Vec<Type>, ReturnType)>,
    lifted: &'a mut BTreeMap<String, Lifted>,
    made: Vec<ItemFn>,
    cs: &'a Contracts,
    n: usize,
    err: Option<String>,
}
impl<'a> VisitMut for Lift<'a> {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        visit_mut::visit_expr_call_mut(self, c);
        let callee = match path_ident(&c.func) {
            Some(n) => n,
            None => return,
        };
        let (at, ins, out) = match self.takes.get(&callee) {
            Some(t) => t,
            None => return,
        };
        let cl = match c.args.iter().nth(*at).and_then(closure_of) {
            Some(cl) => cl.clone(),
            None => return,
        };
        self.n += 1;
        let name = format!("{}__{}", self.owner, self.n);
        let mut bound = Bound(Default::default());
        bound.visit_expr_closure(&cl);
        let mut used = Used(vec![]);
        used.visit_expr(&cl.body);
        let free: Vec<String> = used.0.into_iter().filter(|u| self.outer.contains(u) && !bound.0.contains(u)).collect();
        let params: Vec<(String, Type)> = self.params.iter().filter(|(n, _)| free.contains(n)).cloned().collect();
        let mut free: Vec<String> = free.into_iter().filter(|u| !params.iter().any(|(n, _)| n == u)).collect();
        let mut types: Vec<Type> = match self.cs.fns.get(&format!("cli::{}", name)).map(|f| f.lift.clone()) {
            Some(t) => match t.split(';').filter(|s| !s.trim().is_empty()).map(|s| parse_str(s)).collect() {
                Ok(v) => v,
                Err(e) => {
                    self.err = Some(format!("//@lift of {}: {}", name, e));
                    return;
                }
            },
            None => {
                self.err = Some(format!("a closure is passed to {}, and there is no contract for {}", callee, name));
                return;
            }
        };
        if types.len() != free.len() || ins.len() != cl.inputs.len() {
            self.err = Some(format!("lost anchor: {} captures {:?}", name, free));
            return;
        }
        for (n, t) in params {
            free.push(n);
            types.push(t);
        }
        if self.lifted.contains_key(&callee) {
            self.err = Some(format!("{} is called with more than one closure", callee));
            return;
        }
        let id = format_ident!("{}", name);
        let mut f: ItemFn = parse_quote!(fn #id() #out {});
        for (p, t) in cl.inputs.iter().zip(ins) {
            let p = match p {
                Pat::Type(p) => &*p.pat,
                p => p,
            };
            f.sig.inputs.push(parse_quote!(#p: #t));
        }
        let mut args: Vec<Expr> = Vec::new();
        for (v, t) in free.iter().zip(&types) {
            let v = format_ident!("{}", v);
            f.sig.inputs.push(parse_quote!(#v: #t));
            let local = !self.params.iter().any(|(n, _)| v == n);
            args.push(if !local {
                parse_quote!(#v)
            } else if matches!(t, Type::Reference(r) if r.mutability.is_some()) {
                parse_quote!(&mut #v)
            } else if matches!(t, Type::Reference(_)) {
                parse_quote!(&#v)
            } else {
                parse_quote!(#v)
            });
        }
        *f.block = match &*cl.body {
            Expr::Block(b) => b.block.clone(),
            e => parse_quote!({ #e }),
        };
        let mut all: Vec<Expr> = c.args.iter().cloned().collect();
        all.splice(*at..*at + 1, args);
        c.args = all.into_iter().collect();
        self.lifted.insert(callee, Lifted { name, env: types });
        self.made.push(f);
    }
}

/// replaces the closure parameter inside the function that takes it
struct Callee {
    owner: String,
    at: usize,
    param: String,
    to: String,
    env: Vec<Ident>,
    err: Option<String>,
}
impl VisitMut for Callee {
    fn visit_expr_call_mut(&mut self, c: &mut ExprCall) {
        for (i, a) in c.args.iter().enumerate() {
            if base_ident(a).as_ref() == Some(&self.param) && !(i == self.at && path_ident(&c.func).as_ref() == Some(&self.owner)) {
                self.err = Some(format!("{} passes its closure on", self.owner));
            }
        }
        if path_ident(&c.func).as_ref() == Some(&self.owner) {
            if c.args.iter().nth(self.at).and_then(base_ident).as_ref() == Some(&self.param) {
                let mut all: Vec<Expr> = c.args.iter().cloned().collect();
                let env = &self.env;
                all.splice(self.at..self.at + 1, env.iter().map(|e| -> Expr { parse_quote!(#e) }));
                c.args = all.into_iter().collect();
            }
        }
        if base_ident(&c.func).as_ref() == Some(&self.param) {
            let to = format_ident!("{}", self.to);
            c.func = parse_quote!(#to);
            for e in &self.env {
                c.args.push(parse_quote!(#e));
            }
        }
        visit_mut::visit_expr_call_mut(self, c);
    }
}

/// the file system parameter, `?` and errors
struct World<'a> {
    own: &'a BTreeSet<String>,
    err: Option<String>,
}
impl<'a> VisitMut for World<'a> {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Closure(c) = e {
            let mut t = Tries(false);
            t.visit_expr(&c.body);
            if t.0 {
                self.err = Some("a closure returns early".into());
            }
        }
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Call(c) => {
                let own = path_ident(&c.func).map_or(false, |n| self.own.contains(&n));
                let f = norm(&c.func);
                let fs = f.split("::<").next().unwrap().to_string();
                let segs: Vec<&str> = fs.split("::").collect();
                if own {
                    c.args.push(parse_quote!(__w));
                } else if segs.len() >= 2 && segs[segs.len() - 2] == "fs" {
                    let last = format_ident!("{}", segs[segs.len() - 1]);
                    c.func = parse_quote!(fs::#last);
                    c.args.push(parse_quote!(__w));
                }
                None
            }
            Expr::MethodCall(m) if m.args.is_empty() && ["is_dir", "is_file", "exists"].contains(&m.method.to_string().as_str()) => {
                m.args.push(parse_quote!(__w));
                None
            }
            Expr::Try(t) => {
                let x = &t.expr;
                Some(parse_quote!(match #x { Ok(__v) => __v, Err(__e) => return Err(v_err(__e)) }))
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let (l, r) = (&b.left, &b.right);
                let (x, t): (&Expr, &Expr) = if is_str(r) { (l, r) } else if is_str(l) { (r, l) } else { return };
                if matches!(b.op, BinOp::Eq(_)) { Some(parse_quote!((#x).v_is(#t))) } else { Some(parse_quote!(!(#x).v_is(#t))) }
            }
            Expr::Macro(m) => match m.mac.path.segments.last().unwrap().ident.to_string().as_str() {
                "anyhow" => Some(parse_quote!(v_anyerr())),
                "bail" => Some(parse_quote!(return Err(v_anyerr()))),
                _ => None,
            },
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if m.mac.path.segments.last().unwrap().ident == "bail" {
                *s = Stmt::Expr(parse_quote!(return Err(v_anyerr())), m.semi_token);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}
fn is_str(e: &Expr) -> bool { matches!(e, Expr::Lit(ExprLit { lit: Lit::Str(_), .. })) }
struct Tries(bool);
impl<'ast> Visit<'ast> for Tries {
    fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true }
    fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true }
}

pub fn prepare(items: Vec<Item>, cs: &Contracts, dropped: &mut Vec<String>) -> Res<Vec<Item>> {
    let mut out: Vec<Item> = Vec::new();
    let mut fns: Vec<ItemFn> = Vec::new();
    for i in items {
        match i {
            Item::Fn(f) => fns.push(f),
            Item::Impl(im) if im.trait_.is_some() => dropped.push(format!("src/main.rs: impl {} for {}", norm(&im.trait_.as_ref().unwrap().1), norm(&im.self_ty))),
            // the two derives that matter to the code
            Item::Enum(mut e) => {
                if e.attrs.iter().any(|a| norm(a).contains("derive") && norm(a).contains("Copy")) {
                    e.attrs = vec![parse_quote!(#[derive(Clone, Copy)])];
                } else {
                    e.attrs.clear();
                }
                out.push(Item::Enum(e))
            }
            i => out.push(i),
        }
    }
    // functions that take a closure
    let mut takes = BTreeMap::new();
    for f in &fns {
        for (k, a) in f.sig.inputs.iter().enumerate() {
            if let FnArg::Typed(t) = a {
                if let Some((ins, o)) = closure_sig(&t.ty) {
                    takes.insert(f.sig.ident.to_string(), (k, ins, o));
                }
            }
        }
    }
    for f in &mut fns {
        VecPass.visit_block_mut(&mut f.block);
    }
    let mut lifted = BTreeMap::new();
    let mut made = Vec::new();
    for f in &mut fns {
        let mut outer = Bound(Default::default());
        outer.visit_item_fn(f);
        let params = f
            .sig
            .inputs
            .iter()
            .filter_map(|a| match a {
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) => Some((i.ident.to_string(), (*t.ty).clone())),
                    _ => None,
                },
                _ => None,
            })
            .collect();
        let mut l = Lift { owner: f.sig.ident.to_string(), outer: outer.0, params, takes: &takes, lifted: &mut lifted, made: vec![], cs, n: 0, err: None };
        l.visit_block_mut(&mut f.block);
        if let Some(e) = l.err {
            return Err(e);
        }
        made.extend(l.made);
    }
    for f in &mut fns {
        let name = f.sig.ident.to_string();
        let (at, l) = match (takes.get(&name), lifted.get(&name)) {
            (Some(t), Some(l)) => (t.0, l),
            (Some(_), None) => return Err(format!("{} takes a closure that is not written at the call", name)),
            _ => continue,
        };
        let param = match f.sig.inputs.iter().nth(at) {
            Some(FnArg::Typed(t)) => norm(&t.pat).trim_start_matches("mut").to_string(),
            _ => return Err(format!("{}: closure parameter", name)),
        };
        let env: Vec<Ident> = (0..l.env.len()).map(|i| format_ident!("__cb{}", i)).collect();
        let mut all: Vec<FnArg> = f.sig.inputs.iter().cloned().collect();
        all.splice(at..at + 1, env.iter().zip(&l.env).map(|(n, t)| -> FnArg { parse_quote!(#n: #t) }));
        f.sig.inputs = all.into_iter().collect();
        let mut c = Callee { owner: name.clone(), at, param, to: l.name.clone(), env, err: None };
        c.visit_block_mut(&mut f.block);
        if let Some(e) = c.err {
            return Err(e);
        }
    }
    fns.extend(made);
    let own: BTreeSet<String> = fns.iter().map(|f| f.sig.ident.to_string()).collect();
    for mut f in fns {
        let mut w = World { own: &own, err: None };
        w.visit_block_mut(&mut f.block);
        if let Some(e) = w.err {
            return Err(format!("{}: {}", f.sig.ident, e));
        }
        f.sig.inputs.push(parse_quote!(__w: &mut World));
        out.push(Item::Fn(f));
    }
    Ok(out)
}
