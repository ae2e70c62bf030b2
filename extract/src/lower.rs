//! Passes over function bodies.  Each pass is syntactic and mechanical; what a
//! pass drops or replaces is listed in DESIGN.md ("What the extraction does").
use crate::contracts::FnContract;
use crate::fmtstr::{self, Piece};
use proc_macro2::TokenStream;
use quote::{format_ident, quote, ToTokens};
use std::collections::{BTreeSet, HashMap};
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub type Res<T> = std::result::Result<T, String>;

pub fn norm<T: ToTokens>(t: &T) -> String {
    t.to_token_stream().to_string().split_whitespace().collect::<Vec<_>>().join("")
}

#[derive(Clone)]
pub struct FnUnit {
    pub key: String,
    pub module: String,
    pub sig: Signature,
    pub block: Block,
    pub self_ty: Option<String>,
    /// text of the surrounding `impl ... Type` header
    pub impl_head: Option<String>,
}

pub fn path_ident(e: &Expr) -> Option<String> {
    match e {
        Expr::Path(p) if p.qself.is_none() && p.path.segments.len() == 1 && p.path.segments[0].arguments.is_empty() => {
            Some(p.path.segments[0].ident.to_string())
        }
        Expr::Paren(p) => path_ident(&p.expr),
        _ => None,
    }
}

// ------------------------------------------------------------------ macros --

pub struct MacroPass {
    pub err: Option<String>,
    /// true: the text of `format!` is cut into tokens, as that of `write!` is
    pub pieces: bool,
}
impl MacroPass {
    fn fail(&mut self, m: impl Into<String>) -> Expr {
        if self.err.is_none() {
            self.err = Some(m.into());
        }
        parse_quote!(())
    }
    fn emit(&mut self, dst: &Expr, ps: Vec<Piece>) -> Expr {
        let ps = fmtstr::canon(&ps);
        let base: &Expr = match dst {
            Expr::Reference(r) => &r.expr,
            e => e,
        };
        let mut lets: Vec<TokenStream> = Vec::new();
        let mut text = quote!(#base.view());
        for p in &ps {
            match p {
                Piece::Lit(l) => text = quote!((#text + #l.view())),
                Piece::Arg(e) => {
                    let id = format_ident!("__a{}", lets.len());
                    lets.push(quote!(let #id = &#e;));
                    text = quote!((#text + #id.disp()));
                }
            }
        }
        parse_quote!({ #(#lets)* let __t = Ghost(#text); v_put(#dst, __t); })
    }
    fn expand(&mut self, m: &Macro) -> Option<Expr> {
        let name = m.path.segments.last().unwrap().ident.to_string();
        let ts = m.tokens.clone();
        Some(match name.as_str() {
            "panic" | "unreachable" | "todo" | "unimplemented" => parse_quote!(v_panic()),
            "println" | "eprintln" | "print" | "eprint" => parse_quote!({}),
            "matches" => {
                struct M(Expr, Pat, Option<Expr>);
                impl syn::parse::Parse for M {
                    fn parse(i: syn::parse::ParseStream) -> Result<M> {
                        let e = i.parse()?;
                        i.parse::<Token![,]>()?;
                        let p = Pat::parse_multi_with_leading_vert(i)?;
                        let g = if i.parse::<Option<Token![if]>>()?.is_some() { Some(i.parse()?) } else { None };
                        i.parse::<Option<Token![,]>>()?;
                        Ok(M(e, p, g))
                    }
                }
                match parse2::<M>(ts) {
                    Ok(M(e, p, None)) => parse_quote!(match #e { #p => true, _ => false }),
                    Ok(M(e, p, Some(g))) => parse_quote!(match #e { #p if #g => true, _ => false }),
                    Err(e) => return Some(self.fail(e.to_string())),
                }
            }
            "debug_assert" | "assert" => {
                let l: fmtstr::ExprList = match parse2(ts) {
                    Ok(l) => l,
                    Err(e) => return Some(self.fail(e.to_string())),
                };
                let c = &l.0[0];
                parse_quote!({ if !(#c) { v_panic::<()>(); } })
            }
            "format" | "format_f" => {
                let f: fmtstr::FmtArgs = match parse2(ts) {
                    Ok(f) => f,
                    Err(e) => return Some(self.fail(e.to_string())),
                };
                let ps = match fmtstr::pieces(&f) {
                    Ok(p) => p,
                    Err(e) => return Some(self.fail(e)),
                };
                if self.pieces {
                    let e = self.emit(&parse_quote!(&mut __f), ps);
                    return Some(parse_quote!({ let mut __f = v_fmt_new(); #e __f }));
                }
                let stmts: Vec<TokenStream> = ps
                    .iter()
                    .map(|p| match p {
                        Piece::Lit(l) => quote!(v_fmt_lit(&mut __f, #l);),
                        Piece::Arg(e @ (Expr::Cast(_) | Expr::Binary(_) | Expr::If(_) | Expr::Match(_))) => quote!(v_fmt_arg(&mut __f, &(#e));),
                        Piece::Arg(e) => quote!(v_fmt_arg(&mut __f, &#e);),
                    })
                    .collect();
                parse_quote!({ let mut __f = v_fmt_new(); #(#stmts)* __f })
            }
            "append" | "write_f" | "write" | "writeln" => {
                let f: fmtstr::DstFmt = match parse2(ts) {
                    Ok(f) => f,
                    Err(e) => return Some(self.fail(e.to_string())),
                };
                let mut ps = match fmtstr::pieces(&f.fmt) {
                    Ok(p) => p,
                    Err(e) => return Some(self.fail(e)),
                };
                if name == "writeln" {
                    ps.push(Piece::Lit("\n".into()));
                }
                let e = self.emit(&f.dst, ps);
                if name == "append" { e } else { parse_quote!({ #e; v_fmt_ok() }) }
            }
            "cat" => {
                let toks: Vec<String> = ts.clone().into_iter().map(|t| t.to_string()).collect();
                if toks.len() == 4 && toks[1..] == ["+", "+", "+"] {
                    let c: TokenStream = ts.into_iter().take(1).collect();
                    return Some(parse_quote!(#c.push_indent()));
                }
                if toks.len() == 4 && toks[1..] == ["-", "-", "-"] {
                    let c: TokenStream = ts.into_iter().take(1).collect();
                    return Some(parse_quote!(#c.pop_indent()));
                }
                let f: fmtstr::DstFmt = match parse2(ts) {
                    Ok(f) => f,
                    Err(e) => return Some(self.fail(e.to_string())),
                };
                let ps = match fmtstr::pieces(&f.fmt) {
                    Ok(p) => p,
                    Err(e) => return Some(self.fail(e)),
                };
                let dst = &f.dst;
                let out: Expr = parse_quote!(#dst.out);
                let mut all = vec![Piece::Arg(parse_quote!(#dst.indentation))];
                all.extend(ps);
                self.emit(&out, all)
            }
            _ => return None,
        })
    }
}
impl VisitMut for MacroPass {
    fn visit_attribute_mut(&mut self, a: &mut Attribute) {
        if norm(a).starts_with("#[cfg") {
            self.err = Some("conditional compilation inside a function".into());
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `x += &format!(..)` and `x.push_str(&format!(..))` are `write!(x, ..)`
        if self.pieces {
            let (to, text) = match e {
                Expr::Binary(ExprBinary { left, op: BinOp::AddAssign(_), right, .. }) => (Some(left.clone()), Some((**right).clone())),
                Expr::MethodCall(m) if m.method == "push_str" && m.args.len() == 1 => {
                    let x = &m.args[0];
                    (Some(m.receiver.clone()), Some(if matches!(x, Expr::Path(_)) { parse_quote!(&#x) } else { x.clone() }))
                }
                Expr::MethodCall(m) if m.method == "push" && m.args.len() == 1 => match &m.args[0] {
                    Expr::Lit(ExprLit { lit: Lit::Char(c), .. }) => {
                        let c = c.value().to_string();
                        (Some(m.receiver.clone()), Some(parse_quote!(#c)))
                    }
                    _ => (None, None),
                },
                _ => (None, None),
            };
            if let (Some(to), Some(text)) = (to, text) {
                if matches!(&*to, Expr::Path(_)) && mentions(&text, &norm(&to)) == 0 {
                    match &text {
                        Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) => *e = self.emit(&parse_quote!(&mut #to), vec![Piece::Lit(l.value())]),
                        Expr::Reference(r) => {
                            *e = match &*r.expr {
                                Expr::Macro(m) if m.mac.path.is_ident("format") => {
                                    let toks = &m.mac.tokens;
                                    parse_quote!(append!(&mut #to, #toks))
                                }
                                x => self.emit(&parse_quote!(&mut #to), vec![Piece::Arg(x.clone())]),
                            }
                        }
                        _ => (),
                    }
                }
            }
        }
        // `s + "text" + x` is s followed by what `write!` would put there
        if self.pieces && matches!(e, Expr::Binary(ExprBinary { op: BinOp::Add(_), .. })) {
            let mut parts = Vec::new();
            let mut at = e.clone();
            while let Expr::Binary(ExprBinary { left, op: BinOp::Add(_), right, .. }) = at {
                parts.push(*right);
                at = *left;
            }
            if parts.iter().any(|p| matches!(p, Expr::Lit(ExprLit { lit: Lit::Str(_), .. }))) {
                parts.reverse();
                let parts = parts.into_iter().map(|p| match p {
                    Expr::Lit(ExprLit { lit: Lit::Str(l), .. }) => Piece::Lit(l.value()),
                    Expr::Reference(r) => Piece::Arg(*r.expr),
                    p => Piece::Arg(p),
                });
                let put = self.emit(&parse_quote!(&mut __f), parts.collect());
                *e = parse_quote!({ let mut __f = #at; #put __f });
            }
        }
        if let Expr::Macro(m) = e {
            if let Some(x) = self.expand(&m.mac) {
                *e = x;
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        if let Stmt::Macro(m) = s {
            if let Some(x) = self.expand(&m.mac) {
                let semi = m.semi_token;
                let x = if semi.is_some() && norm(&x) == "v_panic()" { parse_quote!(v_panic::<()>()) } else { x };
                *s = Stmt::Expr(x, semi);
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

// -------------------------------------------------- closures and inlining --

#[derive(Clone)]
pub enum Cv {
    Closure { params: Vec<Pat>, body: Box<Expr>, env: HashMap<String, Cv> },
    Match { scrut: Box<Expr>, arms: Vec<(Pat, Option<Expr>, Cv)> },
    If { cond: Box<Expr>, a: Box<Cv>, b: Box<Cv> },
    Let { stmts: Vec<Stmt>, cv: Box<Cv> },
}

pub struct Inliner<'a> {
    pub fns: &'a HashMap<String, FnUnit>,
    pub contracts: &'a HashMap<String, FnContract>,
    pub module: String,
    pub env: HashMap<String, Cv>,
    pub counter: usize,
    pub depth: usize,
    pub err: Option<String>,
    pub inlined: BTreeSet<String>,
    /// the error type of the function being expanded, when its returns may be taken from an inlined helper
    pub fails_with: Option<String>,
}

/// the error type of a function that returns a `Result`
pub fn error_type(sig: &Signature) -> Option<String> {
    let mut out = sig.output.clone();
    StripLifetimes.visit_return_type_mut(&mut out);
    if let ReturnType::Type(_, t) = &out {
        if let Type::Path(p) = &**t {
            let s = p.path.segments.last()?;
            if s.ident == "Result" {
                if let PathArguments::AngleBracketed(a) = &s.arguments {
                    return Some(a.args.iter().skip(1).map(|x| norm(x)).collect::<Vec<_>>().join(","));
                }
            }
        }
    }
    None
}

/// The body of a helper called as `helper(..)?` from a function with the same error type: the helper's
/// own failures leave the caller, `Ok(v)` becomes `v`.  `None` when it returns `Ok` before its end.
fn through(b: &Block) -> Option<Block> {
    struct OnlyErr(bool);
    impl<'ast> Visit<'ast> for OnlyErr {
        fn visit_expr_return(&mut self, r: &'ast ExprReturn) {
            match r.expr.as_deref() {
                Some(Expr::Call(c)) if norm(&c.func) == "Err" => visit::visit_expr_return(self, r),
                _ => self.0 = false,
            }
        }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    fn tail(e: &Expr) -> Option<Expr> {
        Some(match e {
            Expr::Call(c) if norm(&c.func) == "Ok" && c.args.len() == 1 => c.args[0].clone(),
            Expr::Call(c) if norm(&c.func) == "Err" => parse_quote!(return #e),
            Expr::Return(_) => e.clone(),
            Expr::Paren(p) => tail(&p.expr)?,
            Expr::Block(b) if b.label.is_none() => {
                let nb = through(&b.block)?;
                parse_quote!(#nb)
            }
            Expr::If(i) => {
                let c = &i.cond;
                let t = through(&i.then_branch)?;
                let el = tail(&i.else_branch.as_ref()?.1)?;
                let el: Expr = match el {
                    Expr::If(_) | Expr::Block(_) => el,
                    o => parse_quote!({ #o }),
                };
                parse_quote!(if #c #t else #el)
            }
            Expr::Match(m) => {
                let s = &m.expr;
                let mut arms = Vec::new();
                for a in &m.arms {
                    let mut a = a.clone();
                    a.body = Box::new(tail(&a.body)?);
                    a.comma = Some(Default::default());
                    arms.push(a);
                }
                parse_quote!(match #s { #(#arms)* })
            }
            o => parse_quote!(#o?),
        })
    }
    let mut o = OnlyErr(true);
    // a `return` at the very end is a tail
    let mut b = b.clone();
    if let Some(Stmt::Expr(Expr::Return(r), _)) = b.stmts.last() {
        let e = r.expr.as_deref()?.clone();
        *b.stmts.last_mut().unwrap() = Stmt::Expr(e, None);
    }
    o.visit_block(&b);
    if !o.0 {
        return None;
    }
    match b.stmts.pop()? {
        Stmt::Expr(e, None) => {
            b.stmts.push(Stmt::Expr(tail(&e)?, None));
            Some(b)
        }
        _ => None,
    }
}

/// Replaces a parameter bound to `&mut x` by x.
struct Through {
    from: String,
    to: String,
    bad: bool,
}
impl Through {
    fn is(&self, e: &Expr) -> bool { path_ident(e).map_or(false, |i| i == self.from) }
    fn place(&self) -> Expr {
        let x = format_ident!("{}", self.to);
        parse_quote!(#x)
    }
}
impl VisitMut for Through {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::Field(f) if self.is(&f.base) => {
                f.base = Box::new(self.place());
                return;
            }
            Expr::MethodCall(m) if self.is(&m.receiver) => {
                m.receiver = Box::new(self.place());
                m.args.iter_mut().for_each(|a| self.visit_expr_mut(a));
                return;
            }
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) && self.is(&u.expr) => {
                *e = self.place();
                return;
            }
            Expr::Closure(c) => self.bad |= mentions(&*c, &self.from) > 0,
            Expr::Assign(a) if self.is(&a.left) => self.bad = true,
            _ => (),
        }
        if self.is(e) {
            let x = self.place();
            *e = parse_quote!(&mut #x);
            return;
        }
        visit_mut::visit_expr_mut(self, e);
    }
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) { self.bad |= p.ident == self.from }
    fn visit_macro_mut(&mut self, m: &mut Macro) { self.bad |= mentions(&m.tokens, &self.from) > 0 }
}

/// Turns a helper call at the end of a function into `Ok(helper(..)?)`.
fn wrap_tail(e: &mut Expr, is_target: &dyn Fn(&Expr) -> bool) {
    match e {
        Expr::Block(b) => {
            if let Some(Stmt::Expr(t, None)) = b.block.stmts.last_mut() {
                wrap_tail(t, is_target)
            }
        }
        Expr::If(i) => {
            if let Some(Stmt::Expr(t, None)) = i.then_branch.stmts.last_mut() {
                wrap_tail(t, is_target)
            }
            if let Some((_, el)) = &mut i.else_branch {
                wrap_tail(el, is_target)
            }
        }
        Expr::Match(m) => m.arms.iter_mut().for_each(|a| wrap_tail(&mut a.body, is_target)),
        Expr::Return(r) => {
            if let Some(x) = r.expr.as_deref_mut() {
                wrap_tail(x, is_target)
            }
        }
        o if is_target(o) => *o = parse_quote!(Ok(#o?)),
        _ => (),
    }
}

/// collects the names bound by patterns
struct Binders(BTreeSet<String>);
impl<'ast> Visit<'ast> for Binders {
    fn visit_pat_ident(&mut self, p: &'ast PatIdent) {
        let s = p.ident.to_string();
        if s.chars().next().map_or(false, |c| c.is_lowercase() || c == '_') {
            self.0.insert(s);
        }
        syn::visit::visit_pat_ident(self, p);
    }
}
/// consistent renaming of local variables
pub struct Rename(pub HashMap<String, String>);
impl VisitMut for Rename {
    fn visit_pat_ident_mut(&mut self, p: &mut PatIdent) {
        if let Some(n) = self.0.get(&p.ident.to_string()) {
            p.ident = format_ident!("{}", n);
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_macro_mut(&mut self, m: &mut Macro) {
        if m.path.is_ident("vec") {
            if let Ok(mut l) = m.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                l.iter_mut().for_each(|x| self.visit_expr_mut(x));
                m.tokens = quote!(#l);
            }
        }
    }
    fn visit_expr_path_mut(&mut self, p: &mut ExprPath) {
        if p.qself.is_none() && p.path.segments.len() == 1 {
            let s = p.path.segments[0].ident.to_string();
            if let Some(n) = self.0.get(&s) {
                if n == "self" {
                    p.path.segments[0].ident = Ident::new("self", proc_macro2::Span::call_site());
                } else {
                    p.path.segments[0].ident = format_ident!("{}", n);
                }
            }
        }
        visit_mut::visit_expr_path_mut(self, p);
    }
    fn visit_field_value_mut(&mut self, f: &mut FieldValue) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_field_pat_mut(&mut self, f: &mut FieldPat) {
        if f.colon_token.is_none() {
            f.colon_token = Some(Default::default());
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
}

fn has_return(b: &Block) -> bool {
    struct R(bool);
    impl<'ast> Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true }
        fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true }
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
    }
    let mut r = R(false);
    r.visit_block(b);
    r.0
}

/// Rewrites a function body so that early returns become nested expressions.
pub fn deret(b: &Block) -> Res<Block> {
    fn ends_in_return(b: &Block) -> bool {
        match b.stmts.last() {
            Some(Stmt::Expr(Expr::Return(_), _)) => true,
            Some(Stmt::Expr(Expr::If(i), _)) => {
                ends_in_return(&i.then_branch)
                    && match &i.else_branch {
                        Some((_, e)) => match &**e {
                            Expr::Block(b) => ends_in_return(&b.block),
                            Expr::If(_) => ends_in_return(&Block { brace_token: Default::default(), stmts: vec![Stmt::Expr((**e).clone(), None)] }),
                            _ => false,
                        },
                        None => false,
                    }
            }
            _ => false,
        }
    }
    fn tail(e: &Expr) -> Res<Expr> {
        // e is in tail position
        Ok(match e {
            Expr::Return(r) => match &r.expr {
                Some(x) => tail(x)?,
                None => parse_quote!(()),
            },
            Expr::Block(b) => {
                let nb = go(&b.block.stmts)?;
                parse_quote!({ #(#nb)* })
            }
            Expr::If(i) => {
                let c = &i.cond;
                let t = go(&i.then_branch.stmts)?;
                match &i.else_branch {
                    Some((_, el)) => {
                        let el = tail(el)?;
                        let el: Expr = match el {
                            Expr::If(_) | Expr::Block(_) => el,
                            o => parse_quote!({ #o }),
                        };
                        parse_quote!(if #c { #(#t)* } else #el)
                    }
                    None => parse_quote!(if #c { #(#t)* }),
                }
            }
            Expr::Match(m) => {
                let s = &m.expr;
                let mut arms = Vec::new();
                for a in &m.arms {
                    let mut a = a.clone();
                    a.body = Box::new(tail(&a.body)?);
                    if a.comma.is_none() {
                        a.comma = Some(Default::default());
                    }
                    arms.push(a);
                }
                parse_quote!(match #s { #(#arms)* })
            }
            Expr::Try(t) => {
                // `f(x)?` as a tail of a block of type ()/T is not the tail of a Result fn
                let _ = t;
                return Err("`?` in tail position of an inlined helper".into());
            }
            o => {
                if expr_has_return(o) {
                    return Err("early return inside an expression of an inlined helper".into());
                }
                o.clone()
            }
        })
    }
    fn expr_has_return(e: &Expr) -> bool {
        let b: Block = parse_quote!({ let _ = #e; });
        has_return(&b)
    }
    fn go(stmts: &[Stmt]) -> Res<Vec<Stmt>> {
        let mut out = Vec::new();
        for (i, s) in stmts.iter().enumerate() {
            let last = i + 1 == stmts.len();
            let rest = &stmts[i + 1..];
            match s {
                Stmt::Expr(Expr::Return(r), _) => {
                    let e = match &r.expr {
                        Some(x) => tail(x)?,
                        None => parse_quote!(()),
                    };
                    out.push(Stmt::Expr(e, None));
                    return Ok(out);
                }
                Stmt::Expr(Expr::If(ie), semi) if !last && has_return(&parse_quote!({ #ie })) => {
                    if expr_has_return(&ie.cond) {
                        return Err("early return in a condition of an inlined helper".into());
                    }
                    let c = &ie.cond;
                    let _ = semi;
                    if ie.else_branch.is_none() && ends_in_return(&ie.then_branch) {
                        let t = go(&ie.then_branch.stmts)?;
                        let r = go(rest)?;
                        out.push(Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#r)* }), None));
                        return Ok(out);
                    }
                    // general case: push the rest into both branches
                    let mut tb = ie.then_branch.stmts.clone();
                    semi_last(&mut tb);
                    tb.extend(rest.iter().cloned());
                    let t = go(&tb)?;
                    let mut eb: Vec<Stmt> = match &ie.else_branch {
                        Some((_, e)) => vec![Stmt::Expr((**e).clone(), Some(Default::default()))],
                        None => vec![],
                    };
                    eb.extend(rest.iter().cloned());
                    let r = go(&eb)?;
                    out.push(Stmt::Expr(parse_quote!(if #c { #(#t)* } else { #(#r)* }), None));
                    return Ok(out);
                }
                Stmt::Local(l) if l.init.as_ref().map_or(false, |i| matches!(&*i.expr, Expr::Try(_))) => {
                    let init = l.init.as_ref().unwrap();
                    if let Expr::Try(t) = &*init.expr {
                        if expr_has_return(&t.expr) {
                            return Err("nested `?` in an inlined helper".into());
                        }
                        let e = &t.expr;
                        let pat = &l.pat;
                        let pat: Pat = match pat {
                            Pat::Type(p) => (*p.pat).clone(),
                            p => p.clone(),
                        };
                        let r = go(rest)?;
                        out.push(Stmt::Expr(
                            parse_quote!(match #e { Ok(#pat) => { #(#r)* }, Err(__e) => Err(__e), }),
                            None,
                        ));
                        return Ok(out);
                    }
                }
                Stmt::Expr(Expr::Try(t), Some(_)) => {
                    let e = &t.expr;
                    let r = go(rest)?;
                    out.push(Stmt::Expr(parse_quote!(match #e { Ok(_) => { #(#r)* }, Err(__e) => Err(__e), }), None));
                    return Ok(out);
                }
                Stmt::Local(l)
                    if l.init.as_ref().map_or(false, |i| {
                        matches!(&*i.expr, Expr::Match(_) | Expr::If(_)) && expr_has_return(&i.expr)
                    }) =>
                {
                    // let p = match s { A => v, B => return w };  rest
                    let init = l.init.as_ref().unwrap();
                    let pat = &l.pat;
                    if let Expr::Match(m) = &*init.expr {
                        let s = &m.expr;
                        let mut arms: Vec<Arm> = Vec::new();
                        for a in &m.arms {
                            let mut a = a.clone();
                            let b = &a.body;
                            let body: Vec<Stmt> = if let Expr::Return(_) = &**b {
                                go(&[Stmt::Expr((**b).clone(), None)])?
                            } else if expr_has_return(b) {
                                return Err("early return nested in a match arm of an inlined helper".into());
                            } else {
                                let mut v: Vec<Stmt> = vec![parse_quote!(let #pat = #b;)];
                                v.extend(rest.iter().cloned());
                                go(&v)?
                            };
                            a.body = parse_quote!({ #(#body)* });
                            a.comma = Some(Default::default());
                            arms.push(a);
                        }
                        out.push(Stmt::Expr(parse_quote!(match #s { #(#arms)* }), None));
                        return Ok(out);
                    }
                    return Err("early return in a let of an inlined helper".into());
                }
                Stmt::Expr(e, semi) if last && semi.is_none() => {
                    out.push(Stmt::Expr(tail(e)?, None));
                    return Ok(out);
                }
                Stmt::Expr(e, semi) if last => {
                    let t = tail(e)?;
                    out.push(Stmt::Expr(t, *semi));
                    return Ok(out);
                }
                o => {
                    if has_return(&parse_quote!({ #o })) {
                        return Err("early return in a statement of an inlined helper".into());
                    }
                    out.push(o.clone());
                }
            }
        }
        Ok(out)
    }
    fn semi_last(v: &mut Vec<Stmt>) {
        if let Some(Stmt::Expr(e, s)) = v.last_mut() {
            if s.is_none() && !matches!(e, Expr::Return(_)) {
                *s = Some(Default::default());
            }
        }
    }
    let stmts = go(&b.stmts)?;
    Ok(parse_quote!({ #(#stmts)* }))
}

impl<'a> Inliner<'a> {
    fn fail(&mut self, m: impl Into<String>) {
        if self.err.is_none() {
            self.err = Some(m.into());
        }
    }

    fn fn_takes_closure(u: &FnUnit) -> bool {
        let s = norm(&u.sig.inputs) + &norm(&u.sig.generics) + &norm(&u.sig.generics.where_clause);
        s.contains("Fn(") || s.contains("FnMut(") || s.contains("FnOnce(")
    }

    /// the function a call refers to, when it has to be expanded in place
    fn inline_target(&self, callee: &Expr) -> Option<FnUnit> {
        if let Expr::Path(p) = callee {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            let name = segs.last()?.clone();
            let cand: Vec<String> = match segs.len() {
                1 => vec![format!("{}::{}", self.module, name)],
                2 if segs[0] == "self" => vec![format!("{}::{}", self.module, name)],
                2 if segs[0] == "Self" => self.fns.keys().filter(|k| k.starts_with(&format!("{}::", self.module)) && k.ends_with(&format!("::{}", name))).cloned().collect(),
                2 => vec![format!("{}::{}", segs[0], name), format!("{}::{}::{}", self.module, segs[0], name)],
                _ => vec![format!("{}::{}", segs[segs.len() - 2], name)],
            };
            for k in cand {
                if let Some(u) = self.fns.get(&k) {
                    if !self.contracts.contains_key(&k) || Self::fn_takes_closure(u) {
                        return Some(u.clone());
                    }
                }
            }
        }
        None
    }
    fn method_target(&self, m: &ExprMethodCall) -> Option<FnUnit> {
        let name = m.method.to_string();
        let mut found = None;
        for (k, u) in self.fns.iter() {
            if u.self_ty.is_some()
                && u.sig.ident == name
                && u.sig.inputs.len() == m.args.len() + 1
                && matches!(u.sig.inputs.first(), Some(FnArg::Receiver(_)))
                && (!self.contracts.contains_key(k))
            {
                if found.is_some() {
                    return None;
                }
                found = Some(u.clone());
            }
        }
        found
    }

    /// the body of `u` when `u(..)?` can be expanded with its failures leaving the caller
    fn passes_through(&self, u: &FnUnit) -> Option<Block> {
        if self.fails_with.is_some() && error_type(&u.sig) == self.fails_with { through(&u.block) } else { None }
    }
    /// `u(..)?`
    fn expand_try(&mut self, u: &FnUnit, args: Vec<Expr>) -> Option<Expr> {
        let mut u = u.clone();
        u.block = self.passes_through(&u)?;
        Some(self.expand(&u, args, true))
    }
    /// Expands a function whose own body is at hand: `helper(..)` at its end counts as `Ok(helper(..)?)`.
    pub fn run(&mut self, sig: &Signature, b: &mut Block) {
        self.fails_with = error_type(sig);
        self.wrap(b);
        self.visit_block_mut(b);
    }
    fn wrap(&mut self, b: &mut Block) {
        if self.fails_with.is_some() {
            if let Some(Stmt::Expr(t, None)) = b.stmts.last_mut() {
                let this = &*self;
                wrap_tail(t, &|e| match e {
                    Expr::Call(c) => this.inline_target(&c.func).map_or(false, |u| has_return(&u.block) && deret(&u.block).is_err() && this.passes_through(&u).is_some()),
                    _ => false,
                });
            }
        }
    }
    fn expand_fn(&mut self, u: &FnUnit, args: Vec<Expr>) -> Expr { self.expand(u, args, false) }
    fn expand(&mut self, u: &FnUnit, args: Vec<Expr>, through: bool) -> Expr {
        self.depth += 1;
        if self.depth > 24 {
            self.fail(format!("function {} without a contract is recursive", u.key));
            self.depth -= 1;
            return parse_quote!(());
        }
        self.inlined.insert(u.key.clone());
        let mut block = u.block.clone();
        if !through && has_return(&block) {
            match deret(&block) {
                Ok(b) => block = b,
                Err(e) => {
                    self.fail(format!("cannot expand {} in place: {}", u.key, e));
                }
            }
        }
        self.counter += 1;
        let n = self.counter;
        // fresh names for everything the callee binds
        let mut b = Binders(Default::default());
        b.visit_block(&block);
        let mut map: HashMap<String, String> = b.0.iter().map(|s| (s.clone(), format!("{}__{}", s, n))).collect();
        let mut lets: Vec<Stmt> = Vec::new();
        let mut env: HashMap<String, Cv> = HashMap::new();
        let generics: BTreeSet<String> = u.sig.generics.type_params().map(|t| t.ident.to_string()).collect();
        for (p, a) in u.sig.inputs.iter().zip(args.into_iter()) {
            let (pname, ty, is_mut) = match p {
                FnArg::Receiver(_) => ("self".to_string(), None, false),
                FnArg::Typed(t) => match &*t.pat {
                    Pat::Ident(i) => (i.ident.to_string(), Some((*t.ty).clone()), i.mutability.is_some()),
                    Pat::Wild(_) => (format!("__w{}", lets.len()), Some((*t.ty).clone()), false),
                    _ => {
                        self.fail(format!("parameter pattern in {}", u.key));
                        continue;
                    }
                },
            };
            if let Some((eff, cv)) = self.try_cv(&a) {
                lets.extend(eff);
                let fresh = format!("{}__{}", pname, n);
                map.insert(pname, fresh.clone());
                env.insert(fresh, cv);
                continue;
            }
            // `&mut x`: the helper's parameter is x itself
            if let (Expr::Reference(r), false, true) = (&a, is_mut, matches!(p, FnArg::Typed(_))) {
                let taken = |x: &String| map.contains_key(x) || (*x != pname && u.sig.inputs.iter().any(|q| matches!(q, FnArg::Typed(t) if norm(&t.pat) == *x)));
                if let (true, Some(x)) = (r.mutability.is_some(), path_ident(&r.expr).filter(|x| !taken(x))) {
                    let mut t = Through { from: pname.clone(), to: x, bad: false };
                    let mut b = block.clone();
                    t.visit_block_mut(&mut b);
                    if !t.bad {
                        block = b;
                        continue;
                    }
                }
            }
            if let (Some(id), false) = (path_ident(&a), is_mut) {
                map.insert(pname, id);
                continue;
            }
            if pname == "self" {
                // receiver expressions are places: substitute through a reference binding
                let fresh = format!("self__{}", n);
                let id = format_ident!("{}", fresh);
                let mutable = matches!(p, FnArg::Receiver(r) if r.reference.is_some() && r.mutability.is_some());
                let byref = matches!(p, FnArg::Receiver(r) if r.reference.is_some());
                let a2: Expr = if mutable { parse_quote!(&mut #a) } else if byref { parse_quote!(&#a) } else { a };
                lets.push(parse_quote!(let #id = #a2;));
                map.insert(pname, fresh);
                continue;
            }
            let fresh = format!("{}__{}", pname, n);
            let id = format_ident!("{}", fresh);
            let ann = match ty {
                Some(mut t) => {
                    let s = norm(&t);
                    let uses_generic = generics.iter().any(|g| s == *g || s.contains(&format!("<{}", g)) || s.contains(&format!("&{}", g)));
                    if s.contains("impl") || uses_generic {
                        None
                    } else {
                        StripLifetimes.visit_type_mut(&mut t);
                        Some(t)
                    }
                }
                None => None,
            };
            let mutk: TokenStream = if is_mut { quote!(mut) } else { quote!() };
            match ann {
                Some(t) => lets.push(parse_quote!(let #mutk #id: #t = #a;)),
                None => lets.push(parse_quote!(let #mutk #id = #a;)),
            }
            map.insert(pname, fresh);
        }
        Rename(map).visit_block_mut(&mut block);
        let saved = std::mem::replace(&mut self.env, env);
        let saved_mod = std::mem::replace(&mut self.module, u.module.clone());
        let saved_fails = self.fails_with.clone();
        if !through {
            self.fails_with = None;
        }
        self.visit_block_mut(&mut block);
        self.fails_with = saved_fails;
        self.env = saved;
        self.module = saved_mod;
        self.depth -= 1;
        let stmts = &block.stmts;
        parse_quote!({ #(#lets)* #(#stmts)* })
    }

    fn apply(&mut self, cv: &Cv, args: &[Expr]) -> Expr {
        match cv {
            Cv::Closure { params, body, env } => {
                let mut body = (**body).clone();
                let mut lets: Vec<Stmt> = Vec::new();
                self.counter += 1;
                let n = self.counter;
                // locals bound inside the closure body get fresh names
                let mut b = Binders(Default::default());
                b.visit_expr(&body);
                let mut map: HashMap<String, String> = b.0.iter().map(|s| (s.clone(), format!("{}__{}", s, n))).collect();
                for (p, a) in params.iter().zip(args.iter()) {
                    let p = match p {
                        Pat::Type(t) => &*t.pat,
                        p => p,
                    };
                    if let Pat::Ident(i) = p {
                        match path_ident(a) {
                            Some(id) => {
                                map.insert(i.ident.to_string(), id);
                            }
                            None => {
                                let fresh = format!("{}__{}", i.ident, n);
                                let id = format_ident!("{}", fresh);
                                lets.push(parse_quote!(let #id = #a;));
                                map.insert(i.ident.to_string(), fresh);
                            }
                        }
                    } else if !matches!(p, Pat::Wild(_)) {
                        self.fail("closure parameter pattern");
                    }
                }
                Rename(map).visit_expr_mut(&mut body);
                let saved = std::mem::replace(&mut self.env, env.clone());
                let saved_fails = self.fails_with.take();
                self.depth += 1;
                if self.depth > 48 {
                    self.fail("closure expansion does not terminate");
                } else {
                    self.visit_expr_mut(&mut body);
                }
                self.depth -= 1;
                self.env = saved;
                self.fails_with = saved_fails;
                parse_quote!({ #(#lets)* #body })
            }
            Cv::Match { scrut, arms } => {
                let mut out: Vec<TokenStream> = Vec::new();
                for (p, g, c) in arms {
                    let e = self.apply(c, args);
                    let g = g.as_ref().map(|g| quote!(if #g));
                    out.push(quote!(#p #g => { #e },));
                }
                parse_quote!(match #scrut { #(#out)* })
            }
            Cv::If { cond, a, b } => {
                let x = self.apply(a, args);
                let y = self.apply(b, args);
                parse_quote!(if #cond { #x } else { #y })
            }
            Cv::Let { stmts, cv } => {
                let e = self.apply(cv, args);
                parse_quote!({ #(#stmts)* #e })
            }
        }
    }

    /// is `e` a closure value?  returns (side effects to run now, the value)
    fn try_cv(&mut self, e: &Expr) -> Option<(Vec<Stmt>, Cv)> {
        match e {
            Expr::Closure(c) => Some((
                vec![],
                Cv::Closure { params: c.inputs.iter().cloned().collect(), body: c.body.clone(), env: self.env.clone() },
            )),
            Expr::Path(_) => {
                let id = path_ident(e)?;
                self.env.get(&id).map(|c| (vec![], c.clone()))
            }
            Expr::Paren(p) => self.try_cv(&p.expr),
            Expr::Reference(r) => self.try_cv(&r.expr),
            Expr::Cast(c) => self.try_cv(&c.expr),
            Expr::Unary(u) if matches!(u.op, UnOp::Deref(_)) => self.try_cv(&u.expr),
            Expr::Call(c) => {
                let f = norm(&c.func);
                if matches!(f.as_str(), "Box::new" | "Rc::new" | "Arc::new" | "Some") && c.args.len() == 1 && f != "Some" {
                    self.try_cv(&c.args[0])
                } else if matches!(f.as_str(), "Rc::clone" | "Arc::clone") && c.args.len() == 1 {
                    self.try_cv(&c.args[0])
                } else {
                    None
                }
            }
            Expr::MethodCall(m) if matches!(m.method.to_string().as_str(), "clone" | "as_ref" | "borrow") && m.args.is_empty() => {
                self.try_cv(&m.receiver)
            }
            Expr::Match(m) => {
                let mut arms = Vec::new();
                let mut eff_arms: Vec<TokenStream> = Vec::new();
                let mut any = false;
                for a in &m.arms {
                    let (eff, cv) = self.try_cv(&a.body)?;
                    let g = a.guard.as_ref().map(|(_, g)| (**g).clone());
                    let p = &a.pat;
                    let gt = g.as_ref().map(|g| quote!(if #g));
                    any |= !eff.is_empty();
                    eff_arms.push(quote!(#p #gt => { #(#eff)* },));
                    arms.push((a.pat.clone(), g, cv));
                }
                let s = &m.expr;
                let eff = if any { vec![Stmt::Expr(parse_quote!(match #s { #(#eff_arms)* }), Some(Default::default()))] } else { vec![] };
                Some((eff, Cv::Match { scrut: m.expr.clone(), arms }))
            }
            Expr::If(i) => {
                let tb: Expr = Expr::Block(ExprBlock { attrs: vec![], label: None, block: i.then_branch.clone() });
                let (e1, a) = self.try_cv(&tb)?;
                let (e2, b) = self.try_cv(&i.else_branch.as_ref()?.1)?;
                let c = &i.cond;
                let eff = if e1.is_empty() && e2.is_empty() { vec![] } else { vec![Stmt::Expr(parse_quote!(if #c { #(#e1)* } else { #(#e2)* }), Some(Default::default()))] };
                Some((eff, Cv::If { cond: i.cond.clone(), a: Box::new(a), b: Box::new(b) }))
            }
            Expr::Block(b) => {
                let (last, init) = b.block.stmts.split_last()?;
                let tail = match last {
                    Stmt::Expr(e, None) => e,
                    _ => return None,
                };
                let saved = self.env.clone();
                let mut eff = Vec::new();
                let mut lets = Vec::new();
                for s in init {
                    match s {
                        Stmt::Local(l) => {
                            let nm = local_name(l);
                            if let (Some(nm), Some(i)) = (nm, l.init.as_ref()) {
                                if let Some((e, cv)) = self.try_cv(&i.expr) {
                                    eff.extend(e);
                                    self.env.insert(nm, cv);
                                    continue;
                                }
                            }
                            lets.push(s.clone());
                        }
                        Stmt::Item(_) => lets.push(s.clone()),
                        o => eff.push(o.clone()),
                    }
                }
                let r = self.try_cv(tail);
                self.env = saved;
                let (e2, cv) = r?;
                eff.extend(e2);
                let eff = if lets.is_empty() || eff.is_empty() {
                    eff
                } else {
                    let mut v = lets.clone();
                    v.extend(eff);
                    vec![Stmt::Expr(parse_quote!({ #(#v)* }), Some(Default::default()))]
                };
                let cv = if lets.is_empty() { cv } else { Cv::Let { stmts: lets, cv: Box::new(cv) } };
                Some((eff, cv))
            }
            _ => None,
        }
    }

    /// statements of a branch that re-assigns closure variables
    fn branch(&mut self, b: &Block) -> (Vec<Stmt>, HashMap<String, Cv>) {
        let saved = self.env.clone();
        let mut block = b.clone();
        self.stmts(&mut block);
        let env = std::mem::replace(&mut self.env, saved);
        (block.stmts, env)
    }

    fn assigns_cv(&self, e: &Expr) -> bool {
        struct A<'e>(&'e HashMap<String, Cv>, bool);
        impl<'e, 'ast> Visit<'ast> for A<'e> {
            fn visit_expr_assign(&mut self, a: &'ast ExprAssign) {
                if let Some(id) = path_ident(&a.left) {
                    if self.0.contains_key(&id) {
                        self.1 = true;
                    }
                }
                syn::visit::visit_expr_assign(self, a);
            }
        }
        let mut a = A(&self.env, false);
        a.visit_expr(e);
        a.1
    }

    fn stmts(&mut self, b: &mut Block) {
        /// all locals of an expanded helper have the names given by the expansion
        fn fresh(b: &Block) -> bool {
            b.stmts.iter().all(|s| match s {
                Stmt::Local(l) => {
                    let mut bs = Binders(Default::default());
                    bs.visit_pat(&l.pat);
                    bs.0.iter().all(|n| n.rsplit_once("__").map_or(false, |(_, k)| k.parse::<usize>().is_ok()))
                }
                Stmt::Item(_) => false,
                _ => true,
            })
        }
        let mut out: Vec<Stmt> = Vec::new();
        for s in std::mem::take(&mut b.stmts) {
            match s {
                // helper(..);
                Stmt::Expr(e @ Expr::Call(_), Some(semi)) => {
                    let before = self.counter;
                    let mut e = e;
                    self.visit_expr_mut(&mut e);
                    match e {
                        Expr::Block(b) if self.counter > before && b.label.is_none() && fresh(&b.block) => {
                            let mut v = b.block.stmts;
                            if let Some(Stmt::Expr(_, s)) = v.last_mut() {
                                if s.is_none() {
                                    *s = Some(semi);
                                }
                            }
                            out.extend(v);
                        }
                        e => out.push(Stmt::Expr(e, Some(semi))),
                    }
                }
                Stmt::Local(mut l) => {
                    let nm = local_name(&l);
                    if let (Some(nm), Some(i)) = (&nm, l.init.as_ref()) {
                        if let Some((eff, cv)) = self.try_cv(&i.expr) {
                            // closures handed to std adaptors stay as they are; a
                            // closure bound to a variable is expanded at its calls
                            out.extend(eff);
                            self.env.insert(nm.clone(), cv);
                            continue;
                        }
                    }
                    if let Some(i) = l.init.as_mut() {
                        let before = self.counter;
                        self.visit_expr_mut(&mut i.expr);
                        // let x = { an expanded helper; value }: its locals have fresh names, so it can be spelled out before
                        if self.counter > before && i.diverge.is_none() {
                            if let Expr::Block(b) = &*i.expr {
                                if let (true, true, Some(Stmt::Expr(v, None))) = (fresh(&b.block), b.label.is_none(), b.block.stmts.last().cloned()) {
                                    let k = b.block.stmts.len() - 1;
                                    out.extend(b.block.stmts[..k].iter().cloned());
                                    i.expr = Box::new(v);
                                }
                            }
                        }
                        if let Some((_, d)) = i.diverge.as_mut() {
                            self.visit_expr_mut(d);
                        }
                    }
                    let mut bs = Binders(Default::default());
                    bs.visit_pat(&l.pat);
                    for n in bs.0 {
                        self.env.remove(&n);
                    }
                    out.push(Stmt::Local(l));
                }
                Stmt::Expr(Expr::Assign(a), semi) if path_ident(&a.left).map_or(false, |i| self.env.contains_key(&i)) => {
                    let id = path_ident(&a.left).unwrap();
                    match self.try_cv(&a.right) {
                        Some((eff, cv)) => {
                            out.extend(eff);
                            self.env.insert(id, cv);
                        }
                        None => self.fail("assignment of a non-closure to a closure variable"),
                    }
                    let _ = semi;
                }
                Stmt::Expr(Expr::If(i), semi) if self.assigns_cv(&Expr::If(i.clone())) => {
                    let (e1, env1) = self.branch(&i.then_branch);
                    let (e2, env2) = match &i.else_branch {
                        None => (vec![], self.env.clone()),
                        Some((_, e)) => {
                            let blk: Block = match &**e {
                                Expr::Block(b) => b.block.clone(),
                                o => parse_quote!({ #o; }),
                            };
                            self.branch(&blk)
                        }
                    };
                    let c = &i.cond;
                    if !e1.is_empty() || !e2.is_empty() {
                        out.push(Stmt::Expr(parse_quote!(if #c { #(#e1)* } else { #(#e2)* }), Some(Default::default())));
                    }
                    let _ = semi;
                    let keys: Vec<String> = self.env.keys().cloned().collect();
                    for k in keys {
                        if let (Some(x), Some(y)) = (env1.get(&k), env2.get(&k)) {
                            self.env.insert(
                                k.clone(),
                                Cv::If { cond: i.cond.clone(), a: Box::new(x.clone()), b: Box::new(y.clone()) },
                            );
                        }
                    }
                }
                Stmt::Expr(e, semi) if self.assigns_cv(&e) => {
                    self.fail("closure variable re-assigned in an unsupported place");
                    out.push(Stmt::Expr(e, semi));
                }
                mut s => {
                    self.visit_stmt_mut(&mut s);
                    out.push(s);
                }
            }
        }
        b.stmts = out;
    }
}
pub fn local_name(l: &Local) -> Option<String> {
    match &l.pat {
        Pat::Ident(i) => Some(i.ident.to_string()),
        Pat::Type(t) => match &*t.pat {
            Pat::Ident(i) => Some(i.ident.to_string()),
            _ => None,
        },
        _ => None,
    }
}
struct StripLifetimes;
impl VisitMut for StripLifetimes {
    fn visit_type_reference_mut(&mut self, t: &mut TypeReference) {
        t.lifetime = None;
        visit_mut::visit_type_reference_mut(self, t);
    }
    fn visit_angle_bracketed_generic_arguments_mut(&mut self, a: &mut AngleBracketedGenericArguments) {
        for g in a.args.iter_mut() {
            if let GenericArgument::Lifetime(l) = g {
                *l = parse_quote!('_);
            }
        }
        visit_mut::visit_angle_bracketed_generic_arguments_mut(self, a);
    }
}
impl<'a> VisitMut for Inliner<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let saved = self.env.clone();
        self.stmts(b);
        self.env = saved;
    }
    fn visit_expr_closure_mut(&mut self, c: &mut ExprClosure) {
        let saved = self.fails_with.take();
        visit_mut::visit_expr_closure_mut(self, c);
        self.fails_with = saved;
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // `x?`, also as the command line's pass has rewritten it
        let tried: Option<Expr> = match e {
            Expr::Try(t) => Some((*t.expr).clone()),
            Expr::Match(m) if m.arms.len() == 2 && norm(&m.arms[0].pat) == "Ok(__v)" && norm(&m.arms[0].body) == "__v" && norm(&m.arms[1].pat) == "Err(__e)" && norm(&m.arms[1].body) == "returnErr(v_err(__e))" => Some((*m.expr).clone()),
            _ => None,
        };
        if let Some(t) = tried {
            let (target, mut args): (Option<FnUnit>, Vec<Expr>) = match &t {
                Expr::Call(c) => (self.inline_target(&c.func), c.args.iter().cloned().collect()),
                Expr::MethodCall(m) => (self.method_target(m), std::iter::once((*m.receiver).clone()).chain(m.args.iter().cloned()).collect()),
                _ => (None, vec![]),
            };
            if let Some(u) = target.filter(|u| self.passes_through(u).is_some()) {
                for a in args.iter_mut() {
                    if !matches!(a, Expr::Closure(_)) {
                        self.visit_expr_mut(a);
                    }
                }
                if let Some(x) = self.expand_try(&u, args) {
                    *e = x;
                    return;
                }
            }
        }
        match e {
            Expr::Call(c) => {
                if let Some(id) = path_ident(&c.func) {
                    if let Some(cv) = self.env.get(&id).cloned() {
                        let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                        for a in args.iter_mut() {
                            self.visit_expr_mut(a);
                        }
                        *e = self.apply(&cv, &args);
                        return;
                    }
                }
                if let Some(u) = self.inline_target(&c.func) {
                    let mut args: Vec<Expr> = c.args.iter().cloned().collect();
                    for a in args.iter_mut() {
                        if !matches!(a, Expr::Closure(_)) {
                            self.visit_expr_mut(a);
                        }
                    }
                    *e = self.expand_fn(&u, args);
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::MethodCall(m) => {
                if let Some(u) = self.method_target(m) {
                    let mut args: Vec<Expr> = vec![(*m.receiver).clone()];
                    args.extend(m.args.iter().cloned());
                    for a in args.iter_mut() {
                        if !matches!(a, Expr::Closure(_)) {
                            self.visit_expr_mut(a);
                        }
                    }
                    *e = self.expand_fn(&u, args);
                    return;
                }
                visit_mut::visit_expr_mut(self, e);
            }
            Expr::Macro(m) if m.mac.path.is_ident("vec") => {
                if let Ok(mut l) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    l.iter_mut().for_each(|x| self.visit_expr_mut(x));
                    m.mac.tokens = quote!(#l);
                }
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}

// -------------------------------------------------------------- std calls --

/// Renames std calls to their contracted stand-ins in the prelude.
/// `|x| x`
fn is_identity(e: &Expr) -> bool {
    matches!(e, Expr::Closure(c) if c.inputs.len() == 1 && matches!(&c.inputs[0], Pat::Ident(_)) && norm(&c.inputs[0]) == norm(&c.body))
}
pub struct StdPass {
    pub err: Option<String>,
}
impl VisitMut for StdPass {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                let name = m.method.to_string();
                let r = &m.receiver;
                match (name.as_str(), m.args.len()) {
                    ("to_owned", 0) => Some(parse_quote!(#r.v_to_string())),
                    ("clone", 0) | ("to_string", 0) | ("into_iter", 0) | ("iter", 0) | ("collect", 0) | ("chain", 1) | ("copied", 0) | ("cloned", 0)
                    | ("rev", 0) | ("enumerate", 0) | ("count", 0) | ("join", 1) | ("into", 0) | ("extend", 1) => {
                        m.method = format_ident!("v_{}", name);
                        None
                    }
                    ("chars", 0) | ("split", 1) | ("repeat", 1) | ("starts_with", 1) | ("ends_with", 1) | ("take", 1) | ("skip", 1) | ("keys", 0) => {
                        m.method = format_ident!("v_{}", name);
                        None
                    }
                    // an iterator that is thrown away afterwards
                    ("next", 0) | ("nth", 1) | ("last", 0) if matches!(&**r, Expr::MethodCall(_)) => {
                        m.method = format_ident!("v_{}", name);
                        None
                    }
                    ("flatten", 0) => Some(parse_quote!(#r.v_somes())),
                    ("filter_map", 1) if is_identity(&m.args[0]) => Some(parse_quote!(#r.v_somes())),
                    ("retain", 1) => {
                        if let Expr::Closure(c) = &mut m.args[0] {
                            if c.inputs.len() == 2 && matches!(&c.inputs[1], Pat::Wild(_)) {
                                m.method = format_ident!("v_retain_keys");
                                let last = c.inputs.pop().unwrap();
                                let _ = last;
                            }
                        }
                        None
                    }
                    _ => None,
                }
            }
            Expr::Call(c) => {
                let f = norm(&c.func);
                match f.as_str() {
                    "String::from" => {
                        let a = &c.args[0];
                        Some(parse_quote!(#a.v_to_string()))
                    }
                    "Ptr::clone" | "Clone::clone" if c.args.len() == 1 => {
                        let a = &c.args[0];
                        Some(parse_quote!((#a).v_clone()))
                    }
                    "String::new" => Some(parse_quote!(v_string_new())),
                    "std::mem::swap" | "mem::swap" => {
                        c.func = parse_quote!(v_swap);
                        None
                    }
                    "std::mem::take" | "mem::take" => {
                        c.func = parse_quote!(v_take);
                        None
                    }
                    "std::mem::replace" | "mem::replace" => {
                        c.func = parse_quote!(v_replace);
                        None
                    }
                    _ => None,
                }
            }
            // `s[a..]`, `s[..b]`, `s[a..b]`
            Expr::Index(i) => match &*i.index {
                Expr::Range(g) if matches!(g.limits, RangeLimits::HalfOpen(_)) => {
                    let x = &i.expr;
                    match (&g.start, &g.end) {
                        (Some(a), None) => Some(parse_quote!(#x.v_from(#a))),
                        (None, Some(b)) => Some(parse_quote!(#x.v_upto(#b))),
                        (Some(a), Some(b)) => Some(parse_quote!(#x.v_part(#a, #b))),
                        _ => None,
                    }
                }
                _ => None,
            },
            Expr::Reference(r) => match &*r.expr {
                Expr::MethodCall(m) if m.method == "v_from" || m.method == "v_upto" || m.method == "v_part" => Some((*r.expr).clone()),
                _ => None,
            },
            // `s += "text"`, `s += &text`
            Expr::Binary(b) if matches!(b.op, BinOp::AddAssign(_)) => {
                let (l, r) = (&b.left, &b.right);
                match &**r {
                    Expr::Lit(ExprLit { lit: Lit::Str(_), .. }) => Some(parse_quote!(#l.push_str(#r))),
                    Expr::Reference(_) => Some(parse_quote!(#l.push_str(#r))),
                    Expr::Lit(_) => None,
                    _ => Some(parse_quote!(#l.v_add_to(#r))),
                }
            }
            // `x == Enum::Variant`: the enums derive PartialEq and the variants have no fields
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_) | BinOp::Ne(_)) => {
                let variant = |e: &Expr| match e {
                    Expr::Path(p) if p.path.segments.len() >= 2 => {
                        let k = p.path.segments.len();
                        matches!(p.path.segments[k - 2].ident.to_string().as_str(), "Builtin" | "EnumRepr")
                    }
                    _ => false,
                };
                let (x, v) = if variant(&b.right) { (&b.left, &b.right) } else if variant(&b.left) { (&b.right, &b.left) } else { return };
                let eq = matches!(b.op, BinOp::Eq(_));
                Some(parse_quote!((match #x { #v => #eq, _ => !#eq })))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// expanded grammar: `::peg` is the prelude's, `Vec` and `panic!` have their plain names again
pub struct PegPass;
impl VisitMut for PegPass {
    fn visit_path_mut(&mut self, p: &mut Path) {
        visit_mut::visit_path_mut(self, p);
        if p.leading_colon.is_some() && p.segments[0].ident == "peg" {
            if p.segments.len() == 3 && p.segments[1].ident.to_string().starts_with("Parse") {
                let f = &p.segments[2];
                *p = parse_quote!(crate::pegrt::#f);
                return;
            }
            let segs = &p.segments;
            *p = parse_quote!(crate::#segs);
        } else if norm(p) == "::alloc::vec::Vec::new" {
            *p = parse_quote!(Vec::new);
        } else if norm(p) == "::std::rt::begin_panic" {
            *p = parse_quote!(v_begin_panic);
        } else if p.segments.len() >= 2 && norm(p).starts_with("parser::pkt::") {
            let segs: Vec<_> = p.segments.iter().skip(2).cloned().collect();
            *p = parse_quote!(crate::parser::#(#segs)::*);
        }
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Call(c) if path_ident(&c.func).as_deref() == Some("v_begin_panic") => Some(parse_quote!(v_panic::<()>())),
            Expr::MethodCall(m) if m.method == "len" && path_ident(&m.receiver).as_deref() == Some("__input") => {
                let r = &m.receiver;
                Some(parse_quote!(crate::peg::str_len(#r)))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// a closure body that returns early
fn leaves(e: &Expr) -> bool {
    struct Leaves(bool);
    impl<'ast> Visit<'ast> for Leaves {
        fn visit_expr_try(&mut self, _: &'ast ExprTry) { self.0 = true }
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true }
    }
    let mut l = Leaves(false);
    l.visit_expr(e);
    l.0
}
/// the last call of a chain is one that gives an Option
fn yields_option(e: &Expr) -> bool {
    match e {
        Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "get" | "next" | "last" | "nth" | "first" | "pop" | "remove" | "checked_sub" | "checked_add" | "strip_prefix" | "as_ref" | "ok"),
        Expr::Paren(p) => yields_option(&p.expr),
        _ => false,
    }
}
/// Option and Result methods that take a closure written in place become matches
pub struct CombPass {
    /// `map` and `and_then` are taken to be Option's (the command-line program)
    pub option: bool,
}
impl CombPass {
    fn lambda(e: &Expr, n: usize) -> Option<(Vec<Pat>, Expr)> {
        match e {
            Expr::Closure(c) if c.inputs.len() == n => {
                if leaves(&c.body) {
                    return None;
                }
                let ps = c.inputs.iter().map(|p| match p { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }).collect();
                Some((ps, (*c.body).clone()))
            }
            // a function or constructor named in place
            Expr::Path(_) if n == 1 => Some((vec![parse_quote!(__p)], parse_quote!(#e(__p)))),
            Expr::Path(_) if n == 0 => Some((vec![], parse_quote!(#e()))),
            _ => None,
        }
    }
}
impl VisitMut for CombPass {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::MethodCall(m) => {
                let option = self.option || yields_option(&m.receiver);
                let r = &m.receiver;
                let a: Vec<&Expr> = m.args.iter().collect();
                match (m.method.to_string().as_str(), a.len()) {
                    ("ok_or_else", 1) => Self::lambda(a[0], 0).map(|(_, b)| parse_quote!(match #r { Some(__v) => Ok(__v), None => Err(#b) })),
                    ("ok_or", 1) => { let x = a[0]; Some(parse_quote!({ let __d = #x; match #r { Some(__v) => Ok(__v), None => Err(__d) } })) }
                    ("map_err", 1) => Self::lambda(a[0], 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Ok(__v) => Ok(__v), Err(#p) => Err(#b) }) }),
                    ("unwrap_or_else", 1) => match (Self::lambda(a[0], 0), Self::lambda(a[0], 1)) {
                        (Some((_, b)), _) if matches!(a[0], Expr::Closure(_)) => Some(parse_quote!(match #r { Some(__v) => __v, None => #b })),
                        (_, Some((p, b))) if matches!(a[0], Expr::Closure(_)) => { let p = &p[0]; Some(parse_quote!(match #r { Ok(__v) => __v, Err(#p) => #b })) }
                        _ => None,
                    },
                    ("replace", 1) if matches!(&**r, Expr::Path(_)) => { let x = a[0]; Some(parse_quote!({ let __new = #x; let __old = #r; #r = Some(__new); __old })) }
                    ("is_some_and", 1) => Self::lambda(a[0], 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => false }) }),
                    ("map_or", 2) => { let d = a[0]; Self::lambda(a[1], 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match (#r).v_opt() { Some(#p) => #b, None => #d }) }) }
                    ("map_or_else", 2) => match (Self::lambda(a[0], 0), Self::lambda(a[1], 1)) {
                        (Some((_, d)), Some((p, b))) => { let p = &p[0]; Some(parse_quote!(match #r { Some(#p) => #b, None => #d })) }
                        _ => None,
                    },
                    ("or", 1) => { let x = a[0]; Some(parse_quote!({ let __d = #x; match #r { Some(__v) => Some(__v), None => __d } })) }
                    ("or_else", 1) => Self::lambda(a[0], 0).map(|(_, b)| parse_quote!(match #r { Some(__v) => Some(__v), None => #b })),
                    ("map", 1) if option => Self::lambda(a[0], 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => Some(#b), None => None }) }),
                    ("and_then", 1) if option => Self::lambda(a[0], 1).map(|(p, b)| { let p = &p[0]; parse_quote!(match #r { Some(#p) => #b, None => None }) }),
                    _ => None,
                }
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}

/// Constants that are literals are written in place of their names
pub fn inline_consts(items: Vec<Item>) -> Result<Vec<Item>> {
    #[derive(Default)]
    struct Find(HashMap<String, Vec<Lit>>);
    fn lit(e: &Expr) -> Option<Lit> {
        match e {
            Expr::Lit(l) => Some(l.lit.clone()),
            _ => None,
        }
    }
    impl<'ast> Visit<'ast> for Find {
        fn visit_item_const(&mut self, c: &'ast ItemConst) {
            self.0.entry(c.ident.to_string()).or_default().extend(lit(&c.expr));
        }
        fn visit_item_static(&mut self, c: &'ast ItemStatic) {
            if matches!(c.mutability, StaticMutability::None) {
                self.0.entry(c.ident.to_string()).or_default().extend(lit(&c.expr));
            }
        }
        fn visit_item_mod(&mut self, _: &'ast ItemMod) {}
    }
    let mut f = Find::default();
    items.iter().for_each(|i| f.visit_item(i));
    let known: HashMap<String, Lit> = f.0.into_iter().filter(|(n, v)| v.len() == 1 && *n == n.to_uppercase()).map(|(n, mut v)| (n, v.pop().unwrap())).collect();
    if known.is_empty() {
        return Ok(items);
    }
    struct Drop_<'a>(&'a HashMap<String, Lit>);
    fn gone(i: &Item, known: &HashMap<String, Lit>) -> bool {
        match i {
            Item::Const(c) => known.contains_key(&c.ident.to_string()),
            Item::Static(c) => known.contains_key(&c.ident.to_string()),
            _ => false,
        }
    }
    impl<'a> VisitMut for Drop_<'a> {
        fn visit_block_mut(&mut self, b: &mut Block) {
            b.stmts.retain(|s| !matches!(s, Stmt::Item(i) if gone(i, self.0)));
            visit_mut::visit_block_mut(self, b);
        }
    }
    fn put(ts: TokenStream, known: &HashMap<String, Lit>) -> TokenStream {
        use proc_macro2::{Group, TokenTree};
        ts.into_iter()
            .map(|t| match t {
                TokenTree::Group(g) => TokenTree::Group(Group::new(g.delimiter(), put(g.stream(), known))),
                TokenTree::Ident(i) if known.contains_key(&i.to_string()) => known[&i.to_string()].to_token_stream().into_iter().next().unwrap(),
                TokenTree::Literal(l) if known.keys().any(|k| l.to_string().contains(&format!("{{{}}}", k))) => {
                    let mut s = match parse2::<LitStr>(TokenTree::Literal(l.clone()).into()) {
                        Ok(s) => s.value(),
                        Err(_) => return TokenTree::Literal(l),
                    };
                    for (k, v) in known {
                        let v = match v {
                            Lit::Str(v) => v.value(),
                            Lit::Int(v) => v.base10_digits().to_string(),
                            Lit::Char(v) => v.value().to_string(),
                            _ => continue,
                        };
                        s = s.replace(&format!("{{{}}}", k), &v.replace('{', "{{").replace('}', "}}"));
                    }
                    TokenTree::Literal(proc_macro2::Literal::string(&s))
                }
                t => t,
            })
            .collect()
    }
    let mut out = Vec::new();
    for mut i in items {
        if gone(&i, &known) {
            continue;
        }
        if matches!(i, Item::Mod(_) | Item::Macro(_)) {
            out.push(i);
            continue;
        }
        Drop_(&known).visit_item_mut(&mut i);
        out.push(parse2(put(i.to_token_stream(), &known))?);
    }
    Ok(out)
}

/// `X.map(|p| b)` and `X.and_then(|p| b)` whose value leaves a function that gives a Result
pub struct ResultPass;
impl ResultPass {
    fn now(e: &Expr) -> Option<Expr> {
        let m = match e { Expr::MethodCall(m) if m.args.len() == 1 => m, _ => return None };
        let (p, b) = match &m.args[0] {
            Expr::Closure(c) if c.inputs.len() == 1 && !leaves(&c.body) => (match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() }, &c.body),
            _ => return None,
        };
        let r = &m.receiver;
        match m.method.to_string().as_str() {
            "map" => Some(parse_quote!(match #r { Ok(#p) => Ok(#b), Err(__e) => Err(__e) })),
            "and_then" => Some(parse_quote!(match #r { Ok(#p) => #b, Err(__e) => Err(__e) })),
            _ => None,
        }
    }
    fn value(e: &mut Expr) {
        if let Some(n) = Self::now(e) {
            *e = n;
        }
        match e {
            Expr::Paren(p) => Self::value(&mut p.expr),
            Expr::MethodCall(m) if m.method == "map_err" => Self::value(&mut m.receiver),
            Expr::Block(b) => Self::tail(&mut b.block),
            Expr::If(i) => {
                Self::tail(&mut i.then_branch);
                if let Some((_, b)) = &mut i.else_branch {
                    Self::value(b);
                }
            }
            Expr::Match(m) => m.arms.iter_mut().for_each(|a| Self::value(&mut a.body)),
            _ => (),
        }
    }
    fn tail(b: &mut Block) {
        if let Some(Stmt::Expr(e, None)) = b.stmts.last_mut() {
            Self::value(e);
        }
    }
    pub fn function(sig: &Signature, b: &mut Block) {
        if matches!(&sig.output, ReturnType::Type(_, t) if norm(t).starts_with("Result<")) {
            Self::tail(b);
            ResultPass.visit_block_mut(b);
        }
    }
}
impl VisitMut for ResultPass {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_item_mut(&mut self, _: &mut Item) {}
    fn visit_expr_return_mut(&mut self, r: &mut ExprReturn) {
        if let Some(e) = &mut r.expr {
            Self::value(e);
        }
        visit_mut::visit_expr_return_mut(self, r);
    }
    fn visit_expr_try_mut(&mut self, t: &mut ExprTry) {
        Self::value(&mut t.expr);
        visit_mut::visit_expr_try_mut(self, t);
    }
}

/// A local named with a raw identifier (`r#type`) is given a plain one (`type__`); fields keep their names
pub struct RawLocalPass;
fn plain(i: &syn::Ident) -> Option<syn::Ident> {
    let t = i.to_string();
    t.strip_prefix("r#").map(|r| syn::Ident::new(&format!("{}__", r), i.span()))
}
impl VisitMut for RawLocalPass {
    fn visit_pat_ident_mut(&mut self, p: &mut syn::PatIdent) {
        if let Some(n) = plain(&p.ident) {
            p.ident = n;
        }
        visit_mut::visit_pat_ident_mut(self, p);
    }
    fn visit_field_pat_mut(&mut self, f: &mut syn::FieldPat) {
        if let (None, syn::Member::Named(n)) = (&f.colon_token, &f.member) {
            if plain(n).is_some() {
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_field_pat_mut(self, f);
    }
    fn visit_field_value_mut(&mut self, f: &mut syn::FieldValue) {
        if let (None, syn::Member::Named(n)) = (&f.colon_token, &f.member) {
            if plain(n).is_some() {
                f.colon_token = Some(Default::default());
            }
        }
        visit_mut::visit_field_value_mut(self, f);
    }
    fn visit_expr_path_mut(&mut self, e: &mut syn::ExprPath) {
        if e.qself.is_none() && e.path.leading_colon.is_none() && e.path.segments.len() == 1 {
            if let Some(n) = plain(&e.path.segments[0].ident) {
                e.path.segments[0].ident = n;
            }
        }
    }
}

/// `let mut x = None; if c { ..; x = e; }` becomes `let mut x = if c { ..; e } else { None };`
pub struct LateLetPass;
impl VisitMut for LateLetPass {
    fn visit_block_mut(&mut self, b: &mut Block) {
        visit_mut::visit_block_mut(self, b);
        let mut i = 0;
        while i + 1 < b.stmts.len() {
            if let Some(s) = late(&b.stmts[i], &b.stmts[i + 1]) {
                b.stmts[i] = s;
                b.stmts.remove(i + 1);
            }
            i += 1;
        }
    }
}
fn late(a: &Stmt, b: &Stmt) -> Option<Stmt> {
    let (l, init) = match a {
        Stmt::Local(l) => (l, l.init.as_ref()?),
        _ => return None,
    };
    if init.diverge.is_some() || norm(&init.expr) != "None" {
        return None;
    }
    let name = match &l.pat {
        Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => p.ident.to_string(),
        _ => return None,
    };
    let i = match b {
        Stmt::Expr(Expr::If(i), _) if i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) => i,
        _ => return None,
    };
    let (last, before) = i.then_branch.stmts.split_last()?;
    let e = match last {
        Stmt::Expr(Expr::Assign(x), Some(_)) if norm(&x.left) == name => &x.right,
        _ => return None,
    };
    let (c, pat) = (&i.cond, &l.pat);
    if mentions(quote!(#c #(#before)* #e), &name) > 0 {
        return None;
    }
    Some(parse_quote!(let #pat = if #c { #(#before)* #e } else { None };))
}

/// `vec![a, b]` becomes pushes
pub struct VecPass;
impl VisitMut for VecPass {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        if let Expr::Macro(m) = e {
            if m.mac.path.is_ident("vec") {
                if let Ok(l) = m.mac.parse_body_with(syn::punctuated::Punctuated::<Expr, Token![,]>::parse_terminated) {
                    let l = l.iter();
                    *e = parse_quote!({ let mut __l = Vec::new(); #(__l.push(#l);)* __l });
                }
            }
        }
        visit_mut::visit_expr_mut(self, e);
    }
}

/// `xs.for_each(|p| body)` becomes a `for` loop
pub struct ForEachPass;
impl ForEachPass {
    /// the only closure of `X.NAME(|p| body)`: X, p, body
    fn over(e: &Expr, name: &str) -> Option<(Expr, Pat, Expr)> {
        match e {
            Expr::MethodCall(m) if m.method == name && m.args.len() == 1 => match &m.args[0] {
                Expr::Closure(c) if c.inputs.len() == 1 => {
                    let p = match &c.inputs[0] { Pat::Type(t) => (*t.pat).clone(), p => p.clone() };
                    Some(((*m.receiver).clone(), p, (*c.body).clone()))
                }
                _ => None,
            },
            _ => None,
        }
    }
    /// `X.try_for_each(|p| body)` whose failure leaves the function
    fn trying(e: &Expr) -> Option<Stmt> {
        let (r, p, b) = Self::over(e, "try_for_each")?;
        if returns(&b) {
            return None;
        }
        Some(Stmt::Expr(parse_quote!(for #p in #r { (#b)?; }), None))
    }
    /// the function's own last expression
    pub fn tail(b: &mut Block) {
        fn value(e: &mut Expr) {
            match e {
                Expr::Block(b) => ForEachPass::tail(&mut b.block),
                Expr::If(i) => {
                    ForEachPass::tail(&mut i.then_branch);
                    if let Some((_, b)) = &mut i.else_branch {
                        value(b);
                    }
                }
                Expr::Match(m) => m.arms.iter_mut().for_each(|a| match ForEachPass::trying(&a.body) {
                    Some(s) => *a.body = parse_quote!({ #s Ok(()) }),
                    None => value(&mut a.body),
                }),
                _ => (),
            }
        }
        let s = match b.stmts.last_mut() {
            Some(Stmt::Expr(e, None)) => {
                value(e);
                Self::trying(e)
            }
            _ => None,
        };
        if let Some(s) = s {
            b.stmts.pop();
            b.stmts.push(s);
            b.stmts.push(Stmt::Expr(parse_quote!(Ok(())), None));
        }
    }
    /// `let v = X.map(|p| Ok(body)).collect::<Result<Vec<_>, _>>()?;`
    fn collecting(s: &Stmt) -> Option<Vec<Stmt>> {
        let l = match s { Stmt::Local(l) => l, _ => return None };
        let init = l.init.as_ref()?;
        let (name, ty) = match &l.pat {
            Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => (p.ident.clone(), String::new()),
            Pat::Type(t) => match &*t.pat {
                Pat::Ident(p) if p.subpat.is_none() && p.by_ref.is_none() => (p.ident.clone(), norm(&t.ty)),
                _ => return None,
            },
            _ => return None,
        };
        let m = match &*init.expr {
            Expr::Try(t) if init.diverge.is_none() => match &*t.expr { Expr::MethodCall(m) if m.method == "collect" => m, _ => return None },
            _ => return None,
        };
        let into = m.turbofish.as_ref().map(|t| norm(t)).unwrap_or_default();
        if !into.contains("Result") || !(into.contains("Vec") || ty.starts_with("Vec")) {
            return None;
        }
        let (r, p, b) = Self::over(&m.receiver, "map")?;
        if returns(&b) {
            return None;
        }
        let item: Expr = match &b {
            Expr::Call(c) if norm(&c.func) == "Ok" && c.args.len() == 1 => c.args[0].clone(),
            b => parse_quote!((#b)?),
        };
        Some(vec![
            parse_quote!(let mut #name = Vec::new();),
            Stmt::Expr(parse_quote!(for #p in #r { #name.push(#item); }), None),
        ])
    }
}
/// a `return` in the expression
fn returns(e: &Expr) -> bool {
    struct R(bool);
    impl<'ast> Visit<'ast> for R {
        fn visit_expr_return(&mut self, _: &'ast ExprReturn) { self.0 = true }
    }
    let mut r = R(false);
    r.visit_expr(e);
    r.0
}
/// a pattern of names only, read back as an expression
fn names(p: &Pat) -> Option<Expr> {
    match p {
        Pat::Ident(i) if i.subpat.is_none() && i.by_ref.is_none() => {
            let i = &i.ident;
            Some(parse_quote!(#i))
        }
        Pat::Tuple(t) => {
            let es: Vec<Expr> = t.elems.iter().map(names).collect::<Option<_>>()?;
            Some(parse_quote!((#(#es),*)))
        }
        _ => None,
    }
}
impl VisitMut for ForEachPass {
    fn visit_expr_closure_mut(&mut self, _: &mut ExprClosure) {}
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out = Vec::new();
        for s in b.stmts.drain(..) {
            match Self::collecting(&s) {
                Some(n) => out.extend(n),
                None => out.push(s),
            }
        }
        b.stmts = out;
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        // `for p in xs.filter(|q| c) { body }`
        if let Some((r, q, c)) = Self::over(&f.expr, "filter") {
            if let (Some(item), false) = (names(&f.pat), leaves(&c)) {
                *f.expr = r;
                let skip: Stmt = Stmt::Expr(parse_quote!(if { let #q = &#item; !(#c) } { continue; }), None);
                f.body.stmts.insert(0, skip);
            }
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
    fn visit_stmt_mut(&mut self, s: &mut Stmt) {
        // `xs.for_each(|p| body);`
        if let Stmt::Expr(e, _) = s {
            if let Some((r, p, b)) = Self::over(e, "for_each") {
                if !leaves(&b) {
                    *s = Stmt::Expr(parse_quote!(for #p in #r { #b; }), None);
                }
            }
        }
        // `xs.try_for_each(|p| body)?;`
        if let Stmt::Expr(Expr::Try(t), Some(_)) = s {
            if let Some(n) = Self::trying(&t.expr) {
                *s = n;
            }
        }
        visit_mut::visit_stmt_mut(self, s);
    }
}

/// statements that do nothing
pub struct NoopPass;
impl VisitMut for NoopPass {
    fn visit_block_mut(&mut self, b: &mut Block) {
        fn pure(e: &Expr) -> bool {
            match e {
                Expr::Lit(_) => true,
                Expr::Path(_) => true,
                Expr::Tuple(t) => t.elems.iter().all(pure),
                Expr::Reference(r) => pure(&r.expr),
                Expr::Paren(r) => pure(&r.expr),
                Expr::Field(f) => pure(&f.base),
                Expr::Block(b) => b.block.stmts.is_empty(),
                Expr::Call(c) => {
                    let f = norm(&c.func);
                    (f.ends_with("black_box") || f.ends_with("identity") || f == "drop") && c.args.iter().all(|a| matches!(a, Expr::Lit(_) | Expr::Tuple(_)) && pure(a))
                }
                Expr::MethodCall(m) => matches!(m.method.to_string().as_str(), "len" | "is_empty") && m.args.is_empty() && pure(&m.receiver),
                _ => false,
            }
        }
        b.stmts.retain(|s| match s {
            Stmt::Local(l) => {
                let wild = matches!(&l.pat, Pat::Wild(_)) || matches!(&l.pat, Pat::Type(t) if matches!(&*t.pat, Pat::Wild(_)));
                let lit = l.init.as_ref().map_or(false, |i| i.diverge.is_none() && pure(&i.expr));
                !(wild && lit)
            }
            Stmt::Expr(Expr::Assign(a), Some(_)) => !(norm(&a.left) == "_" && pure(&a.right)),
            Stmt::Expr(e, Some(_)) => !pure(e),
            _ => true,
        });
        visit_mut::visit_block_mut(self, b);
    }
}

/// Loops over an index become loops over the items that also count:
/// `for i in 0..xs.len() { .. }` and `let mut i = 0; while i < xs.len() { ..; i += 1; }`
/// (nothing else changes i, no `continue`, i is not used afterwards)
/// become `for (i, _) in xs.iter().enumerate() { .. }`.
pub struct IndexPass;
impl IndexPass {
    /// E of `E.len()`, a variable or a field of one
    fn of_len(e: &Expr) -> Option<Expr> {
        fn place(e: &Expr) -> bool {
            match e {
                Expr::Path(_) => true,
                Expr::Field(f) => place(&f.base),
                _ => false,
            }
        }
        match e {
            Expr::MethodCall(m) if m.method == "len" && m.args.is_empty() && place(&m.receiver) => Some((*m.receiver).clone()),
            _ => None,
        }
    }
    fn is_zero(e: &Expr) -> bool { matches!(norm(e).as_str(), "0" | "0usize") }
}
fn mentions(t: impl ToTokens, name: &str) -> usize {
    fn go(t: TokenStream, name: &str) -> usize {
        t.into_iter().map(|x| match x {
            proc_macro2::TokenTree::Ident(i) => (i == name) as usize,
            proc_macro2::TokenTree::Group(g) => go(g.stream(), name),
            _ => 0,
        }).sum()
    }
    go(t.to_token_stream(), name)
}
impl VisitMut for IndexPass {
    fn visit_block_mut(&mut self, b: &mut Block) {
        struct Bad<'b>(&'b str, bool);
        impl<'ast, 'b> Visit<'ast> for Bad<'b> {
            fn visit_expr_continue(&mut self, _: &'ast ExprContinue) { self.1 = true }
            fn visit_expr_assign(&mut self, a: &'ast ExprAssign) { self.1 |= norm(&a.left) == self.0; syn::visit::visit_expr_assign(self, a) }
            fn visit_expr_binary(&mut self, a: &'ast ExprBinary) {
                if matches!(a.op, BinOp::AddAssign(_) | BinOp::SubAssign(_) | BinOp::MulAssign(_) | BinOp::DivAssign(_) | BinOp::RemAssign(_) | BinOp::ShlAssign(_) | BinOp::ShrAssign(_) | BinOp::BitAndAssign(_) | BinOp::BitOrAssign(_) | BinOp::BitXorAssign(_)) {
                    self.1 |= norm(&a.left) == self.0;
                }
                syn::visit::visit_expr_binary(self, a)
            }
            fn visit_expr_reference(&mut self, r: &'ast ExprReference) { self.1 |= r.mutability.is_some() && norm(&r.expr) == self.0; syn::visit::visit_expr_reference(self, r) }
            fn visit_macro(&mut self, m: &'ast Macro) { self.1 |= mentions(&m.tokens, self.0) > 0 && !matches!(norm(&m.path).as_str(), "cat" | "format" | "append"); }
        }
        // loop { if c { break; } .. } is while !c { .. }
        for s in b.stmts.iter_mut() {
            let new: Expr = match s {
                Stmt::Expr(Expr::Loop(l), _) if l.label.is_none() => match l.body.stmts.first() {
                    Some(Stmt::Expr(Expr::If(i), _)) if i.else_branch.is_none() && !matches!(&*i.cond, Expr::Let(_)) && matches!(norm(&i.then_branch).as_str(), "{break;}" | "{break}") => {
                        let (c, rest) = (&i.cond, &l.body.stmts[1..]);
                        match &**c {
                            Expr::Unary(u) if matches!(u.op, UnOp::Not(_)) => {
                                let c = &u.expr;
                                parse_quote!(while #c { #(#rest)* })
                            }
                            c => parse_quote!(while !(#c) { #(#rest)* }),
                        }
                    }
                    _ => continue,
                },
                _ => continue,
            };
            *s = Stmt::Expr(new, None);
        }
        let n = b.stmts.len();
        let mut gone = Vec::new();
        // let mut it = E; while let Some(x) = it.next() { .. }
        for j in 1..n {
            let new: Stmt = match (&b.stmts[j - 1], &b.stmts[j]) {
                (Stmt::Local(l), Stmt::Expr(Expr::While(w), _)) if w.label.is_none() => match (local_name(l), &l.init, &*w.cond) {
                    (Some(it), Some(init), Expr::Let(c)) if init.diverge.is_none() && norm(&c.expr) == format!("{}.next()", it) => match &*c.pat {
                        Pat::TupleStruct(t) if norm(&t.path) == "Some" && t.elems.len() == 1 && mentions(&w.body, &it) == 0 && b.stmts[j + 1..].iter().all(|s| mentions(s, &it) == 0) => {
                            let (x, e, body) = (&t.elems[0], &init.expr, &w.body);
                            Stmt::Expr(parse_quote!(for #x in #e #body), None)
                        }
                        _ => continue,
                    },
                    _ => continue,
                },
                _ => continue,
            };
            b.stmts[j] = new;
            gone.push(j - 1);
        }
        for j in gone.into_iter().rev() {
            b.stmts.remove(j);
        }
        let n = b.stmts.len();
        for j in 0..n {
            let (cond, body) = match &b.stmts[j] {
                Stmt::Expr(Expr::While(w), _) if w.label.is_none() => (&w.cond, &w.body),
                _ => continue,
            };
            let (i, xs) = match &**cond {
                Expr::Binary(c) if matches!(c.op, BinOp::Lt(_)) => match (&*c.left, Self::of_len(&c.right)) {
                    (Expr::Path(p), Some(xs)) if p.path.get_ident().is_some() => (p.path.get_ident().unwrap().clone(), xs),
                    _ => continue,
                },
                _ => continue,
            };
            let name = i.to_string();
            // the step: at the end, or after the last use of the index
            let at = body.stmts.iter().position(|s| matches!(s, Stmt::Expr(e, Some(_)) if norm(e) == format!("{}+=1", name) || norm(e) == format!("{}={}+1", name, name)));
            let step = at.map_or(false, |k| body.stmts[k + 1..].iter().all(|s| mentions(s, &name) == 0));
            let start = (0..j).rev().find(|k| mentions(&b.stmts[*k], &name) > 0);
            let zero = match start.map(|k| &b.stmts[k]) {
                Some(Stmt::Local(l)) => local_name(l).as_deref() == Some(&name) && l.init.as_ref().map_or(false, |x| x.diverge.is_none() && Self::is_zero(&x.expr)),
                _ => false,
            };
            let after = b.stmts[j + 1..].iter().any(|s| mentions(s, &name) > 0);
            let inner: Vec<Stmt> = body.stmts.iter().enumerate().filter(|(k, _)| Some(*k) != at).map(|(_, s)| s.clone()).collect();
            let mut bad = Bad(&name, false);
            for s in &inner {
                bad.visit_stmt(s);
            }
            if step && zero && !after && !bad.1 {
                b.stmts[j] = Stmt::Expr(parse_quote!(for (#i, _) in #xs.iter().enumerate() { #(#inner)* }), None);
            }
        }
        visit_mut::visit_block_mut(self, b);
    }
    fn visit_expr_for_loop_mut(&mut self, f: &mut ExprForLoop) {
        if let (Pat::Ident(i), Expr::Range(r)) = (&*f.pat, &*f.expr) {
            if let (Some(a), Some(b), RangeLimits::HalfOpen(_)) = (&r.start, &r.end, &r.limits) {
                if let (true, Some(xs)) = (Self::is_zero(a), Self::of_len(b)) {
                    let i = &i.ident;
                    f.pat = parse_quote!((#i, _));
                    f.expr = parse_quote!(#xs.iter().enumerate());
                }
            }
        }
        visit_mut::visit_expr_for_loop_mut(self, f);
    }
}

/// `for` loops become counted `while` loops over the items yielded.
pub struct ForPass {
    pub n: usize,
}
impl VisitMut for ForPass {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        // pre-order numbering: outer loops first
        if let Expr::ForLoop(f) = e {
            self.n += 1;
            let k = format_ident!("__k{}", self.n);
            let it = format_ident!("__it{}", self.n);
            let num = Literal(self.n);
            visit_mut::visit_expr_for_loop_mut(self, f);
            Continues { n: num.0, label: f.label.clone() }.visit_block_mut(&mut f.body);
            let label = &f.label;
            let stmts = &f.body.stmts;
            // `for (i, x) in xs.enumerate()`: the counter is there already
            let (index, pat, src) = match (&*f.pat, &*f.expr) {
                (Pat::Tuple(t), Expr::MethodCall(m)) if t.elems.len() == 2 && m.args.is_empty() && (m.method == "enumerate" || m.method == "v_enumerate") => {
                    let p = &t.elems[0];
                    let l: Stmt = parse_quote!(let #p = #k;);
                    (Some(l), t.elems[1].clone(), (*m.receiver).clone())
                }
                _ => (None, (*f.pat).clone(), (*f.expr).clone()),
            };
            let n: Expr = parse_quote!({
                let #it = (#src).v_into_iter();
                let mut #k: usize = 0;
                #label while #k < #it.v_len() {
                    __pktx_loopmark!(#num);
                    let #pat = #it.v_item(#k);
                    #index
                    #k = #k + 1;
                    __pktx_loopstart!(#num);
                    #(#stmts)*
                    __pktx_loopend!(#num);
                }
                __pktx_loopafter!(#num);
            });
            *e = n;
        } else if let Expr::While(w) = e {
            self.n += 1;
            let num = Literal(self.n);
            visit_mut::visit_expr_while_mut(self, w);
            let stmts = &w.body.stmts;
            let (c, label) = (&w.cond, &w.label);
            let n: Expr = parse_quote!({
                #label while #c {
                    __pktx_loopmark!(#num);
                    __pktx_loopstart!(#num);
                    #(#stmts)*
                    __pktx_loopend!(#num);
                }
                __pktx_loopafter!(#num);
            });
            *e = n;
        } else if let Expr::Loop(w) = e {
            self.n += 1;
            let num = Literal(self.n);
            visit_mut::visit_expr_loop_mut(self, w);
            let stmts = &w.body.stmts;
            let label = &w.label;
            let n: Expr = parse_quote!({
                #label loop {
                    __pktx_loopmark!(#num);
                    __pktx_loopstart!(#num);
                    #(#stmts)*
                    __pktx_loopend!(#num);
                }
                __pktx_loopafter!(#num);
            });
            *e = n;
        } else {
            visit_mut::visit_expr_mut(self, e);
        }
    }
}
/// `continue` ends an iteration too
struct Continues {
    n: usize,
    label: Option<Label>,
}
impl VisitMut for Continues {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        match e {
            Expr::ForLoop(_) | Expr::While(_) | Expr::Loop(_) | Expr::Closure(_) if self.label.is_none() => (),
            Expr::Continue(c) if c.label.is_none() || c.label == self.label.as_ref().map(|l| l.name.clone()) => {
                let (n, c) = (Literal(self.n), c.clone());
                *e = parse_quote!({ __pktx_loopend!(#n); #c });
            }
            _ => visit_mut::visit_expr_mut(self, e),
        }
    }
}
struct Literal(usize);
impl ToTokens for Literal {
    fn to_tokens(&self, t: &mut TokenStream) { proc_macro2::Literal::usize_unsuffixed(self.0).to_tokens(t) }
}
