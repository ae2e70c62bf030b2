//! Placing contract text in a lowered function body.
use crate::contracts::FnContract;
use crate::lower::{local_name, norm, FnUnit, Res};
use crate::printer::Printer;
use quote::{quote, ToTokens};
use std::collections::HashMap;
use syn::visit::Visit;
use syn::visit_mut::{self, VisitMut};
use syn::*;

pub struct Names {
    params: Vec<String>,
    lets: Vec<(String, String)>,
}
pub fn names(u: &FnUnit) -> Names {
    let params = u
        .sig
        .inputs
        .iter()
        .map(|p| match p {
            FnArg::Receiver(_) => "self".to_string(),
            FnArg::Typed(t) => match &*t.pat {
                Pat::Ident(i) => i.ident.to_string(),
                _ => "_".to_string(),
            },
        })
        .collect();
    struct L(Vec<(String, String)>);
    impl<'ast> Visit<'ast> for L {
        fn visit_local(&mut self, l: &'ast Local) {
            if let (Some(n), Some(i)) = (local_name(l), &l.init) {
                self.0.push((n, norm(&i.expr)));
            } else if let Some(i) = &l.init {
                self.0.push((norm(&l.pat), norm(&i.expr)));
            }
            syn::visit::visit_local(self, l);
        }
    }
    /// `match e { Ok(x) => .. }` names x after e
    struct A(Vec<(String, String)>);
    impl<'ast> Visit<'ast> for A {
        fn visit_expr_match(&mut self, m: &'ast ExprMatch) {
            for a in &m.arms {
                self.pattern(&a.pat, &m.expr);
            }
            syn::visit::visit_expr_match(self, m);
        }
        fn visit_expr_let(&mut self, l: &'ast ExprLet) {
            self.pattern(&l.pat, &l.expr);
            syn::visit::visit_expr_let(self, l);
        }
    }
    impl A {
        fn pattern(&mut self, p: &Pat, e: &Expr) {
            if let Pat::TupleStruct(t) = p {
                if let (Some("Ok" | "Some"), Some(Pat::Ident(i)), 1) = (t.path.get_ident().map(|i| i.to_string()).as_deref(), t.elems.first(), t.elems.len()) {
                    self.0.push((i.ident.to_string(), norm(e)));
                }
            }
        }
    }
    let mut l = L(Vec::new());
    l.visit_block(&u.block);
    let mut a = A(Vec::new());
    a.visit_block(&u.block);
    l.0.extend(a.0);
    Names { params, lets: l.0 }
}
impl Names {
    /// `$1` (parameter by position), `${k1}`/`${it1}` (loop counter / items),
    /// `${let:TEXT}` or `${let:TEXT#2}` (local whose initialiser contains TEXT),
    /// `${of1}` (local that starts as parameter 1, or the parameter itself),
    /// `${item1}` (pattern of the first let in loop 1, an identifier)
    /// Lines that begin with `?` are left out when what they name is gone.
    fn subst(&self, t: &str) -> Res<String> {
        let mut out = String::new();
        for l in t.split_inclusive('\n') {
            match l.trim_start().strip_prefix('?') {
                Some(l) => out.push_str(&self.subst_text(l).unwrap_or_default()),
                None => out.push_str(&self.subst_text(l)?),
            }
        }
        Ok(out)
    }
    fn subst_text(&self, t: &str) -> Res<String> {
        let mut out = String::new();
        let cs: Vec<char> = t.chars().collect();
        let mut i = 0;
        while i < cs.len() {
            if cs[i] == '$' && i + 1 < cs.len() {
                if cs[i + 1].is_ascii_digit() {
                    let n = cs[i + 1].to_digit(10).unwrap() as usize;
                    out.push_str(self.params.get(n - 1).ok_or(format!("lost anchor: parameter {}", n))?);
                    i += 2;
                    continue;
                }
                if cs[i + 1] == '{' {
                    let mut j = i + 2;
                    while j < cs.len() && cs[j] != '}' {
                        j += 1;
                    }
                    let body: String = cs[i + 2..j].iter().collect();
                    i = j + 1;
                    if let Some(k) = body.strip_prefix("let:") {
                        let (pat, n) = match k.rsplit_once('#') {
                            Some((p, n)) => (p.to_string(), n.parse::<usize>().map_err(|e| e.to_string())?),
                            None => (k.to_string(), 1),
                        };
                        let pat: String = pat.split_whitespace().collect();
                        // alternatives are tried in order
                        let f = pat.split('|').find_map(|pat| {
                            let same: &[&str] = match pat {
                                "HashSet::new()" => &["HashSet::new()", "HashSet::with_capacity", "HashSet::default()"],
                                "HashMap::new()" => &["HashMap::new()", "HashMap::with_capacity", "HashMap::default()"],
                                "Vec::new()" | "Vec::with_capacity" => &["Vec::new()", "Vec::with_capacity", "Vec::default()"],
                                p => &[p],
                            };
                            self.lets.iter().filter(|(_, i)| same.iter().any(|p| i.contains(p))).nth(n - 1)
                        });
                        out.push_str(&f.ok_or(format!("lost anchor: no local initialised with {}", pat))?.0);
                    } else if let Some(n) = body.strip_prefix("of") {
                        let n = n.parse::<usize>().map_err(|e| e.to_string())?;
                        let p = self.params.get(n - 1).ok_or(format!("lost anchor: parameter {}", n))?;
                        out.push_str(self.lets.iter().find(|(_, i)| i == p).map_or(p, |l| &l.0));
                    } else if let Some(n) = body.strip_prefix("it") {
                        out.push_str(&format!("__it{}", n));
                    } else if let Some(n) = body.strip_prefix("k") {
                        out.push_str(&format!("__k{}", n));
                    } else {
                        return Err(format!("bad placeholder ${{{}}}", body));
                    }
                    continue;
                }
            }
            out.push(cs[i]);
            i += 1;
        }
        Ok(out)
    }
}

fn marker(kind: &str, id: usize) -> Stmt {
    let k = quote::format_ident!("__pktx_{}", kind);
    let n = proc_macro2::Literal::usize_unsuffixed(id);
    parse_quote!(#k!(#n);)
}
fn raw(raws: &mut Vec<String>, t: String) -> usize {
    raws.push(t);
    raws.len() - 1
}

struct Place<'a> {
    c: &'a FnContract,
    names: Names,
    raws: &'a mut Vec<String>,
    err: Option<String>,
    seen_calls: HashMap<String, usize>,
    used: Vec<(String, usize)>,
    nret: usize,
    nclosure: usize,
    for_loops: Vec<usize>,
}
/// names of the calls in a statement that are not inside a nested block
fn direct_calls(s: &Stmt) -> Vec<String> {
    struct C(Vec<String>);
    impl<'ast> Visit<'ast> for C {
        fn visit_block(&mut self, _: &'ast Block) {}
        fn visit_expr_closure(&mut self, _: &'ast ExprClosure) {}
        fn visit_expr_call(&mut self, c: &'ast ExprCall) {
            syn::visit::visit_expr_call(self, c);
            if let Expr::Path(p) = &*c.func {
                self.0.push(p.path.segments.last().unwrap().ident.to_string());
            }
        }
        fn visit_expr_method_call(&mut self, c: &'ast ExprMethodCall) {
            syn::visit::visit_expr_method_call(self, c);
            self.0.push(c.method.to_string());
        }
    }
    let mut c = C(Vec::new());
    c.visit_stmt(s);
    c.0
}
impl<'a> Place<'a> {
    fn text(&mut self, t: &str) -> Option<usize> {
        match self.names.subst(t) {
            Ok(t) => Some(raw(self.raws, t)),
            Err(e) => {
                if self.err.is_none() {
                    self.err = Some(e);
                }
                None
            }
        }
    }
}
impl<'a> VisitMut for Place<'a> {
    fn visit_block_mut(&mut self, b: &mut Block) {
        let mut out: Vec<Stmt> = Vec::new();
        let stmts = std::mem::take(&mut b.stmts);
        let total = stmts.len();
        for (i, mut s) in stmts.into_iter().enumerate() {
            // loop markers
            if let Stmt::Macro(m) = &s {
                let name = m.mac.path.segments[0].ident.to_string();
                if let Some(kind) = name.strip_prefix("__pktx_") {
                    let n: usize = m.mac.tokens.to_string().trim().parse().unwrap_or(0);
                    match kind {
                        "loopmark" => {
                            let is_for = self.for_loops.contains(&n);
                            let user = self.c.loops.get(&n).cloned().unwrap_or_default();
                            let mut t = String::new();
                            if is_for {
                                // what need not hold when the loop is left by `break` comes first
                                let (first, user): (Vec<&str>, Vec<&str>) = user.split_inclusive('\n').partition(|l| l.trim_start().starts_with("invariant_except_break"));
                                let (first, user) = (first.concat(), user.concat());
                                t.push_str(&format!("{first}    invariant\n        __k{n} <= __it{n}@.len(),\n{user}    decreases __it{n}@.len() - __k{n}\n"));
                            } else {
                                t.push_str(&user);
                            }
                            if let Some(id) = self.text(&t) {
                                out.push(marker("inv", id));
                            }
                        }
                        "loopstart" | "loopend" | "loopafter" => {
                            let m = match kind {
                                "loopstart" => &self.c.loop_start,
                                "loopend" => &self.c.loop_end,
                                _ => &self.c.loop_after,
                            };
                            if let Some(t) = m.get(&n).cloned() {
                                if let Some(id) = self.text(&t) {
                                    out.push(marker("proof", id));
                                }
                            }
                        }
                        _ => out.push(s.clone()),
                    }
                    continue;
                }
            }
            let mut pre: Vec<usize> = Vec::new();
            let mut post: Vec<usize> = Vec::new();
            for name in direct_calls(&s) {
                let n = self.seen_calls.entry(name.clone()).or_insert(0);
                *n += 1;
                let k = (name, *n);
                if let Some(t) = self.c.before.get(&k).cloned() {
                    if let Some(id) = self.text(&t) { pre.push(id) }
                    self.used.push(k.clone());
                }
                if let Some(t) = self.c.after.get(&k).cloned() {
                    if let Some(id) = self.text(&t) { post.push(id) }
                    self.used.push(k.clone());
                }
            }
            if let Stmt::Expr(Expr::Return(_), _) = &s {
                self.nret += 1;
                if let Some(t) = self.c.returns.get(&self.nret).cloned() {
                    if let Some(id) = self.text(&t) { pre.push(id) }
                }
            }
            visit_mut::visit_stmt_mut(self, &mut s);
            for id in pre {
                out.push(marker("proof", id));
            }
            let is_tail = i + 1 == total && matches!(&s, Stmt::Expr(e, None) if !matches!(e, Expr::ForLoop(_) | Expr::While(_)));
            if is_tail && !post.is_empty() {
                // value of the block: bind it, prove, return it
                if let Stmt::Expr(e, None) = s {
                    out.push(parse_quote!(let __tail = #e;));
                    for id in post {
                        out.push(marker("proof", id));
                    }
                    out.push(Stmt::Expr(parse_quote!(__tail), None));
                }
                continue;
            }
            out.push(s);
            for id in post {
                out.push(marker("proof", id));
            }
        }
        b.stmts = out;
    }
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        // `X => return e` : give the return a block so that proof text fits
        if let Expr::Return(_) = &*a.body {
            let b = &a.body;
            a.body = parse_quote!({ #b });
        }
        visit_mut::visit_arm_mut(self, a);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        match e {
            Expr::Call(c) => {
                if let Expr::Path(p) = &*c.func {
                    let n = p.path.segments.last().unwrap().ident.to_string();
                    if let Some(t) = self.c.calls.get(&n).cloned() {
                        if let Some(id) = self.text(&t) {
                            let l = proc_macro2::Literal::usize_unsuffixed(id);
                            c.args.push(parse_quote!(__pktx_expr!(#l)));
                        }
                    }
                }
            }
            Expr::MethodCall(m) => {
                let n = m.method.to_string();
                if let Some(t) = self.c.calls.get(&n).cloned() {
                    if let Some(id) = self.text(&t) {
                        let l = proc_macro2::Literal::usize_unsuffixed(id);
                        m.args.push(parse_quote!(__pktx_expr!(#l)));
                    }
                }
            }
            Expr::Closure(c) => {
                self.nclosure += 1;
                let n = self.nclosure;
                if let Some(t) = self.c.closures.get(&n).cloned() {
                    // closure text: parameter types, then the ensures; $p1.. are its parameters
                    let mut t = t;
                    for (i, p) in c.inputs.iter().enumerate() {
                        let nm = match p {
                            Pat::Type(t) => norm(&t.pat),
                            p => norm(p),
                        };
                        t = t.replace(&format!("$p{}", i + 1), &nm);
                    }
                    if let Some(id) = self.text(&t) {
                        let l = proc_macro2::Literal::usize_unsuffixed(id);
                        let b = &c.body;
                        let body: Expr = match &**b {
                            Expr::Block(_) => (**b).clone(),
                            o => parse_quote!({ #o }),
                        };
                        // printed verbatim: header text followed by the body
                        *e = parse_quote!(__pktx_closure!(#l #body));
                    }
                }
            }
            _ => (),
        }
    }
}

/// arms get a block, so that text placed at a call in an arm is in the arm
struct ArmBlocks<'a>(&'a FnContract);
impl<'a> VisitMut for ArmBlocks<'a> {
    fn visit_arm_mut(&mut self, a: &mut Arm) {
        let anchored = |n: &String| self.0.before.keys().chain(self.0.after.keys()).any(|k| k.0 == *n);
        if !matches!(&*a.body, Expr::Block(_)) && direct_calls(&Stmt::Expr((*a.body).clone(), None)).iter().any(anchored) {
            let b = &a.body;
            a.body = parse_quote!({ #b });
        }
        visit_mut::visit_arm_mut(self, a);
    }
}

pub fn place(u: &mut FnUnit, c: &FnContract, raws: &mut Vec<String>, nloops: usize) -> Res<()> {
    for m in [&c.loops, &c.loop_start, &c.loop_end, &c.loop_after] {
        for n in m.keys() {
            if *n > nloops {
                return Err(format!("lost anchor: loop {} of {}", n, nloops));
            }
        }
    }
    if nloops > c.loops.len().max(c.loops.keys().copied().max().unwrap_or(0)) {
        return Err(format!("lost anchor: {} loops, contracts for {}", nloops, c.loops.len()));
    }
    ArmBlocks(c).visit_block_mut(&mut u.block);
    // which loops are counted for-loops
    struct F(Vec<usize>);
    impl<'ast> Visit<'ast> for F {
        fn visit_local(&mut self, l: &'ast Local) {
            if let Some(n) = local_name(l) {
                if let Some(n) = n.strip_prefix("__it") {
                    if let Ok(n) = n.parse() {
                        self.0.push(n);
                    }
                }
            }
            syn::visit::visit_local(self, l);
        }
    }
    let mut f = F(Vec::new());
    f.visit_block(&u.block);
    let mut p = Place {
        c,
        names: names(u),
        raws,
        err: None,
        seen_calls: HashMap::new(),
        used: vec![],
        nret: 0,
        nclosure: 0,
        for_loops: f.0,
    };
    // `mut` parameters become locals
    let mut lets: Vec<Stmt> = Vec::new();
    for a in u.sig.inputs.iter_mut() {
        if let FnArg::Typed(t) = a {
            if let Pat::Ident(i) = &mut *t.pat {
                if i.mutability.take().is_some() {
                    let id = &i.ident;
                    lets.push(parse_quote!(let mut #id = #id;));
                }
            }
        }
    }
    p.visit_block_mut(&mut u.block);
    if !c.exit.trim().is_empty() {
        if let Some(id) = p.text(&c.exit) {
            let n = u.block.stmts.len();
            let at = match u.block.stmts.last() {
                Some(Stmt::Expr(Expr::Block(b), None)) if b.block.stmts.iter().any(|s| norm(s).contains("while")) && matches!(u.sig.output, ReturnType::Default) => n,
                Some(Stmt::Expr(_, None)) if !matches!(u.sig.output, ReturnType::Default) => n - 1,
                _ => n,
            };
            u.block.stmts.insert(at, marker("proof", id));
        }
    }
    if !c.entry.trim().is_empty() {
        if let Some(id) = p.text(&c.entry) {
            u.block.stmts.insert(0, marker("proof", id));
        }
    }
    for (i, l) in lets.into_iter().enumerate() {
        u.block.stmts.insert(i, l);
    }
    if let Some(e) = p.err {
        return Err(e);
    }
    for k in c.after.keys().chain(c.before.keys()) {
        if !p.used.contains(k) {
            return Err(format!("lost anchor: call {} of {}", k.1, k.0));
        }
    }
    for k in c.returns.keys() {
        if *k > p.nret {
            return Err(format!("lost anchor: return {}", k));
        }
    }
    Ok(())
}

pub fn print_fn(u: &FnUnit, c: &FnContract, raws: &mut Vec<String>) -> Res<String> {
    let nm = names(u);
    let mut out = String::new();
    if let Some(h) = &u.impl_head {
        out.push_str(h);
        out.push_str(" {\n");
    }
    out.push_str(&c.attrs);
    if !c.loops.is_empty() {
        out.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n");
    }
    if c.external {
        out.push_str("#[verifier::external_body]\n");
    }
    let s = &u.sig;
    let (id, g, inp, w) = (&s.ident, &s.generics, &s.inputs, &s.generics.where_clause);
    let mut inputs = inp.to_token_stream().to_string();
    if !c.ghost_params.is_empty() {
        if !inputs.trim().is_empty() && !inputs.trim().ends_with(',') {
            inputs.push_str(", ");
        }
        inputs.push_str(&nm.subst(&c.ghost_params)?);
    }
    let lt = &g.params;
    let gens = if lt.is_empty() { String::new() } else { quote!(<#lt>).to_string() };
    out.push_str(&format!("pub fn {}{}({})", id, gens, inputs));
    if let ReturnType::Type(_, t) = &s.output {
        out.push_str(&format!(" -> ({}: {})", c.ret.clone().unwrap_or("r".into()), t.to_token_stream()));
    }
    out.push_str(&format!(" {}\n", w.to_token_stream()));
    out.push_str(&nm.subst(&c.spec)?);
    if c.external {
        out.push_str("{ unimplemented!() }\n");
    } else {
        let mut p = Printer::new(raws);
        p.print(u.block.to_token_stream(), false);
        out.push_str(&p.out);
        out.push('\n');
    }
    if u.impl_head.is_some() {
        out.push_str("}\n");
    }
    Ok(out)
}
