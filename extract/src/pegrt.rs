//! The runtime of the parser generator: what of it works on `str`.
//!
//! `impl Trait for str` gives free functions with the receiver as their first
//! parameter, associated types are replaced by their values, and the type
//! parameter bound by `Parse` by `str`.  Two iterator chains become loops.
use crate::lower::{norm, path_ident};
use quote::quote;
use std::collections::BTreeMap;
use syn::visit_mut::{self, VisitMut};
use syn::*;

struct OnStr {
    types: BTreeMap<String, Type>,
    /// type parameters bound by `Parse`
    params: Vec<String>,
}
impl VisitMut for OnStr {
    fn visit_type_mut(&mut self, t: &mut Type) {
        if let Type::Path(p) = t {
            let segs: Vec<String> = p.path.segments.iter().map(|s| s.ident.to_string()).collect();
            if segs.len() == 2 && (segs[0] == "Self" || self.params.contains(&segs[0])) {
                if let Some(x) = self.types.get(&segs[1]) {
                    *t = x.clone();
                    return;
                }
            }
            if segs.len() == 1 && self.params.contains(&segs[0]) {
                *t = parse_quote!(str);
                return;
            }
        }
        visit_mut::visit_type_mut(self, t);
    }
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        let new: Option<Expr> = match e {
            Expr::Lit(ExprLit { lit: Lit::Byte(b), .. }) => {
                let n = LitInt::new(&format!("{}u8", b.value()), b.span());
                Some(parse_quote!(#n))
            }
            // the method of a trait that `str` implements
            Expr::Call(c) => {
                if let Expr::Path(p) = &mut *c.func {
                    if p.path.segments.len() == 2 && p.path.segments[0].ident.to_string().starts_with("Parse") && p.path.segments[0].ident != "ParseError" {
                        let f = p.path.segments[1].ident.clone();
                        p.path = parse_quote!(#f);
                        // positions are `usize` already
                        for a in c.args.iter_mut() {
                            if let Expr::MethodCall(m) = a {
                                if m.method == "into" && m.args.is_empty() {
                                    *a = (*m.receiver).clone();
                                }
                            }
                        }
                    }
                }
                None
            }
            Expr::MethodCall(m) if m.args.is_empty() => {
                let r = &m.receiver;
                match m.method.to_string().as_str() {
                    "len" => Some(parse_quote!(crate::peg::str_len(#r))),
                    "as_bytes" => Some(parse_quote!(#r.v_bytes())),
                    "len_utf8" => Some(parse_quote!(v_len_utf8(#r))),
                    "count" => counted(r),
                    _ => None,
                }
            }
            Expr::Binary(b) if matches!(b.op, BinOp::Eq(_)) && norm(&b.right).ends_with(".v_bytes()") => {
                let (l, r) = (&b.left, &b.right);
                Some(parse_quote!(v_same_bytes(#l, #r)))
            }
            _ => None,
        };
        if let Some(n) = new {
            *e = n;
        }
    }
}
/// `xs.filter(|p| c).count()` and `xs.take_while(|p| c).count()`
fn counted(e: &Expr) -> Option<Expr> {
    let m = match e {
        Expr::MethodCall(m) if m.args.len() == 1 => m,
        _ => return None,
    };
    let c = match &m.args[0] {
        Expr::Closure(c) if c.inputs.len() == 1 => c,
        _ => return None,
    };
    // the closure is given a reference to the item
    let mut p = match &c.inputs[0] {
        Pat::Reference(r) => (*r.pat).clone(),
        _ => return None,
    };
    let mut x: Expr = parse_quote!(__x);
    while let Pat::Reference(r) = p {
        p = *r.pat;
        x = parse_quote!(*#x);
    }
    let (xs, cond) = (&m.receiver, &c.body);
    match m.method.to_string().as_str() {
        "filter" => Some(parse_quote!({ let mut __n: usize = 0; for __x in #xs { let #p = #x; if #cond { __n = __n + 1; } } __n })),
        "take_while" => Some(parse_quote!({ let mut __n: usize = 0; for __x in #xs { let #p = #x; if !(#cond) { break; } __n = __n + 1; } __n })),
        _ => None,
    }
}
struct ThisIs;
impl VisitMut for ThisIs {
    fn visit_expr_mut(&mut self, e: &mut Expr) {
        visit_mut::visit_expr_mut(self, e);
        if path_ident(e).as_deref() == Some("self") {
            *e = parse_quote!(__s);
        }
    }
}

/// from the concatenated source files of the runtime
pub fn prepare(items: Vec<Item>, dropped: &mut Vec<String>) -> Vec<Item> {
    let mut types = BTreeMap::new();
    let on_str = |im: &ItemImpl| im.trait_.is_some() && norm(&im.self_ty) == "str";
    for i in &items {
        if let Item::Impl(im) = i {
            if on_str(im) {
                for x in &im.items {
                    if let ImplItem::Type(t) = x {
                        types.insert(t.ident.to_string(), t.ty.clone());
                    }
                }
            }
        }
    }
    let mut out = Vec::new();
    for i in items {
        match i {
            Item::Impl(im) if on_str(&im) => {
                for x in im.items {
                    if let ImplItem::Fn(mut f) = x {
                        OnStr { types: types.clone(), params: vec![] }.visit_impl_item_fn_mut(&mut f);
                        ThisIs.visit_block_mut(&mut f.block);
                        if let Some(FnArg::Receiver(r)) = f.sig.inputs.first() {
                            let l = r.lifetime().cloned();
                            f.sig.inputs[0] = parse_quote!(__s: & #l str);
                        }
                        for p in im.generics.params.iter() {
                            f.sig.generics.params.push(p.clone());
                        }
                        let (sig, block) = (&f.sig, &f.block);
                        out.push(parse_quote!(pub #sig #block));
                    }
                }
            }
            Item::Impl(im) if im.trait_.is_some() => dropped.push(format!("peg-runtime: impl {} for {}", norm(&im.trait_.as_ref().unwrap().1), norm(&im.self_ty))),
            Item::Impl(mut im) => {
                for x in im.items.iter_mut() {
                    if let ImplItem::Fn(f) = x {
                        let params: Vec<String> = f.sig.generics.type_params().filter(|p| quote!(#p).to_string().contains("Parse")).map(|p| p.ident.to_string()).collect();
                        OnStr { types: types.clone(), params: params.clone() }.visit_impl_item_fn_mut(f);
                        let keep = f.sig.generics.params.iter().filter(|p| !matches!(p, GenericParam::Type(t) if params.contains(&t.ident.to_string()))).cloned().collect();
                        f.sig.generics.params = keep;
                    }
                }
                out.push(Item::Impl(im));
            }
            Item::Use(_) | Item::Mod(_) => (),
            Item::Trait(t) => dropped.push(format!("peg-runtime: trait {}", t.ident)),
            i => out.push(i),
        }
    }
    out
}
