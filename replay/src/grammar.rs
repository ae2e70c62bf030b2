//! An independent recogniser for the schema format, following format.md.
//! It also tracks the furthest position at which some token was expected and missing.
use crate::model::*;

pub struct P<'a> { t: &'a str, far: usize, quiet: usize }
type R<T> = Option<(T, usize)>;

impl<'a> P<'a> {
    fn ch(&self, p: usize) -> Option<char> { self.t[p..].chars().next() }
    fn fail(&mut self, p: usize) { if self.quiet == 0 && p > self.far { self.far = p; } }
    fn lit(&mut self, p: usize, s: &str) -> Option<usize> { if self.t[p..].starts_with(s) { Some(p + s.len()) } else { self.fail(p); None } }
    fn class(&mut self, p: usize, f: impl Fn(char) -> bool) -> Option<usize> { match self.ch(p) { Some(c) if f(c) => Some(p + c.len_utf8()), _ => { self.fail(p); None } } }
    fn many(&mut self, mut p: usize, f: impl Fn(char) -> bool + Copy) -> usize { while let Some(q) = self.class(p, f) { p = q; } p }
    fn sp(&mut self, p: usize) -> usize { self.many(p, |c| c == ' ' || c == '\t') }
    fn gap(&mut self, p: usize) -> usize { self.many(p, |c| matches!(c, ' ' | '\t' | '\n' | '\r')) }
    fn word(&mut self, p: usize) -> (String, usize) { let q = self.many(p, |c| c.is_ascii_alphanumeric() || c == '_'); (self.t[p..q].to_string(), q) }
    fn comment(&mut self, p: usize) -> Option<usize> { let p = self.lit(p, "#")?; let p = self.many(p, |c| c != '\n'); Some(self.many(p, |c| c == '\n' || c == '\r')) }
    fn ident(&mut self, p: usize) -> R<String> {
        let t = &self.t[p..];
        let n = t.chars().take_while(|c| c.is_ascii_alphanumeric() || *c == '_').count();
        let w = &t[..n];
        if w.is_empty() || w.starts_with(|c: char| c.is_ascii_digit()) || builtin(w) || w == "enum" || w == "struct" { None } else { Some((w.to_string(), p + n)) }
    }
    fn opt(&mut self, p: usize, s: &str) -> (bool, usize) { match self.lit(p, s) { Some(q) => (true, q), None => (false, p) } }
    fn enum_type(&mut self, p: usize) -> R<Ty> {
        let p = self.sp(p); let p = self.lit(p, "enum")?; let p = self.sp(p); let p = self.lit(p, "{")?; let mut p = self.gap(p);
        let mut v = Vec::new();
        while let Some((i, q)) = self.ident(p) { v.push(i); p = self.gap(q); p = self.opt(p, ",").1; p = self.gap(p); }
        p = self.gap(p);
        let p = self.lit(p, "}")?;
        Some((Ty::Enum(v), p))
    }
    fn field(&mut self, p: usize) -> R<Option<Field>> {
        if let Some(q) = self.comment(p) { let q = self.gap(q); return Some((None, q)); }
        let (name, p) = self.ident(p)?; let p = self.sp(p); let (optional, p) = self.opt(p, "?"); let p = self.lit(p, ":")?; let p = self.sp(p);
        let (ty, p) = self.word(p); let (array, p) = self.opt(p, "[]"); let p = self.gap(p); let p = self.opt(p, ",").1; let p = self.gap(p);
        Some((Some(Field { name, ty, array, optional }), p))
    }
    fn struct_type(&mut self, p: usize) -> R<Ty> {
        let p = self.sp(p); let p = self.lit(p, "struct")?; let p = self.sp(p); let p = self.lit(p, "{")?; let mut p = self.gap(p);
        let mut v = Vec::new();
        while let Some((f, q)) = self.field(p) { if let Some(f) = f { v.push(f); } p = q; }
        p = self.gap(p);
        let p = self.lit(p, "}")?;
        Some((Ty::Struct(v), p))
    }
    fn decl(&mut self, p: usize) -> R<Item> {
        let p = self.sp(p); let (n, p) = self.ident(p)?; let p = self.sp(p); let p = self.lit(p, ":")?; let p = self.sp(p);
        let (t, p) = match self.enum_type(p) { Some(x) => x, None => self.struct_type(p)? };
        let p = self.gap(p);
        Some((Item::Decl(n, t), p))
    }
    fn export(&mut self, p: usize) -> R<Item> {
        let p = self.lit(p, "export")?;
        self.quiet += 1; let more = self.class(p, |c| c.is_ascii_alphanumeric() || c == '_'); self.quiet -= 1;
        if more.is_some() { return None; }
        let p = self.sp(p); let (n, p) = self.word(p);
        Some((Item::Export(n), p))
    }
    fn line(&mut self, p: usize) -> R<Option<Item>> {
        let q = self.sp(p);
        if let Some(q) = self.comment(q) { let q = self.gap(q); return Some((None, q)); }
        let q = self.sp(p);
        if let Some((e, q)) = self.export(q) { let q = self.gap(q); return Some((Some(e), q)); }
        let q = self.sp(p);
        if let Some((d, q)) = self.decl(q) { let q = self.gap(q); return Some((Some(d), q)); }
        None
    }
}
/// the schema written in t, or the byte position of the first thing that cannot belong to one
pub fn parse(t: &str) -> Result<Schema, usize> {
    let mut g = P { t, far: 0, quiet: 0 };
    let mut p = g.gap(0);
    let mut out = Vec::new();
    while let Some((i, q)) = g.line(p) { if let Some(i) = i { out.push(i); } if q == p { break; } p = q; }
    if p == t.len() { Ok(out) } else { g.fail(p); Err(g.far) }
}
/// line and column, both from 1, of a byte position
pub fn line_col(t: &str, p: usize) -> (usize, usize) {
    let before = &t[..p];
    let line = before.matches('\n').count() + 1;
    let col = before.rsplit('\n').next().unwrap_or("").chars().count() + 1;
    (line, col)
}
