//! Format-string handling: splitting `"a {x} b"` into pieces.
use syn::parse::{Parse, ParseStream};
use syn::punctuated::Punctuated;
use syn::{Expr, Ident, LitStr, Token};

#[derive(Debug, Clone)]
pub enum Piece {
    Lit(String),
    Arg(Expr),
}

pub struct FmtArgs {
    pub fmt: LitStr,
    pub args: Vec<(Option<Ident>, Expr)>,
}
impl Parse for FmtArgs {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let fmt: LitStr = input.parse()?;
        let mut args = Vec::new();
        while !input.is_empty() {
            input.parse::<Token![,]>()?;
            if input.is_empty() {
                break;
            }
            if input.peek(Ident) && input.peek2(Token![=]) && !input.peek2(Token![==]) {
                let id: Ident = input.parse()?;
                input.parse::<Token![=]>()?;
                args.push((Some(id), input.parse()?));
            } else {
                args.push((None, input.parse()?));
            }
        }
        Ok(FmtArgs { fmt, args })
    }
}
/// `dst, "fmt", args...`
pub struct DstFmt {
    pub dst: Expr,
    pub fmt: FmtArgs,
}
impl Parse for DstFmt {
    fn parse(input: ParseStream) -> syn::Result<Self> {
        let dst: Expr = input.parse()?;
        input.parse::<Token![,]>()?;
        Ok(DstFmt { dst, fmt: input.parse()? })
    }
}
pub struct ExprList(pub Punctuated<Expr, Token![,]>);
impl Parse for ExprList {
    fn parse(input: ParseStream) -> syn::Result<Self> { Ok(ExprList(Punctuated::parse_terminated(input)?)) }
}

pub fn pieces(f: &FmtArgs) -> Result<Vec<Piece>, String> {
    let s: Vec<char> = f.fmt.value().chars().collect();
    let mut out = Vec::new();
    let mut lit = String::new();
    let mut i = 0;
    let mut pos = 0;
    while i < s.len() {
        match s[i] {
            '{' if s.get(i + 1) == Some(&'{') => {
                lit.push('{');
                i += 2;
            }
            '}' if s.get(i + 1) == Some(&'}') => {
                lit.push('}');
                i += 2;
            }
            '{' => {
                let mut j = i + 1;
                while j < s.len() && s[j] != '}' {
                    j += 1;
                }
                if j >= s.len() {
                    return Err("unterminated format argument".into());
                }
                let body: String = s[i + 1..j].iter().collect();
                i = j + 1;
                let (name, spec) = match body.split_once(':') {
                    Some((n, sp)) if !n.contains("::") && !sp.starts_with(':') => (n.trim().to_string(), sp.to_string()),
                    _ => (body.trim().to_string(), String::new()),
                };
                if !spec.is_empty() {
                    return Err(format!("format specification '{{{}}}' is not supported", body));
                }
                let e: Expr = if name.is_empty() {
                    let mut k = 0;
                    let mut found = None;
                    for (id, e) in &f.args {
                        if id.is_none() {
                            if k == pos {
                                found = Some(e.clone());
                                break;
                            }
                            k += 1;
                        }
                    }
                    pos += 1;
                    found.ok_or("missing format argument")?
                } else if let Ok(n) = name.parse::<usize>() {
                    f.args.get(n).ok_or("missing format argument")?.1.clone()
                } else if let Some((_, e)) = f.args.iter().find(|(id, _)| id.as_ref().map_or(false, |i| *i == name)) {
                    e.clone()
                } else {
                    syn::parse_str(&name).map_err(|e| e.to_string())?
                };
                match &e {
                    // a literal is part of the text
                    Expr::Lit(syn::ExprLit { lit: syn::Lit::Int(n), .. }) => lit.push_str(n.base10_digits()),
                    Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(t), .. }) => lit.push_str(&t.value()),
                    _ => {
                        if !lit.is_empty() {
                            out.push(Piece::Lit(std::mem::take(&mut lit)));
                        }
                        out.push(Piece::Arg(e));
                    }
                }
            }
            c => {
                lit.push(c);
                i += 1;
            }
        }
    }
    if !lit.is_empty() {
        out.push(Piece::Lit(lit));
    }
    Ok(out)
}

/// Cuts text into tokens: words, and every other character by itself.
pub fn split(l: &str) -> Vec<String> {
    let mut out: Vec<String> = Vec::new();
    let mut word = false;
    for c in l.chars() {
        let w = c.is_alphanumeric() || c == '_';
        if w && word {
            out.last_mut().unwrap().push(c);
        } else {
            out.push(c.to_string());
        }
        word = w;
    }
    out
}

/// Canonical pieces of emitted text: adjacent literals joined, then cut into tokens.
pub fn canon(ps: &[Piece]) -> Vec<Piece> {
    let mut joined: Vec<Piece> = Vec::new();
    for p in ps {
        let lit = match p {
            Piece::Arg(Expr::Lit(syn::ExprLit { lit: syn::Lit::Str(s), .. })) => Some(s.value()),
            Piece::Arg(_) => None,
            Piece::Lit(l) => Some(l.clone()),
        };
        match (lit, joined.last_mut()) {
            (Some(l), Some(Piece::Lit(k))) => k.push_str(&l),
            (Some(l), _) => joined.push(Piece::Lit(l)),
            (None, _) => joined.push(p.clone()),
        }
    }
    let mut out = Vec::new();
    for p in joined {
        match p {
            Piece::Lit(l) => out.extend(split(&l).into_iter().map(Piece::Lit)),
            a => out.push(a),
        }
    }
    out
}

/// `emit!(ACC, "text {expr} text")` in contract text: ACC followed by the tokens of
/// the text, appended one by one as the code does it.
pub fn expand_emit(t: &str) -> Result<String, String> {
    let mut out = String::new();
    let mut rest = t;
    while let Some(i) = rest.find("emit!(") {
        out.push_str(&rest[..i]);
        let body = &rest[i + 6..];
        let (mut depth, mut instr, mut esc) = (1, false, false);
        let (mut comma, mut end) = (None, None);
        for (j, c) in body.char_indices() {
            if instr {
                if esc {
                    esc = false
                } else if c == '\\' {
                    esc = true
                } else if c == '"' {
                    instr = false
                }
                continue;
            }
            match c {
                '"' => instr = true,
                '(' | '[' | '{' => depth += 1,
                ')' | ']' | '}' => {
                    depth -= 1;
                    if depth == 0 {
                        end = Some(j);
                        break;
                    }
                }
                ',' if depth == 1 => comma = Some(j),
                _ => (),
            }
        }
        let (comma, end) = match (comma, end) {
            (Some(c), Some(e)) => (c, e),
            _ => return Err("malformed emit!".into()),
        };
        let acc = expand_emit(body[..comma].trim())?;
        let lit: LitStr = syn::parse_str(body[comma + 1..end].trim()).map_err(|e| e.to_string())?;
        let s: Vec<char> = lit.value().chars().collect();
        let mut parts: Vec<(bool, String)> = Vec::new();
        let mut k = 0;
        let mut cur = String::new();
        while k < s.len() {
            if (s[k] == '{' || s[k] == '}') && s.get(k + 1) == Some(&s[k]) {
                cur.push(s[k]);
                k += 2;
            } else if s[k] == '{' {
                let mut j = k + 1;
                while j < s.len() && s[j] != '}' {
                    j += 1;
                }
                parts.extend(split(&cur).into_iter().map(|x| (true, x)));
                cur.clear();
                parts.push((false, s[k + 1..j].iter().collect()));
                k = j + 1;
            } else {
                cur.push(s[k]);
                k += 1;
            }
        }
        parts.extend(split(&cur).into_iter().map(|x| (true, x)));
        let mut e = acc;
        for (lit, x) in parts {
            e = if lit { format!("({} + {:?}@)", e, x) } else { format!("({} + {})", e, x.replace("TAB", "\"    \"@")) };
        }
        out.push_str(&e);
        rest = &body[end + 1..];
    }
    out.push_str(rest);
    Ok(out)
}
