//! Token printer: one statement per line, with raw-text markers expanded.
use proc_macro2::{Delimiter, Spacing, TokenStream, TokenTree};

pub struct Printer<'a> {
    pub raws: &'a [String],
    pub out: String,
    indent: usize,
}

impl<'a> Printer<'a> {
    pub fn new(raws: &'a [String]) -> Self { Printer { raws, out: String::new(), indent: 0 } }
    fn nl(&mut self) {
        while self.out.ends_with(' ') {
            self.out.pop();
        }
        if !self.out.ends_with('\n') {
            self.out.push('\n');
        }
        for _ in 0..self.indent {
            self.out.push_str("    ");
        }
    }
    pub fn raw(&mut self, id: usize) {
        let t = self.raws[id].clone();
        self.nl();
        self.out.push_str(t.trim_end());
        self.nl();
    }
    fn raw_inline(&mut self, id: usize) {
        let t = self.raws[id].clone();
        self.out.push_str(t.trim());
        self.out.push(' ');
    }
    /// recognises `__pktx_xxx ! ( N ) [;]` at position i; returns (kind, id, tokens consumed)
    fn marker(ts: &[TokenTree], i: usize) -> Option<(String, usize, usize)> {
        if let TokenTree::Ident(id) = &ts[i] {
            let s = id.to_string();
            if s.starts_with("__pktx_") && i + 2 < ts.len() {
                if let TokenTree::Group(g) = &ts[i + 2] {
                    let n: usize = g.stream().to_string().trim().parse().ok()?;
                    let mut used = 3;
                    if i + 3 < ts.len() {
                        if let TokenTree::Punct(p) = &ts[i + 3] {
                            if p.as_char() == ';' && s != "__pktx_expr" {
                                used = 4;
                            }
                        }
                    }
                    return Some((s, n, used));
                }
            }
        }
        None
    }
    pub fn print(&mut self, ts: TokenStream, in_brace: bool) {
        let ts: Vec<TokenTree> = ts.into_iter().collect();
        let mut i = 0;
        while i < ts.len() {
            if let Some((kind, n, used)) = Self::marker(&ts, i) {
                if kind == "__pktx_expr" {
                    self.raw_inline(n);
                } else {
                    self.raw(n);
                }
                i += used;
                continue;
            }
            // `__pktx_closure!(N { body })`: contract text, then the body
            if let TokenTree::Ident(id) = &ts[i] {
                if id == "__pktx_closure" {
                    if let Some(TokenTree::Group(g)) = ts.get(i + 2) {
                        let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                        let n: usize = inner[0].to_string().parse().unwrap();
                        self.raw_inline(n);
                        self.print(inner[1..].iter().cloned().collect(), false);
                        i += 3;
                        continue;
                    }
                }
            }
            match &ts[i] {
                TokenTree::Group(g) => {
                    let inner: Vec<TokenTree> = g.stream().into_iter().collect();
                    match g.delimiter() {
                        Delimiter::Brace => {
                            let mut start = 0;
                            if !inner.is_empty() {
                                if let Some((k, n, used)) = Self::marker(&inner, 0) {
                                    if k == "__pktx_inv" {
                                        self.raw(n);
                                        start = used;
                                    }
                                }
                            }
                            self.out.push('{');
                            self.indent += 1;
                            let rest: TokenStream = inner[start..].iter().cloned().collect();
                            if !rest.is_empty() {
                                self.nl();
                                self.print(rest, true);
                            }
                            self.indent -= 1;
                            if !inner.is_empty() {
                                self.nl();
                            }
                            self.out.push_str("} ");
                            // line break after a block unless an expression goes on
                            let brk = match ts.get(i + 1) {
                                Some(TokenTree::Ident(id)) => id != "else" && id != "as",
                                Some(TokenTree::Group(_)) => false,
                                Some(TokenTree::Punct(p)) => !matches!(p.as_char(), ',' | ';' | '.' | '?' | ')' | '='),
                                Some(_) => true,
                                None => false,
                            };
                            if brk && in_brace {
                                self.nl();
                            }
                        }
                        d => {
                            let (o, c) = match d {
                                Delimiter::Parenthesis => ("(", ")"),
                                Delimiter::Bracket => ("[", "]"),
                                _ => ("", ""),
                            };
                            self.out.push_str(o);
                            self.print(g.stream(), false);
                            while self.out.ends_with(' ') {
                                self.out.pop();
                            }
                            self.out.push_str(c);
                            self.out.push(' ');
                        }
                    }
                }
                TokenTree::Punct(p) => {
                    let c = p.as_char();
                    if matches!(c, ',' | ';' | '.' | '?') {
                        while self.out.ends_with(' ') {
                            self.out.pop();
                        }
                    }
                    self.out.push(c);
                    if c == ';' && in_brace || c == ',' && in_brace {
                        self.nl();
                    } else if c == '.' || p.spacing() == Spacing::Joint || c == '&' || c == '!' {
                        // `a != b` tokens are joint; a lone `!` or `&` prefixes
                        if c == '!' && false {
                            self.out.push(' ');
                        }
                    } else {
                        self.out.push(' ');
                    }
                }
                TokenTree::Ident(id) => {
                    self.out.push_str(&id.to_string());
                    // keep call parens tight
                    match ts.get(i + 1) {
                        Some(TokenTree::Group(g)) if g.delimiter() == Delimiter::Parenthesis => {
                            let s = id.to_string();
                            if matches!(s.as_str(), "if" | "while" | "match" | "in" | "return" | "for" | "let" | "else" | "mut") {
                                self.out.push(' ');
                            }
                        }
                        Some(TokenTree::Punct(p)) if p.as_char() == '.' => (),
                        _ => self.out.push(' '),
                    }
                }
                TokenTree::Literal(l) => {
                    self.out.push_str(&l.to_string());
                    self.out.push(' ');
                }
            }
            i += 1;
        }
    }
}
