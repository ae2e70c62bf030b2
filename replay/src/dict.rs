//! Words and numbers that occur as literals in the compiler's own source. Names are spelled with
//! them and sizes are chosen around them, so that a special case for one of them is run.
use crate::model::{builtin, Rng};

#[derive(Default)]
pub struct Dict { pub words: Vec<String>, pub chars: Vec<char>, pub sizes: Vec<usize>, /// literals the unchanged source does not have
    pub new_words: Vec<String>, pub new_sizes: Vec<usize> }

/// the literals outside comments and test modules
fn literals(text: &str, words: &mut Vec<String>, chars: &mut Vec<char>, nums: &mut Vec<u64>) {
    let text = text.split("#[cfg(test)]").next().unwrap_or("");
    let v: Vec<char> = text.chars().collect();
    let mut i = 0;
    while i < v.len() {
        let c = v[i];
        if c == '/' && v.get(i + 1) == Some(&'/') { while i < v.len() && v[i] != '\n' { i += 1; } continue; }
        if c == '/' && v.get(i + 1) == Some(&'*') { i += 2; while i + 1 < v.len() && !(v[i] == '*' && v[i + 1] == '/') { i += 1; } i += 2; continue; }
        if c == '"' {
            let mut s = String::new();
            i += 1;
            while i < v.len() && v[i] != '"' {
                if v[i] == '\\' { i += 1; match v.get(i) { Some('n') => s.push('\n'), Some('t') => s.push('\t'), Some('r') => s.push('\r'), Some('0') => s.push('\0'), Some(&x) => s.push(x), None => {} } } else { s.push(v[i]); }
                i += 1;
            }
            i += 1;
            words.push(s);
            continue;
        }
        if c == '\'' {
            let (x, n) = match (v.get(i + 1), v.get(i + 2)) { (Some('\\'), Some('u')) => { let mut j = i + 4; let mut h = 0; while let Some(d) = v.get(j).and_then(|c| c.to_digit(16)) { h = h * 16 + d; j += 1; } (char::from_u32(h), j + 2 - i) } (Some('\\'), Some(&e)) => (Some(match e { 'n' => '\n', 't' => '\t', 'r' => '\r', '0' => '\0', x => x }), 4), (Some(&x), Some('\'')) => (Some(x), 3), _ => (None, 1) };
            if let Some(x) = x { chars.push(x); }
            i += n;
            continue;
        }
        if c.is_ascii_digit() && (i == 0 || !(v[i - 1].is_alphanumeric() || v[i - 1] == '_')) {
            let mut t = String::new();
            while i < v.len() && (v[i].is_ascii_alphanumeric() || v[i] == '_') { t.push(v[i]); i += 1; }
            let t = t.replace('_', "");
            let (t, radix) = if let Some(x) = t.strip_prefix("0x") { (x.to_string(), 16) } else if let Some(x) = t.strip_prefix("0b") { (x.to_string(), 2) } else { (t, 10) };
            let d: String = t.chars().take_while(|c| c.is_digit(radix)).collect();
            if let Ok(n) = u64::from_str_radix(&d, radix) { nums.push(n); if n < 32 { nums.push(1 << n); } }
            continue;
        }
        i += 1;
    }
}
fn files(dir: &std::path::Path, out: &mut String) {
    let mut v: Vec<_> = match std::fs::read_dir(dir) { Ok(d) => d.flatten().map(|e| e.path()).collect(), Err(_) => return };
    v.sort();
    for p in v { if p.is_dir() { files(&p, out); } else if p.extension().map_or(false, |e| e == "rs") { if let Ok(t) = std::fs::read_to_string(&p) { out.push_str(&t.replace("\r\n", "\n").split("#[cfg(test)]").next().unwrap_or("")); out.push('\n'); } } }
}
fn idents(s: &str) -> Vec<String> {
    s.split(|c: char| !(c.is_ascii_alphanumeric() || c == '_')).filter(|w| !w.is_empty() && w.len() < 40).map(|w| if w.starts_with(|c: char| c.is_ascii_digit()) { format!("_{}", w) } else { w.to_string() }).collect()
}
/// not a schema name, or one of the names listed in KNOWN_FINDINGS.txt
pub fn forbidden(n: &str) -> bool {
    const W: [&str; 90] = ["output", "reader", "writer", "data", "buffer", "write", "enum", "struct", "export", "name", "length", "prototype", "caller", "arguments", "__proto__", "constructor", "Reader", "Writer", "Object", "Array", "ArrayBuffer", "number", "any", "boolean", "undefined", "null", "true", "false", "this", "break", "case", "catch", "class", "const", "continue", "debugger", "default", "delete", "do", "else", "extends", "finally", "for", "function", "if", "import", "in", "instanceof", "new", "return", "super", "switch", "throw", "try", "typeof", "var", "void", "while", "with", "yield", "let", "static", "implements", "interface", "package", "private", "protected", "public", "await", "async", "of", "object", "symbol", "bigint", "never", "unknown", "eval", "NaN", "Infinity", "globalThis", "require", "exports", "module", "as", "type", "namespace", "abstract", "declare", "hasOwnProperty", "toString"];
    n.is_empty() || n.starts_with(|c: char| c.is_ascii_digit()) || builtin(n) || W.contains(&n)
}
impl Dict {
    /// reads the source below PKTR_SRC; `base` lists the literals of the unchanged source
    pub fn load() -> Dict {
        let mut text = String::new();
        if let Ok(d) = std::env::var("PKTR_SRC") { files(std::path::Path::new(&d), &mut text); }
        let (mut w, mut c, mut n) = (Vec::new(), Vec::new(), Vec::new());
        literals(&text, &mut w, &mut c, &mut n);
        let mut words: Vec<String> = w.iter().flat_map(|s| idents(s)).collect();
        words.sort(); words.dedup();
        for s in &w { c.extend(s.chars().filter(|c| !c.is_ascii_alphanumeric())); }
        c.sort(); c.dedup();
        n.sort(); n.dedup();
        let base = include_str!("../literals.txt");
        let old: std::collections::HashSet<&str> = base.lines().collect();
        let around = |n: &u64| { let n = *n as usize; vec![n.wrapping_sub(1), n, n.wrapping_add(1), n.wrapping_mul(2)] };
        let new_words = words.iter().filter(|w| !old.contains(w.as_str())).cloned().collect();
        let new_sizes = n.iter().filter(|n| !old.contains(n.to_string().as_str())).flat_map(around).filter(|n| *n < 20000).collect();
        Dict { words, chars: c, sizes: n.iter().flat_map(around).filter(|n| *n < 20000).collect(), new_words, new_sizes }
    }
    pub fn list() {
        let d = Dict::load();
        for w in &d.words { println!("{}", w); }
        let mut text = String::new();
        files(std::path::Path::new(&std::env::var("PKTR_SRC").unwrap_or_default()), &mut text);
        let (mut w, mut c, mut n) = (Vec::new(), Vec::new(), Vec::new());
        literals(&text, &mut w, &mut c, &mut n);
        n.sort(); n.dedup();
        for x in n { println!("{}", x); }
    }
    /// an identifier spelled with a word of the source
    pub fn name(&self, r: &mut Rng) -> Option<String> {
        let pool = if !self.new_words.is_empty() && r.chance(60) { &self.new_words } else { &self.words };
        if pool.is_empty() { return None; }
        let w = r.pick(pool).clone();
        let s = match r.below(8) { 0 | 1 | 2 => w, 3 => format!("{}x", w), 4 => format!("x{}", w), 5 => w.to_uppercase(), 6 => w.to_lowercase(), _ => format!("{}_{}", w, r.pick(pool)) };
        if forbidden(&s) { None } else { Some(s) }
    }
    /// a size: around a number of the source, or from a fixed ladder
    pub fn size(&self, r: &mut Rng, max: usize) -> usize {
        const LADDER: [usize; 26] = [10, 16, 17, 31, 32, 33, 40, 50, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 300, 512, 1000, 1024, 1025];
        for _ in 0..8 {
            let n = if !self.new_sizes.is_empty() && r.chance(60) { *r.pick(&self.new_sizes) } else if !self.sizes.is_empty() && r.chance(30) { *r.pick(&self.sizes) } else { *r.pick(&LADDER) };
            if n <= max { return n; }
        }
        7.min(max)
    }
}
