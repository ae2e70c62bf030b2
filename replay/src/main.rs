//! Runs the real compiler on concrete schemas and compares with the model.
//!
//!   pktr search PROP SEED N DIR   looks for an input that breaks PROP
//!   pktr emit SEED N              prints accepted schemas and their code, one JSON object per line
//!   pktr show FILE                compiles one text
//!   pktr replay PROP FILE         re-runs a saved input
mod dict;
mod grammar;
#[cfg(feature = "internals")]
mod internals;
mod model;

use std::collections::HashSet;
use std::panic::{catch_unwind, AssertUnwindSafe};

use model::*;

pub enum Out { Code(String), Parse(String), Check(String), Panic(String) }

pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|e| e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_else(|| "panic".into()))
}
pub fn compile(t: &str) -> Out {
    match guard(|| packetc_lib::compile::<packetc_lib::gen::ts::TypeScript>(t)) {
        Err(p) => Out::Panic(p),
        Ok(Ok(c)) => Out::Code(c),
        Ok(Err(e)) => {
            let m = e.to_string();
            match e {
                packetc_lib::Error::Parse(_) => Out::Parse(m),
                packetc_lib::Error::Check(_) => Out::Check(m),
            }
        }
    }
}
fn strip<'a>(m: &'a str, p: &str) -> &'a str { m.strip_prefix(p).unwrap_or(m) }
pub const CHECK_PREFIX: &str = "One or more type errors:\n";
pub const PARSE_PREFIX: &str = "Parsing failed with:\n";

/// the generated text without its first line, which holds the time
fn body(c: &str) -> &str { c.splitn(2, '\n').nth(1).unwrap_or("") }
fn sorted_lines(c: &str) -> Vec<&str> { let mut v: Vec<&str> = body(c).lines().collect(); v.sort_unstable(); v }

/// what is wrong with the outcome of text t as far as prop is concerned
fn judge(prop: &str, t: &str) -> Option<String> {
    let want = grammar::parse(t);
    match prop {
        "C01" | "C02" | "C03" => {
            let s = match &want { Ok(s) => s, Err(_) => return None };
            let f = faults(s);
            for _ in 0..2 {
                match (prop, compile(t)) {
                    ("C01", Out::Code(_)) if !f.is_empty() => return Some(format!("accepted although: {}", f.join("; "))),
                    ("C02", Out::Check(m)) if f.is_empty() => return Some(format!("a schema that obeys every rule was rejected: {}", strip(&m, CHECK_PREFIX))),
                    ("C02", Out::Panic(m)) => return Some(format!("panic: {}", m)),
                    ("C03", Out::Check(m)) if !f.iter().any(|x| x == strip(&m, CHECK_PREFIX)) => return Some(format!("rejected with {:?}, but what is wrong is: [{}]", strip(&m, CHECK_PREFIX), f.join("; "))),
                    _ => {}
                }
            }
            None
        }
        "C13" => {
            let (m, at) = match (compile(t), &want) { (Out::Parse(m), Err(at)) => (m, *at), (Out::Panic(m), _) => return Some(format!("panic: {}", m)), _ => return None };
            let m = strip(&m, PARSE_PREFIX);
            let (line, col) = grammar::line_col(t, at);
            let ch = t[at..].chars().next().unwrap_or('\0');
            let text = t.split('\n').nth(line - 1).unwrap_or("\0");
            let want = format!("\nUnexpected token '{}' at line {}, column {}\n|\n|  {}\n|~~{}^\n", ch, line, col, text, "~".repeat(col - 1));
            if m == want { None } else { Some(format!("report is {:?}, expected {:?}", m, want)) }
        }
        "C16" => {
            let out = compile(t);
            let f = want.as_ref().map(|s| faults(s));
            match (&out, &f) {
                (Out::Panic(m), _) => return Some(format!("panic: {}", m)),
                (Out::Parse(_), Ok(_)) => return Some("a text in the format gave a parse error".into()),
                (Out::Code(_), Err(_)) | (Out::Check(_), Err(_)) => return Some("a text outside the format was parsed".into()),
                (Out::Code(_), Ok(f)) if !f.is_empty() => return Some(format!("gave code although: {}", f.join("; "))),
                (Out::Check(m), Ok(f)) if f.is_empty() => return Some(format!("gave a type error although nothing is wrong: {}", m)),
                _ => {}
            }
            match (&out, compile(t)) {
                (Out::Code(a), Out::Code(b)) => if sorted_lines(a) != sorted_lines(&b) { return Some("two runs gave different code".into()) },
                (Out::Parse(a), Out::Parse(b)) => if *a != b { return Some("two runs gave different parse errors".into()) },
                (Out::Check(_), Out::Check(_)) => {}
                _ => return Some("two runs gave different kinds of result".into()),
            }
            None
        }
        "C11" | "C12" => {
            match (compile(t), &want) {
                (Out::Parse(m), Ok(_)) => return Some(format!("a text in the format gave a parse error: {}", m)),
                (Out::Code(_), Err(at)) | (Out::Check(_), Err(at)) => return Some(format!("a text outside the format was accepted by the parser (it goes wrong at byte {})", at)),
                (Out::Code(c), Ok(s)) => {
                    // the same schema in the plainest layout must give the same code
                    let plain = print(&mut Rng(1), s, &Layout { plain: true });
                    if let Out::Code(d) = compile(&plain) { if sorted_lines(&c) != sorted_lines(&d) { return Some(format!("the layout changes the result; plain layout: {:?}", plain)) } }
                }
                _ => {}
            }
            None
        }
        _ => None,
    }
}

fn text_for(prop: &str, r: &mut Rng, k: usize) -> String {
    let t = plain_text_for(prop, r, k);
    let t = if matches!(prop, "C11" | "C12" | "C13" | "C16") && due(r, 150) { stretch(r, &t) } else { t };
    if prop == "C13" && due(r, 300) { format!("{}{}", "\n".repeat(dict().size(r, 6000)), corrupt(r, &t)) } else { t }
}
fn plain_text_for(prop: &str, r: &mut Rng, k: usize) -> String {
    let plain = Layout { plain: false };
    match prop {
        "C01" | "C02" | "C03" => { let s = any(r); let l = Layout { plain: r.chance(70) }; print(r, &s, &l) }
        "C11" => { let s = if due(r, 300) { sized(r, 500, true) } else if r.chance(70) { valid(r, true) } else { any(r) }; print(r, &s, &plain) }
        "C12" => { let s = if r.chance(50) { valid(r, false) } else { any(r) }; let l = Layout { plain: r.chance(50) }; let t = print(r, &s, &l); if k % 4 == 0 { words(r) } else { corrupt(r, &t) } }
        "C13" => { let s = valid(r, false); let l = Layout { plain: r.chance(50) }; let t = print(r, &s, &l); if k % 50 == 0 { words(r) } else if k % 8 == 1 { cut_in_comment(r, &t) } else { corrupt(r, &t) } }
        _ => match k % 3 { 0 => { let s = any(r); print(r, &s, &plain) } 1 => words(r), _ => { let s = any(r); let t = print(r, &s, &plain); corrupt(r, &t) } },
    }
}
/// short texts made of tokens, mostly nonsense; also every name next to the reserved words
fn words(r: &mut Rng) -> String {
    const W: [&str; 30] = ["export", "struct", "enum", "{", "}", ":", ",", "?", "[]", "#", "\n", " ", "uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string", "A", "b", "9", "_", "\u{e9}", "\r\n", "\t", "?:", "x", "-"];
    if r.chance(50) {
        // a declaration, field or variant with a name around a reserved word
        const K: [&str; 11] = ["uint8", "uint16", "uint32", "int8", "int16", "int32", "float", "string", "enum", "struct", "export"];
        let k = *r.pick(&K);
        let n = match r.below(9) { 0 => k.to_string(), 1 => format!("{}{}", k, r.pick(&["a", "_", "1", "A", "Z", "z", "0", "9"])), 2 => format!("{}{}", r.pick(&["a", "_", "A", "9"]), k), 3 => k[..k.len() - 1].to_string(), 4 => format!("{}{}", k, r.pick(&K)), 5 => k.to_uppercase(), 6 => format!("{}-", k), 7 => format!("{}\u{e9}", k), _ => format!("{}{}", r.below(10), k) };
        return match r.below(4) { 0 => format!("{}: struct {{ }}\nexport {}", n, n), 1 => format!("T: struct {{ {}: uint8 }}\nexport T", n), 2 => format!("E: enum {{ {} }}\nT: struct {{ e: E }}\nexport T", n), _ => format!("T: struct {{ {}?: uint8, b: uint8 }}\nexport T\n{}: enum {{ A }}", n, n) };
    }
    (0..r.below(9)).map(|_| *r.pick(&W)).collect::<Vec<_>>().join(if r.chance(50) { " " } else { "" })
}

fn report(n: usize, distinct: usize, samples: &[String], violation: Option<(&str, &str)>) {
    let v = match violation { Some((why, file)) => format!("{{\"why\":{},\"replay\":{}}}", js(why), js(file)), None => "null".into() };
    println!("{{\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"violation\":{}}}", n, distinct, samples.iter().map(|s| js(s)).collect::<Vec<_>>().join(","), v);
}
/// smaller texts that still fail
fn shrink(prop: &str, t: &str) -> String {
    let mut t = t.to_string();
    let mut step = (t.chars().count() / 2).max(1);
    let mut budget = 4000;
    let start = std::time::Instant::now();
    loop {
        let v: Vec<char> = t.chars().collect();
        let mut i = 0; let mut changed = false;
        while i < v.len() && budget > 0 && start.elapsed().as_secs() <= 15 {
            let c: String = v[..i].iter().chain(v[(i + step).min(v.len())..].iter()).collect();
            budget -= 1;
            if c.len() < t.len() && judge(prop, &c).is_some() && judge(prop, &c).is_some() { t = c; changed = true; break; }
            i += step;
        }
        if budget == 0 || start.elapsed().as_secs() > 15 { return t; }
        if !changed { if step == 1 { return t; } step = (step / 2).max(1); }
    }
}
fn search(prop: &str, seed: u64, n: usize, dir: &str) -> i32 {
    let mut r = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ prop.bytes().fold(7u64, |a, b| a.wrapping_mul(131).wrapping_add(b as u64)));
    let mut seen = HashSet::new();
    let mut samples = Vec::new();
    // the text at hand is saved first when an earlier run died or did not end
    let trace = std::env::var("PKTR_TRACE").is_ok();
    for k in 0..n {
        let t = text_for(prop, &mut r, k);
        if trace { std::fs::write(format!("{}/{}-{}.pkt", dir, prop, seed), &t).unwrap(); }
        if seen.insert(t.clone()) && samples.len() < 3 && k > 5 { samples.push(t.clone()); }
        let mut why = judge(prop, &t).map(|w| (w, t.clone()));
        #[cfg(feature = "internals")]
        if why.is_none() { why = internals::judge(prop, &mut r).or_else(|| internals::judge_text(prop, &t)).map(|(w, t)| (w, t)); }
        if let Some((_, t)) = why.take() {
            let small = if judge(prop, &t).is_some() { shrink(prop, &t) } else { t };
            let w = judge(prop, &small);
            #[cfg(feature = "internals")]
            let w = w.or_else(|| internals::judge_text(prop, &small).map(|x| x.0));
            let w = w.unwrap_or_else(|| "fails on some runs only".into());
            let f = format!("{}/{}-{}.pkt", dir, prop, seed);
            std::fs::write(&f, &small).unwrap();
            report(k + 1, seen.len(), &samples, Some((&w, &f)));
            return 1;
        }
    }
    report(n, seen.len(), &samples, None);
    0
}
fn emit(seed: u64, n: usize) {
    let mut r = Rng(seed.wrapping_mul(0xD1342543DE82EF95) ^ 77);
    let trace = std::env::var("PKTR_TRACE").ok();
    for k in 0..n {
        let big = k % 3 == 0;
        let s = if due(&mut r, 60) { sized(&mut r, 300, true) } else { valid(&mut r, big) };
        let t = print(&mut r, &s, &Layout { plain: true });
        if let Some(f) = &trace { std::fs::write(f, &t).unwrap(); }
        let (kind, code) = match compile(&t) { Out::Code(c) => ("code", c), Out::Parse(m) => ("parse", m), Out::Check(m) => ("check", m), Out::Panic(m) => ("panic", m) };
        println!("{{\"schema\":{},\"text\":{},\"kind\":\"{}\",\"code\":{}}}", schema_json(&s), js(&t), kind, js(&code));
    }
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|_| {}));
    let arg = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match arg(1) {
        "search" => search(arg(2), arg(3).parse().unwrap(), arg(4).parse().unwrap(), arg(5)),
        "emit" => { emit(arg(2).parse().unwrap(), arg(3).parse().unwrap()); 0 }
        "literals" => { dict::Dict::list(); 0 }
        "show" => { let t = std::fs::read_to_string(arg(2)).unwrap(); match compile(&t) { Out::Code(c) => { print!("{}", c); 0 } Out::Parse(m) | Out::Check(m) => { eprintln!("{}", m); 1 } Out::Panic(m) => { eprintln!("panic: {}", m); 2 } } }
        "json" => {
            let t = std::fs::read_to_string(arg(2)).unwrap();
            let s = grammar::parse(&t).unwrap_or_default();
            let (kind, code) = match compile(&t) { Out::Code(c) => ("code", c), Out::Parse(m) => ("parse", m), Out::Check(m) => ("check", m), Out::Panic(m) => ("panic", m) };
            println!("{{\"schema\":{},\"text\":{},\"kind\":\"{}\",\"code\":{}}}", schema_json(&s), js(&t), kind, js(&code));
            0
        }
        "replay" => {
            let t = std::fs::read_to_string(arg(3)).unwrap();
            let w = judge(arg(2), &t);
            #[cfg(feature = "internals")]
            let w = w.or_else(|| internals::judge_text(arg(2), &t).map(|x| x.0));
            match w { Some(w) => { println!("{}", w); 1 } None => { println!("ok"); 0 } }
        }
        _ => { eprintln!("usage: pktr search|emit|show|json|replay"); 2 }
    };
    std::process::exit(code);
}
