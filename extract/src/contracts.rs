//! Reader for the contract files: plain text with `//@` directives.
use std::collections::HashMap;

#[derive(Default, Clone, Debug)]
pub struct FnContract {
    pub ret: Option<String>,
    pub attrs: String,
    pub spec: String,
    pub entry: String,
    pub ghost_params: String,
    pub loops: HashMap<usize, String>,
    pub loop_start: HashMap<usize, String>,
    pub loop_end: HashMap<usize, String>,
    pub loop_after: HashMap<usize, String>,
    /// callee -> ghost argument text appended to calls of it
    pub calls: HashMap<String, String>,
    /// closure ordinal -> (signature + spec text)
    pub closures: HashMap<usize, String>,
    /// proof text placed just before the tail expression / at the end
    pub exit: String,
    pub external: bool,
    /// types of what a closure captures, when it becomes a function
    pub lift: String,
    /// properties every untagged obligation of the function counts for
    pub props: Vec<String>,
    /// (callee, ordinal) -> proof text after / before the statement with that call
    pub after: HashMap<(String, usize), String>,
    pub before: HashMap<(String, usize), String>,
    /// ordinal -> proof text before that `return`
    pub returns: HashMap<usize, String>,
}

#[derive(Default, Debug)]
pub struct Contracts {
    pub fns: HashMap<String, FnContract>,
    /// raw Verus text per section name
    pub raw: Vec<(String, String)>,
}

pub fn parse(text: &str, into: &mut Contracts) -> Result<(), String> {
    enum Sect {
        None,
        Raw(usize),
        Spec,
        Attr,
        Entry,
        Exit,
        Loop(usize),
        LoopStart(usize),
        LoopEnd(usize),
        LoopAfter(usize),
        Closure(usize),
        After(String, usize),
        Before(String, usize),
        Return(usize),
    }
    let mut cur: Option<String> = None;
    let mut sect = Sect::None;
    for (ln, line) in text.lines().enumerate() {
        let t = line.trim();
        if let Some(d) = t.strip_prefix("//@") {
            let mut w = d.trim().splitn(2, ' ');
            let kw = w.next().unwrap_or("");
            let rest = w.next().unwrap_or("").trim();
            let num = || rest.parse::<usize>().map_err(|_| format!("line {}: bad number '{}'", ln + 1, rest));
            match kw {
                "raw" => {
                    into.raw.push((rest.to_string(), String::new()));
                    sect = Sect::Raw(into.raw.len() - 1);
                    cur = None;
                }
                "fn" => {
                    let (name, ret) = match rest.split_once("->") {
                        Some((n, r)) => (n.trim().to_string(), Some(r.trim().to_string())),
                        None => (rest.to_string(), None),
                    };
                    let c = into.fns.entry(name.clone()).or_default();
                    c.ret = ret;
                    cur = Some(name);
                    sect = Sect::Spec;
                }
                _ => {
                    let name = cur.clone().ok_or_else(|| format!("line {}: directive outside fn", ln + 1))?;
                    let c = into.fns.get_mut(&name).unwrap();
                    match kw {
                        "attr" => {
                            c.attrs.push_str(rest);
                            c.attrs.push('\n');
                            sect = Sect::Attr
                        }
                        "external" => c.external = true,
                        "lift" => c.lift = rest.to_string(),
                        "ghost" => c.ghost_params = rest.to_string(),
                        "spec" => sect = Sect::Spec,
                        "entry" => sect = Sect::Entry,
                        "exit" => sect = Sect::Exit,
                        "loop" => {
                            c.loops.entry(num()?).or_default();
                            sect = Sect::Loop(num()?)
                        }
                        "loopstart" => sect = Sect::LoopStart(num()?),
                        "loopend" => sect = Sect::LoopEnd(num()?),
                        "loopafter" => sect = Sect::LoopAfter(num()?),
                        "prop" => c.props.extend(rest.split_whitespace().map(|s| s.to_string())),
                        "return" => sect = Sect::Return(num()?),
                        "after" | "before" => {
                            let (n, k) = rest.split_once(' ').unwrap_or((rest, "1"));
                            let k = k.trim().parse::<usize>().map_err(|_| format!("line {}: bad number '{}'", ln + 1, k))?;
                            sect = if kw == "after" { Sect::After(n.to_string(), k) } else { Sect::Before(n.to_string(), k) };
                        }
                        "closure" => sect = Sect::Closure(num()?),
                        "call" => {
                            let (callee, args) = rest
                                .split_once(' ')
                                .ok_or_else(|| format!("line {}: call needs args", ln + 1))?;
                            c.calls.insert(callee.to_string(), args.trim().to_string());
                        }
                        _ => return Err(format!("line {}: unknown directive '{}'", ln + 1, kw)),
                    }
                }
            }
            continue;
        }
        let push = |s: &mut String| {
            s.push_str(line);
            s.push('\n');
        };
        match (&sect, &cur) {
            (Sect::Raw(i), _) => push(&mut into.raw[*i].1),
            (Sect::None, _) => (),
            (_, None) => (),
            (s, Some(name)) => {
                let c = into.fns.get_mut(name).unwrap();
                match s {
                    Sect::Spec => push(&mut c.spec),
                    Sect::Attr => push(&mut c.attrs),
                    Sect::Entry => push(&mut c.entry),
                    Sect::Exit => push(&mut c.exit),
                    Sect::Loop(n) => push(c.loops.entry(*n).or_default()),
                    Sect::LoopStart(n) => push(c.loop_start.entry(*n).or_default()),
                    Sect::LoopEnd(n) => push(c.loop_end.entry(*n).or_default()),
                    Sect::LoopAfter(n) => push(c.loop_after.entry(*n).or_default()),
                    Sect::Closure(n) => push(c.closures.entry(*n).or_default()),
                    Sect::After(n, k) => push(c.after.entry((n.clone(), *k)).or_default()),
                    Sect::Before(n, k) => push(c.before.entry((n.clone(), *k)).or_default()),
                    Sect::Return(n) => push(c.returns.entry(*n).or_default()),
                    Sect::None | Sect::Raw(_) => unreachable!(),
                }
            }
        }
    }
    Ok(())
}
