//@raw cli.use
pub use self::sys::*;
//@raw cli
/// Assumed contracts of std::fs, std::path and the argument parser.  The file system is
/// the explicit value `World`: what was there when the program started (`fs`), what the
/// program has done to it since (`log`), and whether an operation has failed (`bad`).
/// Names of files are valid UTF-8, and nobody else changes the files meanwhile.
pub mod sys {
use vstd::prelude::*;
use crate::prelude::*;
pub enum Comp { Root, Cur, Up, Normal(Name) }
/// a path, component by component
pub type P = Seq<Comp>;
/// the components of a written path
pub uninterp spec fn comps_of(t: Name) -> P;
/// `/` and `.` occur at the beginning only (std drops the others)
pub open spec fn normed(p: P) -> bool { forall|i: int| 0 < i < p.len() ==> #[trigger] p[i] is Up || p[i] is Normal }
pub broadcast axiom fn ax_normed(t: Name) ensures normed(#[trigger] comps_of(t));

pub enum Eff { Mkdir(P), Write(P, Name) }
#[verifier::external_body]
pub struct Fs { x: u8 }
/// p is a directory (after following symbolic links)
pub uninterp spec fn is_dir(fs: Fs, p: P) -> bool;
/// there is something called n in directory p
pub uninterp spec fn entry(fs: Fs, p: P, n: Name) -> bool;
/// the text of file p
pub uninterp spec fn content(fs: Fs, p: P) -> Option<Name>;
/// directories nest finitely deep
pub uninterp spec fn depth(fs: Fs, p: P) -> nat;
pub broadcast axiom fn ax_depth(fs: Fs, p: P, n: Name)
    requires is_dir(fs, p), entry(fs, p, n),
    ensures #[trigger] depth(fs, p.push(Comp::Normal(n))) < depth(fs, p);
/// `/`, `.`, `..` and the empty path are not files with a text
pub broadcast axiom fn ax_text(fs: Fs, p: P)
    ensures #[trigger] content(fs, p) is Some ==> p.len() > 0 && p.last() is Normal;

/// p was there when the program started
pub uninterp spec fn present(fs: Fs, p: P) -> bool;
pub open spec fn makes(log: Seq<Eff>, i: int, p: P) -> bool { 0 <= i < log.len() && log[i] is Mkdir && is_prefix(p, log[i]->Mkdir_0) }
/// directory p is there by now
pub open spec fn ready(w: World, p: P) -> bool { p.len() == 0 || present(w.fs@, p) || exists|i: int| #[trigger] makes(w.log@, i, p) }
pub struct World { pub fs: Ghost<Fs>, pub log: Ghost<Seq<Eff>>, pub bad: Ghost<bool> }
/// a and b differ at most in that something failed, and ok says that nothing did
pub open spec fn told(a: World, b: World, ok: bool) -> bool { if ok { b.bad == a.bad } else { b.bad@ } }
pub open spec fn quiet(a: World, b: World) -> bool { b.fs == a.fs && b.log == a.log && (a.bad@ ==> b.bad@) }

// ---- names
pub open spec fn last_dot(n: Name) -> int
    decreases n.len(),
{
    if n.len() == 0 { -1 } else if n.last() == '.' { n.len() - 1 } else { last_dot(n.drop_last()) }
}
pub open spec fn ext(n: Name) -> Option<Name> { if last_dot(n) <= 0 { None } else { Some(n.skip(last_dot(n) + 1)) } }
pub open spec fn stem(n: Name) -> Name { if last_dot(n) <= 0 { n } else { n.take(last_dot(n)) } }
pub open spec fn name_of(p: P) -> Option<Name> { if p.len() > 0 && p.last() is Normal { Some(p.last()->Normal_0) } else { None } }
pub open spec fn set_ext(p: P, e: Name) -> P {
    match name_of(p) {
        Some(n) => p.drop_last().push(Comp::Normal(if e.len() == 0 { stem(n) } else { stem(n) + "."@ + e })),
        None => p,
    }
}
/// the components pushed onto an empty path one after the other
pub open spec fn pushed(s: P) -> P
    decreases s.len(),
{
    if s.len() == 0 { s } else {
        let r = pushed(s.drop_last());
        match s.last() {
            Comp::Root => seq![Comp::Root],
            Comp::Cur => if r.len() == 0 { seq![Comp::Cur] } else { r },
            c => r.push(c),
        }
    }
}
pub open spec fn is_prefix(a: P, b: P) -> bool { a.len() <= b.len() && b.take(a.len() as int) == a }

// ---- errors
pub struct AnyErr;
pub type Result<T, E = AnyErr> = core::result::Result<T, E>;
pub struct IoError;
pub struct PrefixError;
#[verifier::external_body]
pub fn v_err<E>(e: E) -> (r: AnyErr) { unimplemented!() }
#[verifier::external_body]
pub fn v_anyerr() -> (r: AnyErr) { unimplemented!() }

// ---- OsStr, Path (and PathBuf), Component
#[verifier::external_body]
pub struct OsStr { x: u8 }
impl View for OsStr { type V = Name; uninterp spec fn view(&self) -> Name; }
impl OsStr {
    #[verifier::external_body]
    pub fn to_str<'b>(&'b self) -> (r: Option<&'b str>) ensures r is Some, r->0@ == self@ { unimplemented!() }
}
pub trait VIs { spec fn is_text(&self) -> Name; fn v_is(&self, t: &str) -> (r: bool) ensures r == (self.is_text() == t@); }
impl VIs for OsStr {
    open spec fn is_text(&self) -> Name { self@ }
    #[verifier::external_body]
    fn v_is(&self, t: &str) -> (r: bool) { unimplemented!() }
}
impl VIs for str {
    open spec fn is_text(&self) -> Name { self@ }
    #[verifier::external_body]
    fn v_is(&self, t: &str) -> (r: bool) { unimplemented!() }
}
#[verifier::external_body]
pub struct Path { x: u8 }
pub type PathBuf = Path;
impl View for Path { type V = P; uninterp spec fn view(&self) -> P; }
pub trait AsP { spec fn p(&self) -> P; }
impl AsP for Path { open spec fn p(&self) -> P { self@ } }
impl AsP for OsStr { open spec fn p(&self) -> P { seq![Comp::Normal(self@)] } }
impl AsP for str { open spec fn p(&self) -> P { comps_of(self@) } }
impl AsP for String { open spec fn p(&self) -> P { comps_of(self@) } }
impl<T: AsP + ?Sized> AsP for &T { open spec fn p(&self) -> P { (**self).p() } }
impl Path {
    #[verifier::external_body]
    pub fn from<A: AsP>(a: A) -> (r: Path) ensures r@ == a.p() { unimplemented!() }
    #[verifier::external_body]
    pub fn new<'b, A: AsP + ?Sized>(a: &'b A) -> (r: &'b Path) ensures r@ == a.p() { unimplemented!() }
    #[verifier::external_body]
    pub fn push<A: AsP>(&mut self, a: A) ensures final(self)@ == pushed(old(self)@ + a.p()) { unimplemented!() }
    #[verifier::external_body]
    pub fn set_extension(&mut self, e: &str) -> (r: bool) ensures final(self)@ == set_ext(old(self)@, e@), r == (name_of(old(self)@) is Some) { unimplemented!() }
    #[verifier::external_body]
    pub fn as_path<'b>(&'b self) -> (r: &'b Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_path_buf(&self) -> (r: Path) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn to_str<'b>(&'b self) -> (r: Option<&'b str>) ensures r is Some, comps_of(r->0@) == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn is_dir(&self, w: &World) -> (r: bool) ensures w.log@.len() == 0 ==> r == is_dir(w.fs@, self@), r ==> ready(*w, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn exists(&self, w: &World) -> (r: bool) ensures r ==> ready(*w, self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn extension<'b>(&'b self) -> (r: Option<&'b OsStr>)
        ensures oname_os(r) == (match name_of(self@) { Some(n) => ext(n), None => None }) { unimplemented!() }
    #[verifier::external_body]
    pub fn file_name<'b>(&'b self) -> (r: Option<&'b OsStr>) ensures oname_os(r) == name_of(self@) { unimplemented!() }
    #[verifier::external_body]
    pub fn parent<'b>(&'b self) -> (r: Option<&'b Path>)
        ensures r is None <==> self@.len() == 0 || self@.last() is Root, r matches Some(q) ==> q@ == self@.drop_last() { unimplemented!() }
    #[verifier::external_body]
    pub fn with_extension<'b>(&self, e: &'b str) -> (r: Path) ensures r@ == set_ext(self@, e@) { unimplemented!() }
    #[verifier::external_body]
    pub fn strip_prefix<'b, A: AsP>(&'b self, a: A) -> (r: core::result::Result<&'b Path, PrefixError>)
        ensures r is Ok <==> is_prefix(a.p(), self@), r matches Ok(q) ==> q@ == self@.skip(a.p().len() as int) { unimplemented!() }
    /// an absolute path replaces the first one
    #[verifier::external_body]
    pub fn v_join<A: AsP>(&self, a: A) -> (r: Path) ensures r@ == pushed(self@ + a.p()) { unimplemented!() }
    #[verifier::external_body]
    pub fn components<'b>(&'b self) -> (r: VIter<Component<'b>>) ensures comps(r@) == self@ { unimplemented!() }
}
pub open spec fn oname_os(o: Option<&OsStr>) -> Option<Name> { match o { Some(x) => Some(x@), None => None } }
pub enum Component<'b> { RootDir, CurDir, ParentDir, Normal(&'b OsStr) }
pub open spec fn comp(c: Component) -> Comp {
    match c { Component::RootDir => Comp::Root, Component::CurDir => Comp::Cur, Component::ParentDir => Comp::Up, Component::Normal(n) => Comp::Normal(n@) }
}
pub open spec fn comps(s: Seq<Component>) -> P { s.map_values(|c: Component| comp(c)) }
impl<'b> VFrom<Component<'b>> for Path {
    open spec fn from_rel(items: Seq<Component<'b>>, r: Self) -> bool { r@ == pushed(comps(items)) }
    #[verifier::external_body]
    fn v_from(it: VIter<Component<'b>>) -> (r: Self) { unimplemented!() }
}

// ---- std::fs
pub mod fs {
use vstd::prelude::*;
use crate::prelude::*;
use super::*;
pub struct Metadata { pub dir: bool }
impl Metadata { pub fn is_dir(&self, w: &World) -> (r: bool) ensures r == self.dir { self.dir } }
#[verifier::external_body]
pub struct DirEntry { x: u8 }
impl DirEntry {
    pub uninterp spec fn dir(&self) -> P;
    pub uninterp spec fn name(&self) -> Name;
    #[verifier::external_body]
    pub fn path(&self) -> (r: Path) ensures r@ == self.dir().push(Comp::Normal(self.name())) { unimplemented!() }
}
pub open spec fn entry_name(e: Result<DirEntry, IoError>) -> Name { e->Ok_0.name() }
/// the entries of directory p, each once, unless one of them cannot be read
pub open spec fn entries(fs: Fs, p: P, es: Seq<Result<DirEntry, IoError>>) -> bool {
    &&& forall|i: int| 0 <= i < es.len() && (#[trigger] es[i]) is Ok ==> es[i]->Ok_0.dir() == p && entry(fs, p, entry_name(es[i]))
    &&& forall|i: int, j: int| 0 <= i < j < es.len() && (#[trigger] es[i]) is Ok && (#[trigger] es[j]) is Ok ==> entry_name(es[i]) != entry_name(es[j])
    &&& (forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]) is Ok) ==> forall|n: Name| #[trigger] entry(fs, p, n) ==> exists|i: int| 0 <= i < es.len() && entry_name(#[trigger] es[i]) == n
}
#[verifier::external_body]
pub fn metadata<A: AsP>(a: A, w: &mut World) -> (r: Result<Metadata, IoError>)
    ensures
        quiet(*old(w), *final(w)), told(*old(w), *final(w), r is Ok),
        r matches Ok(m) ==> old(w).log@.len() == 0 ==> m.dir == is_dir(old(w).fs@, a.p()),
{ unimplemented!() }
/// an entry that cannot be read counts as a failure
#[verifier::external_body]
pub fn read_dir<A: AsP>(a: A, w: &mut World) -> (r: Result<VIter<Result<DirEntry, IoError>>, IoError>)
    ensures
        quiet(*old(w), *final(w)), told(*old(w), *final(w), r matches Ok(it) && forall|i: int| 0 <= i < it@.len() ==> (#[trigger] it@[i]) is Ok),
        r matches Ok(it) ==> old(w).log@.len() == 0 ==> entries(old(w).fs@, a.p(), it@),
{ unimplemented!() }
#[verifier::external_body]
pub fn read_to_string<A: AsP>(a: A, w: &mut World) -> (r: Result<String, IoError>)
    ensures
        quiet(*old(w), *final(w)), told(*old(w), *final(w), r is Ok),
        r matches Ok(t) ==> old(w).log@.len() == 0 ==> content(old(w).fs@, a.p()) == Some(t@),
{ unimplemented!() }
#[verifier::external_body]
pub fn create_dir_all<A: AsP>(a: A, w: &mut World) -> (r: Result<(), IoError>)
    ensures
        final(w).fs == old(w).fs, final(w).log@ == old(w).log@.push(Eff::Mkdir(a.p())),
        told(*old(w), *final(w), r is Ok), old(w).bad@ ==> final(w).bad@,
{ unimplemented!() }
/// that there is no directory to write to is nobody else's failure
#[verifier::external_body]
pub fn write<A: AsP, T: Disp>(a: A, t: T, w: &mut World) -> (r: Result<(), IoError>)
    ensures
        final(w).fs == old(w).fs, final(w).log@ == old(w).log@.push(Eff::Write(a.p(), t.disp())),
        told(*old(w), *final(w), r is Ok || !ready(*old(w), a.p().drop_last())), old(w).bad@ ==> final(w).bad@,
{ unimplemented!() }
}
}
/// the library: compile may answer r (None: an error) for a text
pub uninterp spec fn gives(text: Name, r: Option<Name>) -> bool;
pub mod pkt {
use vstd::prelude::*;
pub mod gen { pub mod ts { use vstd::prelude::*; pub struct TypeScript; } }
pub struct Error;
#[verifier::external_body]
pub fn compile<L>(s: &str) -> (r: core::result::Result<String, Error>)
    ensures super::gives(s@, match r { Ok(o) => Some(o@), Err(_) => None }),
{ unimplemented!() }
}
/// the arguments of the program
pub uninterp spec fn arg_path() -> Name;
pub uninterp spec fn arg_out() -> Name;
impl Opts {
    #[verifier::external_body]
    pub fn parse() -> (r: Opts) ensures r.path@ == arg_path(), r.out@ == arg_out() { unimplemented!() }
}

// ---- what the program is for
pub open spec fn is_pkt(n: Name) -> bool { ext(n) == Some("pkt"@) }
/// f is a schema file somewhere below directory d
pub open spec fn below(fs: Fs, d: P, f: P) -> bool {
    &&& d.len() < f.len() && f.take(d.len() as int) == d
    &&& forall|i: int| d.len() <= i < f.len() ==> #[trigger] f[i] is Normal && is_dir(fs, f.take(i)) && entry(fs, f.take(i), f[i]->Normal_0)
    &&& !is_dir(fs, f) && is_pkt(f.last()->Normal_0)
}
/// the files that are compiled when the program is given d
pub open spec fn target(fs: Fs, d: P, f: P) -> bool { if is_dir(fs, d) { below(fs, d, f) } else { f == d } }
/// where the result of compiling f goes
pub open spec fn out_of(fs: Fs, d: P, out: P, f: P) -> P {
    set_ext(if is_dir(fs, d) { out + f.skip(d.len() as int) } else { out + seq![f.last()] }, "ts"@)
}
pub open spec fn good(fs: Fs, f: P, o: Name) -> bool { content(fs, f) is Some && gives(content(fs, f)->0, Some(o)) }
pub open spec fn compiles(fs: Fs, f: P) -> bool { exists|o: Name| #[trigger] good(fs, f, o) }
pub open spec fn faulty(fs: Fs, f: P) -> bool { content(fs, f) is Some && gives(content(fs, f)->0, None) }
/// s lists the files that are wanted, each once, with what compile made of them
pub open spec fn lists(fs: Fs, s: Seq<Schema>, want: spec_fn(P) -> bool) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> want((#[trigger] s[i]).path@) && good(fs, s[i].path@, s[i].generated@)
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).path@ != (#[trigger] s[j]).path@
    &&& forall|f: P| #[trigger] want(f) ==> exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).path@ == f
}
// ---- proofs: visiting
/// below d, by way of n
pub open spec fn thru(fs: Fs, d: P, n: Name, f: P) -> bool { below(fs, d, f) && f[d.len() as int]->Normal_0 == n }
/// below d, by way of one of the first k entries
pub open spec fn seen(fs: Fs, d: P, es: Seq<Result<fs::DirEntry, IoError>>, k: int, f: P) -> bool {
    below(fs, d, f) && exists|i: int| 0 <= i < k && fs::entry_name(#[trigger] es[i]) == f[d.len() as int]->Normal_0
}
broadcast proof fn lemma_up(fs: Fs, d: P, n: Name, f: P)
    requires is_dir(fs, d), entry(fs, d, n), #[trigger] below(fs, d.push(Comp::Normal(n)), f),
    ensures thru(fs, d, n, f),
{
    let q = d.push(Comp::Normal(n));
    let k = d.len() as int;
    assert(f.take(k + 1)[k] == f[k]);
    assert(f.take(k) =~= f.take(k + 1).take(k));
    assert(q.take(k) =~= d);
    assert forall|i: int| d.len() <= i < f.len() implies #[trigger] f[i] is Normal && is_dir(fs, f.take(i)) && entry(fs, f.take(i), f[i]->Normal_0) by { }
}
broadcast proof fn lemma_self(fs: Fs, d: P, n: Name)
    requires is_dir(fs, d), #[trigger] entry(fs, d, n), !is_dir(fs, d.push(Comp::Normal(n))), is_pkt(n),
    ensures below(fs, d, d.push(Comp::Normal(n))),
{
    let q = d.push(Comp::Normal(n));
    assert(q.take(d.len() as int) =~= d);
}
proof fn lemma_via(fs: Fs, d: P, n: Name, f: P)
    requires is_dir(fs, d), entry(fs, d, n),
    ensures
        is_dir(fs, d.push(Comp::Normal(n))) ==> (thru(fs, d, n, f) <==> below(fs, d.push(Comp::Normal(n)), f)),
        !is_dir(fs, d.push(Comp::Normal(n))) ==> (thru(fs, d, n, f) <==> is_pkt(n) && f == d.push(Comp::Normal(n))),
{
    let q = d.push(Comp::Normal(n));
    let k = d.len() as int;
    if below(fs, q, f) { lemma_up(fs, d, n, f); }
    if is_pkt(n) && !is_dir(fs, q) { lemma_self(fs, d, n); }
    if thru(fs, d, n, f) {
        assert(f[k] == Comp::Normal(n));
        assert(f.take(k + 1) =~= q);
        if f.len() == k + 1 { assert(f =~= q); } else { assert(f[k + 1] is Normal); }
        if is_dir(fs, q) {
            assert forall|i: int| q.len() <= i < f.len() implies #[trigger] f[i] is Normal && is_dir(fs, f.take(i)) && entry(fs, f.take(i), f[i]->Normal_0) by { }
        }
    }
}
/// s lists the schema files below d
pub open spec fn all_below(fs: Fs, d: P, s: Seq<Schema>) -> bool { lists(fs, s, |f: P| below(fs, d, f)) }
broadcast proof fn lemma_nothing(fs: Fs, d: P, s: Seq<Schema>)
    ensures s.len() == 0 && !is_dir(fs, d) ==> #[trigger] all_below(fs, d, s),
{
    if !is_dir(fs, d) {
        let w = |f: P| below(fs, d, f);
        assert forall|f: P| #[trigger] w(f) implies false by { assert(f[d.len() as int] is Normal); }
    }
}
broadcast proof fn lemma_skip0<T>(s: Seq<T>)
    ensures #[trigger] s.skip(0) == s,
{ assert(s.skip(0) =~= s); }
/// one more entry of d has been visited: s was there, t is new
proof fn lemma_visited(fs: Fs, d: P, es: Seq<Result<fs::DirEntry, IoError>>, k: int, s: Seq<Schema>, t: Seq<Schema>)
    requires
        is_dir(fs, d), fs::entries(fs, d, es), 0 <= k < es.len(), forall|i: int| 0 <= i <= k ==> (#[trigger] es[i]) is Ok,
        lists(fs, s, |f: P| seen(fs, d, es, k, f)),
        ({
            let n = fs::entry_name(es[k]);
            let q = d.push(Comp::Normal(n));
            if is_dir(fs, q) { all_below(fs, q, t) } else if is_pkt(n) { t.len() == 1 && t[0].path@ == q && good(fs, q, t[0].generated@) } else { t.len() == 0 }
        }),
    ensures lists(fs, s + t, |f: P| seen(fs, d, es, k + 1, f)),
{
    let n = fs::entry_name(es[k]);
    let q = d.push(Comp::Normal(n));
    let u = s + t;
    let w0 = |f: P| seen(fs, d, es, k, f);
    let w1 = |f: P| seen(fs, d, es, k + 1, f);
    assert(entry(fs, d, n));
    assert forall|f: P| thru(fs, d, n, f) implies exists|i: int| 0 <= i < t.len() && (#[trigger] t[i]).path@ == f by {
        lemma_via(fs, d, n, f);
        if is_dir(fs, q) { assert((|f: P| below(fs, q, f))(f)); } else { assert(t[0].path@ == f); }
    }
    assert forall|i: int| 0 <= i < t.len() implies thru(fs, d, n, (#[trigger] t[i]).path@) && good(fs, t[i].path@, t[i].generated@) by {
        lemma_via(fs, d, n, t[i].path@);
        if is_dir(fs, q) { assert((|f: P| below(fs, q, f))(t[i].path@)); }
    }
    assert forall|i: int| 0 <= i < u.len() implies w1((#[trigger] u[i]).path@) && good(fs, u[i].path@, u[i].generated@) by {
        if i < s.len() { assert(w0(s[i].path@)); } else { assert(u[i] == t[i - s.len()]); assert(fs::entry_name(es[k]) == n); }
    }
    assert forall|i: int, j: int| 0 <= i < j < u.len() implies (#[trigger] u[i]).path@ != (#[trigger] u[j]).path@ by {
        if i < s.len() && j >= s.len() {
            assert(w0(s[i].path@));
            assert(u[j] == t[j - s.len()]);
            assert(thru(fs, d, n, u[j].path@));
        } else if i >= s.len() {
            assert(u[i] == t[i - s.len()] && u[j] == t[j - s.len()]);
        }
    }
    assert forall|f: P| #[trigger] w1(f) implies exists|i: int| 0 <= i < u.len() && (#[trigger] u[i]).path@ == f by {
        if thru(fs, d, n, f) {
            let i = choose|i: int| 0 <= i < t.len() && (#[trigger] t[i]).path@ == f;
            assert(u[s.len() + i].path@ == f);
        } else {
            assert(w0(f));
            let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).path@ == f;
            assert(u[i].path@ == f);
        }
    }
}
proof fn lemma_all_seen(fs: Fs, d: P, es: Seq<Result<fs::DirEntry, IoError>>, s: Seq<Schema>)
    requires
        is_dir(fs, d), fs::entries(fs, d, es), forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]) is Ok,
        lists(fs, s, |f: P| seen(fs, d, es, es.len() as int, f)),
    ensures all_below(fs, d, s),
{
    let w0 = |f: P| seen(fs, d, es, es.len() as int, f);
    let w1 = |f: P| below(fs, d, f);
    assert forall|f: P| #[trigger] w1(f) implies w0(f) by { assert(f[d.len() as int] is Normal); assert(f.take(d.len() as int) == d); }
    assert forall|i: int| 0 <= i < s.len() implies w1((#[trigger] s[i]).path@) && good(fs, s[i].path@, s[i].generated@) by { assert(w0(s[i].path@)); }
}

/// the files written, in order
pub open spec fn files(log: Seq<Eff>) -> Seq<(P, Name)>
    decreases log.len(),
{
    if log.len() == 0 { Seq::empty() } else {
        match log.last() { Eff::Write(p, t) => files(log.drop_last()).push((p, t)), Eff::Mkdir(_) => files(log.drop_last()) }
    }
}
/// what was done since is making directories on the way to out
pub open spec fn mkdirs(a: Seq<Eff>, b: Seq<Eff>, out: P) -> bool {
    &&& a.len() <= b.len() && b.take(a.len() as int) == a
    &&& forall|i: int| a.len() <= i < b.len() && (#[trigger] b[i]) is Mkdir ==> is_prefix(b[i]->Mkdir_0, out)
}
broadcast proof fn lemma_files(l: Seq<Eff>, e: Eff)
    ensures #[trigger] files(l.push(e)) == (match e { Eff::Write(p, t) => files(l).push((p, t)), Eff::Mkdir(_) => files(l) }),
{ assert(l.push(e).drop_last() =~= l); }
broadcast proof fn lemma_mkdirs(a: Seq<Eff>, b: Seq<Eff>, e: Eff, out: P)
    ensures
        mkdirs(a, a, out),
        mkdirs(a, b, out) && (e matches Eff::Mkdir(p) ==> is_prefix(p, out)) ==> #[trigger] mkdirs(a, b.push(e), out),
{
    assert(a.take(a.len() as int) =~= a);
    if mkdirs(a, b, out) { assert(b.push(e).take(a.len() as int) =~= b.take(a.len() as int)); }
}
broadcast proof fn lemma_made(w: World, p: P)
    ensures w.log@.len() > 0 && w.log@.last() == Eff::Mkdir(p) ==> #[trigger] ready(w, p),
{ if w.log@.len() > 0 && w.log@.last() == Eff::Mkdir(p) { assert(p.take(p.len() as int) =~= p); assert(makes(w.log@, w.log@.len() - 1, p)); } }
broadcast proof fn lemma_no_mkdirs(a: Seq<Eff>, out: P)
    ensures #[trigger] mkdirs(a, a, out),
{ assert(a.take(a.len() as int) =~= a); }
broadcast proof fn lemma_drop(p: P)
    ensures p.len() > 0 ==> is_prefix(#[trigger] p.drop_last(), p),
{ if p.len() > 0 { assert(p.take(p.len() - 1) =~= p.drop_last()); } }
broadcast proof fn lemma_comps(a: Seq<Component>, b: Seq<Component>)
    ensures #[trigger] comps(a + b) == comps(a) + comps(b),
{ assert(comps(a + b) =~= comps(a) + comps(b)); }
broadcast proof fn lemma_comps_one(a: Seq<Component>)
    ensures a.len() == 1 ==> #[trigger] comps(a) == seq![comp(a[0])],
{ if a.len() == 1 { assert(comps(a) =~= seq![comp(a[0])]); } }
// ---- proofs: where the results go
broadcast proof fn lemma_pushed(a: P, b: P)
    requires normed(a), forall|i: int| 0 <= i < b.len() ==> #[trigger] b[i] is Normal,
    ensures #[trigger] pushed(a + b) == a + b,
    decreases a.len() + b.len(),
{
    let s = a + b;
    if b.len() > 0 {
        assert(b[b.len() - 1] is Normal);
        assert(s.drop_last() =~= a + b.drop_last());
        assert forall|i: int| 0 <= i < b.drop_last().len() implies #[trigger] b.drop_last()[i] is Normal by { assert(b[i] is Normal); }
        lemma_pushed(a, b.drop_last());
        assert(s =~= s.drop_last().push(s.last()));
    } else if a.len() > 0 {
        assert(s =~= a);
        assert(a.drop_last() + b =~= a.drop_last());
        assert(forall|i: int| 0 < i < a.drop_last().len() ==> #[trigger] a.drop_last()[i] == a[i]);
        lemma_pushed(a.drop_last(), b);
        assert(pushed(a.drop_last()) == a.drop_last());
        if a.len() > 1 { assert(a[a.len() - 1] is Up || a[a.len() - 1] is Normal); }
        assert(a =~= a.drop_last().push(a.last()));
        if a.len() == 1 { assert(a =~= seq![a[0]]); }
    } else {
        assert(s =~= Seq::<Comp>::empty());
    }
}
proof fn lemma_dot(n: Name)
    ensures -1 <= last_dot(n) < n.len(), last_dot(n) >= 0 ==> n[last_dot(n)] == '.',
    decreases n.len(),
{ if n.len() > 0 { lemma_dot(n.drop_last()); } }
/// a name is its stem, a dot and its extension
proof fn lemma_stem(n: Name)
    ensures ext(n) matches Some(e) ==> n == stem(n) + "."@ + e,
{
    lemma_dot(n);
    reveal_strlit(".");
    if ext(n) is Some { assert(n =~= stem(n) + "."@ + ext(n)->0); }
}
/// two files never share an output
proof fn theorem_distinct(fs: Fs, d: P, out: P, f: P, g: P)
    requires target(fs, d, f), target(fs, d, g), out_of(fs, d, out, f) == out_of(fs, d, out, g),
    ensures f == g, // #C14
{
    reveal_strlit("ts");
    if is_dir(fs, d) {
        let k = d.len() as int;
        let (a, b) = (out + f.skip(k), out + g.skip(k));
        assert(f[f.len() - 1] is Normal && g[g.len() - 1] is Normal);
        assert(a.last() == f.last() && b.last() == g.last());
        let (m, n) = (f.last()->Normal_0, g.last()->Normal_0);
        let (x, y) = (set_ext(a, "ts"@), set_ext(b, "ts"@));
        assert(x.last() == Comp::Normal(stem(m) + "."@ + "ts"@) && y.last() == Comp::Normal(stem(n) + "."@ + "ts"@));
        assert(stem(m) =~= (stem(m) + "."@ + "ts"@).take((stem(m) + "."@ + "ts"@).len() - ("."@ + "ts"@).len()));
        assert(stem(n) =~= (stem(n) + "."@ + "ts"@).take((stem(n) + "."@ + "ts"@).len() - ("."@ + "ts"@).len()));
        lemma_stem(m);
        lemma_stem(n);
        assert(m == n);
        assert(x.drop_last() =~= a.drop_last() && y.drop_last() =~= b.drop_last());
        assert(a =~= a.drop_last().push(a.last()) && b =~= b.drop_last().push(b.last()));
        assert(f.skip(k) =~= a.skip(out.len() as int) && g.skip(k) =~= b.skip(out.len() as int));
        assert(f =~= f.take(k) + f.skip(k) && g =~= g.take(k) + g.skip(k));
    }
}
/// a file written is the result of one of the files to compile, in its place
pub open spec fn result_of(fs: Fs, d: P, out: P, w: (P, Name), f: P) -> bool { target(fs, d, f) && w.0 == out_of(fs, d, out, f) && good(fs, f, w.1) }
pub open spec fn is_result(fs: Fs, d: P, out: P, w: (P, Name)) -> bool { exists|f: P| result_of(fs, d, out, w, f) }
pub open spec fn writes_ok(fs: Fs, d: P, out: P, log: Seq<Eff>) -> bool {
    forall|i: int| 0 <= i < files(log).len() ==> is_result(fs, d, out, #[trigger] files(log)[i])
}
pub open spec fn towards(fs: Fs, d: P, out: P, p: P, f: P) -> bool { target(fs, d, f) && is_prefix(p, out_of(fs, d, out, f)) }
/// directories are made only where a result goes
pub open spec fn dirs_ok(fs: Fs, d: P, out: P, log: Seq<Eff>) -> bool {
    forall|i: int| 0 <= i < log.len() && (#[trigger] log[i]) is Mkdir ==> exists|f: P| towards(fs, d, out, log[i]->Mkdir_0, f)
}
broadcast proof fn lemma_saved(fs: Fs, d: P, out: P, a: Seq<Eff>, b: Seq<Eff>, f: P, t: Name)
    requires
        #[trigger] mkdirs(a, b, out_of(fs, d, out, f)), #[trigger] good(fs, f, t), target(fs, d, f), writes_ok(fs, d, out, a), dirs_ok(fs, d, out, a),
        files(b) == files(a) || files(b) == files(a).push((out_of(fs, d, out, f), t)),
    ensures writes_ok(fs, d, out, b), dirs_ok(fs, d, out, b),
{
    assert forall|i: int| 0 <= i < files(b).len() implies is_result(fs, d, out, #[trigger] files(b)[i]) by {
        if i < files(a).len() { assert(files(b)[i] == files(a)[i]); } else { assert(result_of(fs, d, out, files(b)[i], f)); }
    }
    assert forall|i: int| 0 <= i < b.len() && (#[trigger] b[i]) is Mkdir implies exists|g: P| towards(fs, d, out, b[i]->Mkdir_0, g) by {
        if i < a.len() { assert(b.take(a.len() as int)[i] == a[i]); } else { assert(towards(fs, d, out, b[i]->Mkdir_0, f)); }
    }
}
broadcast proof fn lemma_out(fs: Fs, d: P, out: P, f: P)
    requires target(fs, d, f), f.len() > 0, f.last() is Normal,
    ensures (#[trigger] out_of(fs, d, out, f)).len() > 0, out_of(fs, d, out, f).last() is Normal,
{ if is_dir(fs, d) { assert((out + f.skip(d.len() as int)).last() == f.last()); } }
pub open spec fn all_compile(fs: Fs, d: P) -> bool { forall|f: P| #[trigger] target(fs, d, f) ==> compiles(fs, f) }
/// the first k of s have been written
pub open spec fn saved(fs: Fs, d: P, out: P, s: Seq<Schema>, k: int, log: Seq<Eff>) -> bool {
    &&& files(log).len() == k
    &&& forall|i: int| 0 <= i < k ==> (#[trigger] files(log)[i]).0 == out_of(fs, d, out, s[i].path@)
}
/// s lists the files to compile
pub open spec fn all_targets(fs: Fs, d: P, s: Seq<Schema>) -> bool { lists(fs, s, |f: P| target(fs, d, f)) }
broadcast proof fn lemma_targets(fs: Fs, d: P, s: Seq<Schema>)
    requires if is_dir(fs, d) { all_below(fs, d, s) } else { s.len() == 1 && s[0].path@ == d && good(fs, d, s[0].generated@) },
    ensures #[trigger] all_targets(fs, d, s),
{
    let (v, w) = (|f: P| below(fs, d, f), |f: P| target(fs, d, f));
    if is_dir(fs, d) {
        assert forall|i: int| 0 <= i < s.len() implies w((#[trigger] s[i]).path@) && good(fs, s[i].path@, s[i].generated@) by { assert(v(s[i].path@)); }
        assert forall|f: P| #[trigger] w(f) implies exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).path@ == f by { assert(v(f)); }
    } else {
        assert(s[0].path@ == d);
    }
}
broadcast proof fn lemma_listed(fs: Fs, d: P, s: Seq<Schema>)
    requires #[trigger] all_targets(fs, d, s),
    ensures
        all_compile(fs, d),
        forall|i: int| 0 <= i < s.len() ==> target(fs, d, (#[trigger] s[i]).path@) && good(fs, s[i].path@, s[i].generated@),
        is_dir(fs, d) ==> forall|i: int| 0 <= i < s.len() ==> is_prefix(d, (#[trigger] s[i]).path@),
        is_dir(fs, d) ==> forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s[i].path@.skip(d.len() as int).len() ==> (#[trigger] s[i].path@.skip(d.len() as int)[j]) is Normal,
{
    let w = |f: P| target(fs, d, f);
    assert forall|f: P| #[trigger] target(fs, d, f) implies compiles(fs, f) by {
        assert(w(f));
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).path@ == f;
        assert(good(fs, f, s[i].generated@));
    }
    assert forall|i: int| 0 <= i < s.len() implies target(fs, d, (#[trigger] s[i]).path@) by { assert(w(s[i].path@)); }
}
broadcast proof fn lemma_single(fs: Fs, d: P, t: Name)
    requires !is_dir(fs, d), #[trigger] good(fs, d, t),
    ensures target(fs, d, d), all_compile(fs, d),
{ assert(compiles(fs, d)); }
/// each output once, and one for each file
proof fn lemma_done(fs: Fs, d: P, out: P, s: Seq<Schema>, log: Seq<Eff>)
    requires all_targets(fs, d, s), saved(fs, d, out, s, s.len() as int, log),
    ensures once_each(fs, d, out, log),
{
    let w = |f: P| target(fs, d, f);
    let l = files(log);
    lemma_listed(fs, d, s);
    assert forall|f: P| #[trigger] target(fs, d, f) implies exists|i: int| 0 <= i < l.len() && (#[trigger] l[i]).0 == out_of(fs, d, out, f) by {
        assert(w(f));
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).path@ == f;
        assert(l[i].0 == out_of(fs, d, out, f));
    }
    assert forall|i: int, j: int| 0 <= i < j < l.len() implies (#[trigger] l[i]).0 != (#[trigger] l[j]).0 by {
        if l[i].0 == l[j].0 { theorem_distinct(fs, d, out, s[i].path@, s[j].path@); assert(s[i].path@ != s[j].path@); }
    }
}
pub open spec fn once_each(fs: Fs, d: P, out: P, log: Seq<Eff>) -> bool {
    &&& forall|f: P| #[trigger] target(fs, d, f) ==> exists|i: int| 0 <= i < files(log).len() && (#[trigger] files(log)[i]).0 == out_of(fs, d, out, f)
    &&& forall|i: int, j: int| 0 <= i < j < files(log).len() ==> (#[trigger] files(log)[i]).0 != (#[trigger] files(log)[j]).0
}
broadcast proof fn lemma_once(fs: Fs, d: P, out: P, log: Seq<Eff>)
    requires !is_dir(fs, d), files(log).len() == 1, files(log)[0].0 == out_of(fs, d, out, d),
    ensures #[trigger] once_each(fs, d, out, log),
{ }
//@fn cli::extension -> r
//@prop C14
    ensures r@ == "ts"@, *final(__w) == *old(__w),
//@fn cli::run_one -> r
//@prop C15
    requires old(__w).log@.len() == 0,
    ensures
        quiet(*old(__w), *final(__w)), r is Ok ==> final(__w).bad == old(__w).bad,
        r matches Ok(s) ==> s.path@ == comps_of($1@) && good(old(__w).fs@, s.path@, s.generated@),
        r is Err ==> final(__w).bad@ || faulty(old(__w).fs@, comps_of($1@)),
//@fn cli::run_all__1 -> r
//@prop C15
//@lift &mut Vec<Schema>
    requires old(__w).log@.len() == 0,
    ensures
        quiet(*old(__w), *final(__w)), r is Ok ==> final(__w).bad == old(__w).bad,
        r is Ok ==> final($2)@.len() == old($2)@.len() + 1 && final($2)@.drop_last() == old($2)@
            && final($2)@.last().path@ == $1.dir().push(Comp::Normal($1.name())) && good(old(__w).fs@, final($2)@.last().path@, final($2)@.last().generated@),
        r is Err ==> final(__w).bad@ || faulty(old(__w).fs@, $1.dir().push(Comp::Normal($1.name()))),
//@fn cli::run_all -> r
//@prop C14 C15
    requires old(__w).log@.len() == 0, is_dir(old(__w).fs@, comps_of($1@)),
    ensures
        quiet(*old(__w), *final(__w)), r is Ok ==> final(__w).bad == old(__w).bad,
        r matches Ok(s) ==> all_below(old(__w).fs@, comps_of($1@), s@),
        r is Err ==> final(__w).bad@ || exists|f: P| #[trigger] below(old(__w).fs@, comps_of($1@), f) && faulty(old(__w).fs@, f),
//@entry
    broadcast use lemma_skip0;
//@fn cli::save_one -> r
//@prop C14 C15
    requires $2@.len() > 0 && !($2@.last() is Root),
    ensures
        final(__w).fs == old(__w).fs,
        told(*old(__w), *final(__w), r is Ok), old(__w).bad@ ==> final(__w).bad@,
        r is Ok ==> files(final(__w).log@) == files(old(__w).log@).push(($2@, $1.generated@)),
        files(final(__w).log@) == files(old(__w).log@) || files(final(__w).log@) == files(old(__w).log@).push(($2@, $1.generated@)),
        mkdirs(old(__w).log@, final(__w).log@, $2@),
//@entry
    broadcast use lemma_files, lemma_mkdirs, lemma_no_mkdirs, lemma_drop, lemma_made;
//@fn cli::format_path -> r
//@prop C14
    requires !$5 ==> name_of($1@) is Some,
    ensures
        *final(__w) == *old(__w),
        r is Err <==> $5 && !is_prefix($2@, $1@),
        r matches Ok(p) ==> p@ == set_ext(pushed($3@ + (if $5 { $1@.skip($2@.len() as int) } else { seq![$1@.last()] })), "ts"@),
//@entry
    broadcast use lemma_comps, lemma_comps_one;
//@fn cli::visit_files -> r
//@prop C14 C15
    requires old(__w).log@.len() == 0,
    ensures
        quiet(*old(__w), *final(__w)), r is Ok ==> final(__w).bad == old(__w).bad,
        r is Ok ==> old($2)@.len() <= final($2)@.len() && final($2)@.take(old($2)@.len() as int) == old($2)@
            && all_below(old(__w).fs@, comps_of($1@), final($2)@.skip(old($2)@.len() as int)),
        r is Err ==> final(__w).bad@ || exists|f: P| #[trigger] below(old(__w).fs@, comps_of($1@), f) && faulty(old(__w).fs@, f),
    decreases depth(old(__w).fs@, comps_of($1@)),
//@entry
    broadcast use lemma_up, lemma_self, lemma_nothing, ax_depth;
    let ghost __fs = __w.fs@;
    let ghost __d = comps_of($1@);
    let ghost __o = $2@;
//@loop 1
        is_dir(__fs, __d), fs::entries(__fs, __d, ${it1}@), forall|i: int| 0 <= i < ${k1} ==> (#[trigger] ${it1}@[i]) is Ok,
        quiet(*old(__w), *__w),
        told(*old(__w), *__w, forall|i: int| 0 <= i < ${it1}@.len() ==> (#[trigger] ${it1}@[i]) is Ok),
        __o.len() <= $2@.len(), $2@.take(__o.len() as int) == __o,
        lists(__fs, $2@.skip(__o.len() as int), |f: P| seen(__fs, __d, ${it1}@, ${k1} as int, f)),
//@loopstart 1
    let ghost __p = $2@;
//@loopend 1
    proof {
        assert($2@.skip(__o.len() as int) =~= __p.skip(__o.len() as int) + $2@.skip(__p.len() as int));
        assert($2@.take(__o.len() as int) =~= __o);
        lemma_visited(__fs, __d, ${it1}@, ${k1} - 1, __p.skip(__o.len() as int), $2@.skip(__p.len() as int));
    }
//@loopafter 1
    proof { lemma_all_seen(__fs, __d, ${it1}@, $2@.skip(__o.len() as int)); }
//@fn cli::main -> r
//@prop C14 C15
//@attr #[verifier::spinoff_prover]
//@spec
    requires old(__w).log@.len() == 0, !old(__w).bad@,
    ensures
        writes_ok(old(__w).fs@, comps_of(arg_path()), comps_of(arg_out()), final(__w).log@), // #C14 #C15
        dirs_ok(old(__w).fs@, comps_of(arg_path()), comps_of(arg_out()), final(__w).log@), // #C14
        r is Ok ==> once_each(old(__w).fs@, comps_of(arg_path()), comps_of(arg_out()), final(__w).log@), // #C14
        final(__w).log@.len() > 0 || r is Ok ==> all_compile(old(__w).fs@, comps_of(arg_path())), // #C15
        r is Ok ==> !final(__w).bad@, // #C15
        r is Err ==> final(__w).bad@ || exists|f: P| target(old(__w).fs@, comps_of(arg_path()), f) && #[trigger] faulty(old(__w).fs@, f), // #C15
//@entry
    hide(pushed);
    hide(below);
    hide(last_dot);
    broadcast use ax_normed, ax_text, lemma_pushed, lemma_saved, lemma_listed, lemma_single, lemma_targets, lemma_once, lemma_out;
    let ghost __fs = __w.fs@;
    let ghost __d = comps_of(arg_path());
    let ghost __o = comps_of(arg_out());
    let ghost __s = out_of(__fs, __d, __o, __d);
//@loop 1
        __w.fs@ == __fs, !__w.bad@, all_targets(__fs, __d, ${it1}@),
        writes_ok(__fs, __d, __o, __w.log@), dirs_ok(__fs, __d, __o, __w.log@), saved(__fs, __d, __o, ${it1}@, ${k1} as int, __w.log@),
//@loopstart 1
    let ghost __x = out_of(__fs, __d, __o, ${it1}@[${k1} - 1].path@);
//@loopafter 1
    proof { lemma_done(__fs, __d, __o, ${it1}@, __w.log@); }
