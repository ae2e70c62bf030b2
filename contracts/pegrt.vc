//@raw top
// ---------------------------------------------------------------------------
// peg's names, and what the contracts of its runtime say
// ---------------------------------------------------------------------------
pub mod peg {
use vstd::prelude::*;
use crate::prelude::*;
pub use crate::pegrt::RuleResult;
pub mod str { pub use crate::pegrt::LineCol; }
pub mod error { pub use crate::pegrt::{ErrorState, ParseError}; }
verus! {
pub open spec fn matches(s: Name, i: int, t: Name) -> bool { 0 <= i && i + t.len() <= s.len() && s.subrange(i, i + t.len()) == t }
/// `str::len`
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures ok(s@, r), ix(s@, r) == s@.len(), r == blen(s@), r <= isize::MAX { unimplemented!() }
/// characters since the last line feed before i
pub open spec fn col(s: Name, i: int) -> int
    decreases i,
{
    if i <= 0 || s[i - 1] == '\n' { 0 } else { col(s, i - 1) + 1 }
}
/// line feeds before i
pub open spec fn lines_before(s: Name, i: int) -> int
    decreases i,
{
    if i <= 0 { 0 } else { lines_before(s, i - 1) + if s[i - 1] == '\n' { 1int } else { 0 } }
}
/// l describes character i
pub open spec fn loc_at(s: Name, i: int, l: str::LineCol) -> bool {
    0 <= i <= s.len() && blen(s.take(i)) == l.offset && l.line == lines_before(s, i) + 1 && l.column == col(s, i) + 1
}
pub open spec fn located(s: Name, l: str::LineCol) -> bool { exists|i: int| loc_at(s, i, l) }
} // verus!
}
//@raw pegrt.use
use crate::peg::{matches, col, lines_before, loc_at, located};
//@raw pegrt
/// UTF-8
pub open spec fn enc(c: char) -> Seq<u8> {
    let n = c as u32;
    if n < 0x80 { seq![n as u8] }
    else if n < 0x800 { seq![(0xC0 + n / 64) as u8, (0x80 + n % 64) as u8] }
    else if n < 0x10000 { seq![(0xE0 + n / 4096) as u8, (0x80 + n / 64 % 64) as u8, (0x80 + n % 64) as u8] }
    else { seq![(0xF0 + n / 262144) as u8, (0x80 + n / 4096 % 64) as u8, (0x80 + n / 64 % 64) as u8, (0x80 + n % 64) as u8] }
}
pub open spec fn bytes(s: Name) -> Seq<u8>
    decreases s.len(),
{
    if s.len() == 0 { Seq::empty() } else { bytes(s.drop_last()) + enc(s.last()) }
}
pub trait VBytes { spec fn chars_in(&self) -> Name; fn v_bytes(&self) -> (r: &[u8]) ensures r@ == bytes(self.chars_in()); }
impl VBytes for str {
    open spec fn chars_in(&self) -> Name { self@ }
    #[verifier::external_body]
    fn v_bytes(&self) -> (r: &[u8]) { unimplemented!() }
}
pub trait VSlice { spec fn elems(&self) -> Seq<u8>; fn v_part(&self, p: usize, q: usize) -> (r: &[u8]) requires p <= q <= self.elems().len() ensures r@ == self.elems().subrange(p as int, q as int); }
impl VSlice for [u8] {
    open spec fn elems(&self) -> Seq<u8> { self@ }
    #[verifier::external_body]
    fn v_part(&self, p: usize, q: usize) -> (r: &[u8]) { unimplemented!() }
}
#[verifier::external_body]
pub fn v_same_bytes(a: &[u8], b: &[u8]) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn v_len_utf8(c: char) -> (r: usize) ensures r == clen(c) { unimplemented!() }

proof fn lemma_none()
    ensures blen(Seq::<char>::empty()) == 0,
{ lemma_blen_ascii(Seq::<char>::empty()); }
proof fn lemma_one(c: char)
    ensures blen(seq![c]) == clen(c), bytes(seq![c]) == enc(c), enc(c).len() == clen(c),
{
    lemma_blen_one(c);
    assert(seq![c].drop_last() =~= Seq::<char>::empty());
    reveal_with_fuel(bytes, 2);
    assert(Seq::<u8>::empty() + enc(c) =~= enc(c));
}
proof fn lemma_next(s: Name, i: int)
    requires 0 <= i < s.len(),
    ensures blen(s.take(i + 1)) == blen(s.take(i)) + clen(s[i]), blen(s.take(i + 1)) <= blen(s),
{
    broadcast use lemma_blen_cat;
    lemma_one(s[i]);
    assert(s.take(i + 1) =~= s.take(i) + seq![s[i]]);
    assert(s =~= s.take(i + 1) + s.skip(i + 1));
}
proof fn lemma_bytes_cat(a: Name, b: Name)
    ensures bytes(a + b) == bytes(a) + bytes(b),
    decreases b.len(),
{
    if b.len() == 0 {
        assert(a + b =~= a);
        assert(bytes(a) + bytes(b) =~= bytes(a));
    } else {
        lemma_bytes_cat(a, b.drop_last());
        assert((a + b).drop_last() =~= a + b.drop_last());
        assert(bytes(a + b) =~= bytes(a) + bytes(b));
    }
}
proof fn lemma_bytes_len(s: Name)
    ensures bytes(s).len() == blen(s), s.len() <= blen(s),
    decreases s.len(),
{
    lemma_none();
    if s.len() > 0 {
        lemma_bytes_len(s.drop_last());
        lemma_blen_cat(s.drop_last(), seq![s.last()]);
        lemma_one(s.last());
        assert(s =~= s.drop_last() + seq![s.last()]);
    } else { assert(s =~= Seq::<char>::empty()); }
}
/// the first byte tells the length, the bytes tell the character
proof fn lemma_enc(c: char, d: char)
    ensures enc(c)[0] == enc(d)[0] ==> enc(c).len() == enc(d).len(), enc(c) == enc(d) ==> c == d,
{
    let (m, n) = (c as u32, d as u32);
    assert(m <= 0x10FFFF && n <= 0x10FFFF);
    if enc(c) == enc(d) {
        assert(enc(c)[0] == enc(d)[0]);
        assert(enc(c).last() == enc(d).last());
        if m >= 0x80 { assert(enc(c)[1] == enc(d)[1]); }
        if m >= 0x800 { assert(enc(c)[2] == enc(d)[2]); }
        assert(m == n);
    }
}
/// a text that begins with the bytes of t begins with t
proof fn lemma_begins(u: Name, t: Name)
    requires bytes(t).len() <= bytes(u).len(), bytes(u).take(bytes(t).len() as int) == bytes(t),
    ensures t.len() <= u.len() && u.take(t.len() as int) == t,
    decreases t.len(),
{
    if t.len() > 0 {
        let c = t[0];
        let v = t.skip(1);
        lemma_one(c);
        assert(t =~= seq![c] + v);
        lemma_bytes_cat(seq![c], v);
        if u.len() == 0 { assert(bytes(u).len() == 0); }
        let d = u[0];
        let w = u.skip(1);
        lemma_one(d);
        assert(u =~= seq![d] + w);
        lemma_bytes_cat(seq![d], w);
        lemma_enc(c, d);
        let n = bytes(t).len() as int;
        assert(bytes(u).take(n)[0] == bytes(t)[0]);
        assert(enc(c)[0] == enc(d)[0]);
        assert forall|j: int| 0 <= j < enc(c).len() implies enc(c)[j] == enc(d)[j] by { assert(bytes(u).take(n)[j] == bytes(t)[j]); }
        assert(enc(c) =~= enc(d));
        assert forall|j: int| 0 <= j < bytes(v).len() implies bytes(w)[j] == bytes(v)[j] by { assert(bytes(u).take(n)[j + enc(c).len()] == bytes(t)[j + enc(c).len()]); }
        assert(bytes(w).take(bytes(v).len() as int) =~= bytes(v));
        lemma_begins(w, v);
        assert(u.take(t.len() as int) =~= seq![d] + w.take(v.len() as int));
    } else { assert(u.take(0) =~= t); }
}
/// the bytes from p on are those of t exactly when the characters are
proof fn lemma_literal(s: Name, p: usize, t: Name)
    requires ok(s, p),
    ensures
        p <= blen(s),
        (p + blen(t) <= blen(s) && bytes(s).subrange(p as int, p + blen(t)) == bytes(t)) == matches(s, ix(s, p), t),
        matches(s, ix(s, p), t) && p + blen(t) <= usize::MAX ==> ok(s, (p + blen(t)) as usize) && ix(s, (p + blen(t)) as usize) == ix(s, p) + t.len(),
{
    let i = ix(s, p);
    let u = s.skip(i);
    lemma_ix(s, p);
    assert(s =~= s.take(i) + u);
    lemma_bytes_cat(s.take(i), u);
    lemma_blen_cat(s.take(i), u);
    lemma_bytes_len(s); lemma_bytes_len(u); lemma_bytes_len(t); lemma_bytes_len(s.take(i));
    if p + blen(t) <= blen(s) && bytes(s).subrange(p as int, p + blen(t)) == bytes(t) {
        assert(bytes(u).take(blen(t) as int) =~= bytes(s).subrange(p as int, p + blen(t)));
        lemma_begins(u, t);
        assert(s.subrange(i, i + t.len()) =~= u.take(t.len() as int));
    }
    if matches(s, i, t) {
        let w = u.skip(t.len() as int);
        assert(u.take(t.len() as int) =~= s.subrange(i, i + t.len()));
        assert(u =~= t + w);
        lemma_bytes_cat(t, w);
        lemma_blen_cat(t, w);
        assert(bytes(s).subrange(p as int, p + blen(t)) =~= bytes(t));
        assert(s.take(i + t.len()) =~= s.take(i) + t);
        lemma_blen_cat(s.take(i), t);
        if p + blen(t) <= usize::MAX { lemma_at(s, (p + blen(t)) as usize, i + t.len()); }
    }
}
/// line feeds among the first k bytes
pub open spec fn feeds(b: Seq<u8>, k: int) -> int
    decreases k,
{
    if k <= 0 { 0 } else { feeds(b, k - 1) + if b[k - 1] == 10 { 1int } else { 0 } }
}
proof fn lemma_feeds_pre(a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k <= a.len(),
    ensures feeds(a + b, k) == feeds(a, k),
    decreases k,
{
    if k > 0 { lemma_feeds_pre(a, b, k - 1); }
}
proof fn lemma_feeds_cat(a: Seq<u8>, b: Seq<u8>, k: int)
    requires 0 <= k <= b.len(),
    ensures feeds(a + b, a.len() + k) == feeds(a, a.len() as int) + feeds(b, k),
    decreases k,
{
    if k > 0 { lemma_feeds_cat(a, b, k - 1); } else { lemma_feeds_pre(a, b, a.len() as int); }
}
proof fn lemma_feeds(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures feeds(bytes(s.take(i)), bytes(s.take(i)).len() as int) == lines_before(s, i),
    decreases i,
{
    if i > 0 {
        lemma_feeds(s, i - 1);
        let c = s[i - 1];
        assert(s.take(i).drop_last() =~= s.take(i - 1));
        lemma_feeds_cat(bytes(s.take(i - 1)), enc(c), enc(c).len() as int);
        assert(c == '\n' <==> c as u32 == 10);
        reveal_with_fuel(feeds, 5);
    } else { assert(s.take(0) =~= Seq::<char>::empty()); }
}
proof fn lemma_col_is(s: Name, i: int, k: int)
    requires 0 <= k <= i <= s.len(), forall|j: int| i - k <= j < i ==> s[j] != '\n', k == i || s[i - k - 1] == '\n',
    ensures col(s, i) == k,
    decreases k,
{
    if k > 0 { lemma_col_is(s, i - 1, k - 1); }
}
//@fn pegrt::start -> r
//@prop C11 C12 C13
    ensures ok($1@, r), ix($1@, r) == 0,
//@entry
    proof { lemma_none(); assert($1@.take(0) =~= Seq::<char>::empty()); lemma_at($1@, 0, 0); }
//@fn pegrt::position_repr -> r
//@prop C13
    requires ok($1@, $2),
    ensures loc_at($1@, ix($1@, $2), r), r.offset == $2,
//@entry
    proof { lemma_ix($1@, $2); lemma_feeds($1@, ix($1@, $2)); lemma_bytes_len($1@.take(ix($1@, $2))); assert($1@ =~= $1@.take(ix($1@, $2)) + $1@.skip(ix($1@, $2))); lemma_blen_cat($1@.take(ix($1@, $2)), $1@.skip(ix($1@, $2))); }
//@loop 1
    ${it1}@.len() == bytes($1@.take(ix($1@, $2))).len(), __n <= ${k1}, __n == feeds(bytes($1@.take(ix($1@, $2))), ${k1} as int),
//@loop 2
    ${it2}@ == $1@.take(ix($1@, $2)).reverse(), __n <= ${k2},
    forall|j: int| ix($1@, $2) - __n <= j < ix($1@, $2) ==> $1@[j] != '\n',
    invariant_except_break __n == ${k2},
    ensures __n == ix($1@, $2) || $1@[ix($1@, $2) - __n - 1] == '\n',
//@loopafter 2
    proof { lemma_col_is($1@, ix($1@, $2), __n as int); assert(loc_at($1@, ix($1@, $2), LineCol { line: (lines_before($1@, ix($1@, $2)) + 1) as usize, column: (__n + 1) as usize, offset: $2 })); }
//@fn pegrt::parse_elem -> r
//@prop C11 C12 C13
    requires ok($1@, $2),
    ensures match r {
        RuleResult::Matched(q, c) => ix($1@, $2) < $1@.len() && c == $1@[ix($1@, $2)] && ok($1@, q) && ix($1@, q) == ix($1@, $2) + 1,
        RuleResult::Failed => ix($1@, $2) == $1@.len(),
    },
//@entry
    proof {
        lemma_ix($1@, $2);
        let i = ix($1@, $2);
        if i < $1@.len() {
            lemma_next($1@, i);
            if $2 + clen($1@[i]) <= usize::MAX { lemma_at($1@, ($2 + clen($1@[i])) as usize, i + 1); }
        }
    }
//@fn pegrt::parse_string_literal -> r
//@prop C11 C12 C13
    requires ok($1@, $2),
    ensures match r {
        RuleResult::Matched(q, _) => matches($1@, ix($1@, $2), $3@) && ok($1@, q) && ix($1@, q) == ix($1@, $2) + $3@.len(),
        RuleResult::Failed => !matches($1@, ix($1@, $2), $3@),
    },
//@entry
    proof { lemma_ix($1@, $2); lemma_literal($1@, $2, $3@); lemma_bytes_len($1@); lemma_bytes_len($3@); }
//@fn pegrt::parse_slice -> r
//@prop C11 C12 C13
    requires ok($1@, $2), ok($1@, $3), ix($1@, $2) <= ix($1@, $3),
    ensures r@ == $1@.subrange(ix($1@, $2), ix($1@, $3)),
//@entry
    proof {
        lemma_ix($1@, $2); lemma_ix($1@, $3);
        let (i, j) = (ix($1@, $2), ix($1@, $3));
        assert($1@.take(j) =~= $1@.take(i) + $1@.subrange(i, j));
        lemma_blen_cat($1@.take(i), $1@.subrange(i, j));
    }
//@fn pegrt::ErrorState::new -> r
//@prop C11 C12 C13
    ensures r.max_err_pos == $1, r.suppress_fail == 0, !r.reparsing_on_error,
//@fn pegrt::ErrorState::reparse_for_error
//@prop C11 C12 C13
    ensures final(self).max_err_pos == old(self).max_err_pos, final(self).suppress_fail == 0, final(self).reparsing_on_error,
//@fn pegrt::ErrorState::mark_failure -> r
//@prop C11 C12 C13
    ensures
        r is Failed, final(self).suppress_fail == old(self).suppress_fail, final(self).reparsing_on_error == old(self).reparsing_on_error,
        final(self).max_err_pos == (if old(self).suppress_fail == 0 && !old(self).reparsing_on_error && $2 > old(self).max_err_pos { $2 } else { old(self).max_err_pos }),
//@fn pegrt::ErrorState::into_parse_error -> r
//@prop C13
    requires ok($2@, self.max_err_pos),
    ensures loc_at($2@, ix($2@, self.max_err_pos), r.location), r.location.offset == self.max_err_pos,
