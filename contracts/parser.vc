//@raw top
// ---------------------------------------------------------------------------
// the schema format as a function of the text
// ---------------------------------------------------------------------------
pub mod grammar {
use vstd::prelude::*;
use crate::prelude::*;
use crate::ast::*;
use crate::peg::*;
use crate::peg::error::ErrorState;
verus! {
// ===================== the schema format =====================================
pub enum Class { Blank, Eol, Space, Line, Word, Start }
pub open spec fn is_in(c: Class, x: char) -> bool {
    match c {
        Class::Blank => x == ' ' || x == '\t',
        Class::Eol => x == '\n' || x == '\r',
        Class::Space => x == ' ' || x == '\t' || x == '\n' || x == '\r',
        Class::Line => x != '\n',
        Class::Word => 'a' <= x <= 'z' || 'A' <= x <= 'Z' || '0' <= x <= '9' || x == '_',
        Class::Start => 'a' <= x <= 'z' || 'A' <= x <= 'Z' || x == '_',
    }
}
/// where the characters of the class that begin at i end
pub open spec fn run(s: Name, i: int, c: Class) -> int
    decreases s.len() - i,
{
    if 0 <= i < s.len() && is_in(c, s[i]) { run(s, i + 1, c) } else { i }
}
pub broadcast proof fn lemma_run(s: Name, i: int, c: Class)
    ensures
        i <= #[trigger] run(s, i, c), 0 <= i <= s.len() ==> run(s, i, c) <= s.len(),
        0 <= i && run(s, i, c) < s.len() ==> !is_in(c, s[run(s, i, c)]),
        forall|k: int| i <= k < run(s, i, c) ==> is_in(c, #[trigger] s[k]),
    decreases s.len() - i,
{
    if 0 <= i < s.len() && is_in(c, s[i]) { lemma_run(s, i + 1, c); }
}
pub open spec fn reserved(k: int) -> Name {
    if k == 0 { "uint8"@ } else if k == 1 { "uint16"@ } else if k == 2 { "uint32"@ } else if k == 3 { "int8"@ } else if k == 4 { "int16"@ }
    else if k == 5 { "int32"@ } else if k == 6 { "float"@ } else if k == 7 { "string"@ } else if k == 8 { "enum"@ } else { "struct"@ }
}
pub open spec fn is_reserved(n: Name) -> bool { exists|k: int| 0 <= k < 10 && n == #[trigger] reserved(k) }
/// one reserved word begins at i and ends at j
pub open spec fn reserved_at(s: Name, i: int, j: int) -> bool { exists|k: int| 0 <= k < 10 && matches(s, i, #[trigger] reserved(k)) && j == i + reserved(k).len() }

pub struct GField { pub name: Name, pub ty: Name, pub arr: bool, pub opt: bool }
pub enum GType { Enum(Seq<Name>), Struct(Seq<GField>) }
pub enum GNode { Decl(Name, GType), Export(Name) }

pub open spec fn p_comment(s: Name, i: int) -> Option<int> {
    if matches(s, i, "#"@) { Some(run(s, run(s, i + 1, Class::Line), Class::Eol)) } else { None }
}
pub open spec fn p_ident(s: Name, i: int) -> Option<int> {
    let e = run(s, i, Class::Word);
    if 0 <= i < s.len() && is_in(Class::Start, s[i]) && !is_reserved(s.subrange(i, e)) { Some(e) } else { None }
}
/// white space, perhaps a comma, white space
pub open spec fn p_end(s: Name, i: int) -> int {
    let a = run(s, i, Class::Space);
    run(s, if matches(s, a, ","@) { a + 1 } else { a }, Class::Space)
}
pub open spec fn p_variant(s: Name, i: int) -> Option<(int, Name)> {
    match p_ident(s, i) { Some(a) => Some((p_end(s, a), s.subrange(i, a))), None => None }
}
pub open spec fn p_variants(s: Name, i: int) -> (int, Seq<Name>)
    decreases s.len() - i,
{
    match p_variant(s, i) {
        Some((j, n)) => if i < j <= s.len() { let (e, v) = p_variants(s, j); (e, seq![n] + v) } else { (i, seq![]) },
        None => (i, seq![]),
    }
}
pub open spec fn p_enum(s: Name, i: int) -> Option<(int, GType)> {
    let a = run(s, i, Class::Blank);
    let b = run(s, a + 4, Class::Blank);
    let (d, v) = p_variants(s, run(s, b + 1, Class::Space));
    let e = run(s, d, Class::Space);
    if matches(s, a, "enum"@) && matches(s, b, "{"@) && matches(s, e, "}"@) { Some((e + 1, GType::Enum(v))) } else { None }
}
pub open spec fn p_field(s: Name, i: int) -> Option<(int, Option<GField>)> {
    match p_comment(s, i) {
        Some(a) => Some((run(s, a, Class::Space), None)),
        None => match p_ident(s, i) {
            Some(a) => {
                let b = run(s, a, Class::Blank);
                let opt = matches(s, b, "?"@);
                let c = if opt { b + 1 } else { b };
                let d = run(s, c + 1, Class::Blank);
                let e = run(s, d, Class::Word);
                let arr = matches(s, e, "[]"@);
                if matches(s, c, ":"@) { Some((p_end(s, if arr { e + 2 } else { e }), Some(GField { name: s.subrange(i, a), ty: s.subrange(d, e), arr, opt }))) } else { None }
            },
            None => None,
        },
    }
}
pub open spec fn p_fields(s: Name, i: int) -> (int, Seq<Option<GField>>)
    decreases s.len() - i,
{
    match p_field(s, i) {
        Some((j, n)) => if i < j <= s.len() { let (e, v) = p_fields(s, j); (e, seq![n] + v) } else { (i, seq![]) },
        None => (i, seq![]),
    }
}
pub open spec fn p_struct(s: Name, i: int) -> Option<(int, GType)> {
    let a = run(s, i, Class::Blank);
    let b = run(s, a + 6, Class::Blank);
    let (d, v) = p_fields(s, run(s, b + 1, Class::Space));
    let e = run(s, d, Class::Space);
    if matches(s, a, "struct"@) && matches(s, b, "{"@) && matches(s, e, "}"@) { Some((e + 1, GType::Struct(somes(v)))) } else { None }
}
pub open spec fn p_type(s: Name, i: int) -> Option<(int, GType)> {
    match p_enum(s, i) { Some(x) => Some(x), None => p_struct(s, i) }
}
pub open spec fn p_decl(s: Name, i: int) -> Option<(int, GNode)> {
    let a = run(s, i, Class::Blank);
    match p_ident(s, a) {
        Some(b) => {
            let c = run(s, b, Class::Blank);
            if matches(s, c, ":"@) {
                match p_type(s, run(s, c + 1, Class::Blank)) { Some((e, t)) => Some((run(s, e, Class::Space), GNode::Decl(s.subrange(a, b), t))), None => None }
            } else { None }
        },
        None => None,
    }
}
pub open spec fn p_export(s: Name, i: int) -> Option<(int, GNode)> {
    let a = run(s, i + 6, Class::Blank);
    let b = run(s, a, Class::Word);
    if matches(s, i, "export"@) && !(i + 6 < s.len() && is_in(Class::Word, s[i + 6])) { Some((b, GNode::Export(s.subrange(a, b)))) } else { None }
}
pub open spec fn p_line(s: Name, i: int) -> Option<(int, Option<GNode>)> {
    let a = run(s, i, Class::Blank);
    match p_comment(s, a) {
        Some(b) => Some((run(s, b, Class::Space), None)),
        None => match p_export(s, a) {
            Some((b, n)) => Some((run(s, b, Class::Space), Some(n))),
            None => match p_decl(s, a) {
                Some((b, n)) => Some((run(s, b, Class::Space), Some(n))),
                None => None,
            },
        },
    }
}
pub open spec fn p_lines(s: Name, i: int) -> (int, Seq<Option<GNode>>)
    decreases s.len() - i,
{
    match p_line(s, i) {
        Some((j, n)) => if i < j <= s.len() { let (e, v) = p_lines(s, j); (e, seq![n] + v) } else { (i, seq![]) },
        None => (i, seq![]),
    }
}
/// what a text says; None: it is not a schema
pub open spec fn p_schema(s: Name) -> Option<Seq<GNode>> {
    let (e, v) = p_lines(s, run(s, 0, Class::Space));
    if e == s.len() { Some(somes(v)) } else { None }
}

/// alternatives that exclude each other, whichever is tried first
pub proof fn lemma_apart(s: Name, i: int)
    ensures
        !(p_enum(s, i) is Some && p_struct(s, i) is Some),
        !(matches(s, run(s, i, Class::Blank), "enum"@) && matches(s, run(s, i, Class::Blank), "struct"@)),
        p_comment(s, i) is Some ==> p_ident(s, i) is None && p_export(s, i) is None && p_decl(s, i) is None && f_decl(s, i) == i,
{
    reveal_strlit("enum"); reveal_strlit("struct"); reveal_strlit("#"); reveal_strlit("export");
    let a = run(s, i, Class::Blank);
    if matches(s, a, "enum"@) && matches(s, a, "struct"@) {
        assert(s.subrange(a, a + 4)[0] == 'e');
        assert(s.subrange(a, a + 6)[0] == 's');
    }
    if matches(s, i, "#"@) {
        assert(s.subrange(i, i + 1)[0] == '#');
        assert(a == i);
        if matches(s, i, "export"@) { assert(s.subrange(i, i + 6)[0] == 'e'); }
    }
}

/// blanks in front of a type do not matter
pub proof fn lemma_blank(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures ({
        let a = run(s, i, Class::Blank);
        p_enum(s, a) == p_enum(s, i) && p_struct(s, a) == p_struct(s, i) && f_enum(s, a) == f_enum(s, i) && f_struct(s, a) == f_struct(s, i)
    }),
{ lemma_run(s, i, Class::Blank); }

/// where the lines that make sense end
pub open spec fn understood(s: Name) -> int { p_lines(s, run(s, 0, Class::Space)).0 }
pub open spec fn most(a: int, b: int) -> int { if a > b { a } else { b } }
/// how far a text makes sense as a field, an enum, a struct, a type, a declaration
pub open spec fn f_field(s: Name, i: int) -> int {
    match p_field(s, i) {
        Some((j, _)) => j,
        None => match p_ident(s, i) {
            Some(a) => { let b = run(s, a, Class::Blank); if matches(s, b, "?"@) { b + 1 } else { b } },
            None => i,
        },
    }
}
pub open spec fn f_enum(s: Name, i: int) -> int {
    let a = run(s, i, Class::Blank);
    let b = run(s, a + 4, Class::Blank);
    if !matches(s, a, "enum"@) { a } else if !matches(s, b, "{"@) { b } else { run(s, p_variants(s, run(s, b + 1, Class::Space)).0, Class::Space) }
}
pub open spec fn f_struct(s: Name, i: int) -> int {
    let a = run(s, i, Class::Blank);
    let b = run(s, a + 6, Class::Blank);
    let d = p_fields(s, run(s, b + 1, Class::Space)).0;
    if !matches(s, a, "struct"@) { a } else if !matches(s, b, "{"@) { b } else { most(f_field(s, d), run(s, d, Class::Space)) }
}
pub open spec fn f_type(s: Name, i: int) -> int { most(f_enum(s, i), f_struct(s, i)) }
pub open spec fn f_decl(s: Name, i: int) -> int {
    let a = run(s, i, Class::Blank);
    match p_ident(s, a) {
        Some(b) => {
            let c = run(s, b, Class::Blank);
            let t = run(s, c + 1, Class::Blank);
            if !matches(s, c, ":"@) { c } else { match p_type(s, t) { Some((e, _)) => run(s, e, Class::Space), None => f_type(s, t) } }
        },
        None => a,
    }
}
pub open spec fn f_line(s: Name, i: int) -> int {
    match p_line(s, i) { Some((j, _)) => j, None => f_decl(s, run(s, i, Class::Blank)) }
}
/// the failing position of a text that is no schema: how far its first senseless line makes sense as a declaration
pub open spec fn failing(s: Name) -> int { f_line(s, understood(s)) }
/// l is character k of the text
pub open spec fn located_at(s: Name, k: int, l: crate::peg::str::LineCol) -> bool { ok(s, l.offset) && loc_at(s, ix(s, l.offset), l) && k == ix(s, l.offset) }
pub broadcast proof fn lemma_order(s: Name, p: usize, q: usize)
    requires ok(s, p), ok(s, q), p <= q,
    ensures #[trigger] ix(s, p) <= #[trigger] ix(s, q),
{
    broadcast use lemma_blen_cat, lemma_blen_some;
    let (i, j) = (ix(s, p), ix(s, q));
    lemma_ix(s, p); lemma_ix(s, q);
    if j < i { assert(s.take(i) =~= s.take(j) + s.subrange(j, i)); }
}

// ===================== what the parser returns ================================
pub open spec fn strs(v: Seq<&str>) -> Seq<Name> { v.map_values(|x: &str| x@) }
pub open spec fn g_field(f: (&str, Unresolved)) -> GField { GField { name: f.0@, ty: f.1.0@, arr: f.1.1, opt: f.1.2 } }
pub open spec fn g_fields(v: Seq<(&str, Unresolved)>) -> Seq<GField> { v.map_values(|f: (&str, Unresolved)| g_field(f)) }
pub open spec fn g_ofield(f: Option<(&str, Unresolved)>) -> Option<GField> { match f { Some(f) => Some(g_field(f)), None => None } }
pub open spec fn g_ofields(v: Seq<Option<(&str, Unresolved)>>) -> Seq<Option<GField>> { v.map_values(|f: Option<(&str, Unresolved)>| g_ofield(f)) }
pub open spec fn g_type(t: Type) -> GType {
    match t { Type::Enum(e) => GType::Enum(strs(e.0@)), Type::Struct(x) => GType::Struct(g_fields(x.0@)) }
}
pub open spec fn g_node(n: Node) -> GNode {
    match n { Node::Decl(x, t) => GNode::Decl(x@, g_type(t)), Node::Export(x) => GNode::Export(x@) }
}
pub open spec fn g_ast(v: Seq<Node>) -> Seq<GNode> { v.map_values(|n: Node| g_node(n)) }
pub open spec fn g_onode(n: Option<Node>) -> Option<GNode> { match n { Some(n) => Some(g_node(n)), None => None } }
pub open spec fn g_onodes(v: Seq<Option<Node>>) -> Seq<Option<GNode>> { v.map_values(|n: Option<Node>| g_onode(n)) }
pub broadcast proof fn lemma_strs_push(v: Seq<&str>, x: &str)
    ensures #[trigger] strs(v.push(x)) == strs(v).push(x@),
{ assert(strs(v.push(x)) =~= strs(v).push(x@)); }
pub broadcast proof fn lemma_ofields_push(v: Seq<Option<(&str, Unresolved)>>, x: Option<(&str, Unresolved)>)
    ensures #[trigger] g_ofields(v.push(x)) == g_ofields(v).push(g_ofield(x)),
{ assert(g_ofields(v.push(x)) =~= g_ofields(v).push(g_ofield(x))); }
pub broadcast proof fn lemma_onodes_push(v: Seq<Option<Node>>, x: Option<Node>)
    ensures #[trigger] g_onodes(v.push(x)) == g_onodes(v).push(g_onode(x)),
{ assert(g_onodes(v.push(x)) =~= g_onodes(v).push(g_onode(x))); }
pub broadcast proof fn lemma_somes_fields(v: Seq<Option<(&str, Unresolved)>>)
    ensures #[trigger] g_fields(somes(v)) == somes(g_ofields(v)),
    decreases v.len(),
{
    if v.len() > 0 {
        lemma_somes_fields(v.drop_last());
        assert(g_ofields(v).drop_last() =~= g_ofields(v.drop_last()));
        assert(g_ofields(v).last() == g_ofield(v.last()));
    }
    assert(g_fields(somes(v)) =~= somes(g_ofields(v)));
}
pub broadcast proof fn lemma_somes_nodes(v: Seq<Option<Node>>)
    ensures #[trigger] g_ast(somes(v)) == somes(g_onodes(v)),
    decreases v.len(),
{
    if v.len() > 0 {
        lemma_somes_nodes(v.drop_last());
        assert(g_onodes(v).drop_last() =~= g_onodes(v.drop_last()));
        assert(g_onodes(v).last() == g_onode(v.last()));
    }
    assert(g_ast(somes(v)) =~= somes(g_onodes(v)));
}
pub proof fn lemma_lens()
    ensures "#"@.len() == 1, ","@.len() == 1, "{"@.len() == 1, "}"@.len() == 1, ":"@.len() == 1, "?"@.len() == 1, "[]"@.len() == 2,
        "enum"@.len() == 4, "struct"@.len() == 6, "export"@.len() == 6,
{
    reveal_strlit("#"); reveal_strlit(","); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit(":"); reveal_strlit("?"); reveal_strlit("[]");
    reveal_strlit("enum"); reveal_strlit("struct"); reveal_strlit("export");
}
pub proof fn lemma_reserved()
    ensures
        reserved(0) == "uint8"@, reserved(1) == "uint16"@, reserved(2) == "uint32"@, reserved(3) == "int8"@, reserved(4) == "int16"@, reserved(5) == "int32"@, reserved(6) == "float"@, reserved(7) == "string"@, reserved(8) == "enum"@, reserved(9) == "struct"@,
        forall|k: int| 0 <= k < 10 ==> 4 <= (#[trigger] reserved(k)).len() <= 6 && is_in(Class::Start, reserved(k)[0]),
        forall|k: int, j: int| 0 <= k < 10 && 0 <= j < reserved(k).len() ==> is_in(Class::Word, #[trigger] reserved(k)[j]),
        // no reserved word begins another
        forall|k: int, l: int| 0 <= k < 10 && 0 <= l < 10 && k != l ==> {
            let a = #[trigger] reserved(k); let b = #[trigger] reserved(l);
            a[0] != b[0] || a[3] != b[3] || (a.len() > 4 && b.len() > 4 && a[4] != b[4])
        },
{
    reveal_strlit("uint8"); reveal_strlit("uint16"); reveal_strlit("uint32"); reveal_strlit("int8"); reveal_strlit("int16"); reveal_strlit("int32"); reveal_strlit("float"); reveal_strlit("string"); reveal_strlit("enum"); reveal_strlit("struct");
}
/// a reserved word followed by no word character is the whole word
pub proof fn lemma_reserved_at(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures
        is_reserved(s.subrange(i, run(s, i, Class::Word))) ==> reserved_at(s, i, run(s, i, Class::Word))
            && forall|j: int| #[trigger] reserved_at(s, i, j) ==> j == run(s, i, Class::Word),
        forall|j: int| #[trigger] reserved_at(s, i, j) && !(j < s.len() && is_in(Class::Word, s[j]))
            ==> j == run(s, i, Class::Word) && is_reserved(s.subrange(i, j)),
{
    lemma_reserved();
    let e = run(s, i, Class::Word);
    lemma_run(s, i, Class::Word);
    if is_reserved(s.subrange(i, e)) {
        let k = choose|k: int| 0 <= k < 10 && s.subrange(i, e) == #[trigger] reserved(k);
        assert(matches(s, i, reserved(k)));
        assert forall|j: int| #[trigger] reserved_at(s, i, j) implies j == e by {
            let l = choose|l: int| 0 <= l < 10 && matches(s, i, #[trigger] reserved(l)) && j == i + reserved(l).len();
            lemma_one_word(s, i, k, l);
        }
    }
    assert forall|j: int| #[trigger] reserved_at(s, i, j) && !(j < s.len() && is_in(Class::Word, s[j])) implies j == e && is_reserved(s.subrange(i, j)) by {
        let l = choose|l: int| 0 <= l < 10 && matches(s, i, #[trigger] reserved(l)) && j == i + reserved(l).len();
        assert forall|m: int| i <= m < j implies is_in(Class::Word, #[trigger] s[m]) by { assert(s[m] == s.subrange(i, j)[m - i]); assert(s[m] == reserved(l)[m - i]); }
        lemma_run_is(s, i, j, Class::Word);
    }
}
pub proof fn lemma_one_word(s: Name, i: int, k: int, l: int)
    requires 0 <= k < 10, 0 <= l < 10, matches(s, i, reserved(k)), matches(s, i, reserved(l)),
    ensures k == l,
{
    lemma_reserved();
    let a = reserved(k); let b = reserved(l);
    assert(a[0] == s.subrange(i, i + a.len())[0] && b[0] == s.subrange(i, i + b.len())[0]);
    assert(a[3] == s.subrange(i, i + a.len())[3] && b[3] == s.subrange(i, i + b.len())[3]);
    if a.len() > 4 && b.len() > 4 { assert(a[4] == s.subrange(i, i + a.len())[4] && b[4] == s.subrange(i, i + b.len())[4]); }
}
pub proof fn lemma_run_is(s: Name, i: int, j: int, c: Class)
    requires 0 <= i <= j <= s.len(), forall|m: int| i <= m < j ==> is_in(c, #[trigger] s[m]), j < s.len() ==> !is_in(c, s[j]),
    ensures run(s, i, c) == j,
    decreases j - i,
{
    if i < j { assert(is_in(c, s[i])); lemma_run_is(s, i + 1, j, c); }
}
pub broadcast proof fn lemma_ident_end(s: Name, i: int)
    ensures #[trigger] p_ident(s, i) matches Some(j) ==> 0 <= i < j <= s.len(),
{ lemma_run(s, i + 1, Class::Word); }
pub broadcast proof fn lemma_comment_end(s: Name, i: int)
    ensures #[trigger] p_comment(s, i) matches Some(j) ==> 0 <= i < j <= s.len(),
{
    broadcast use lemma_run;
    lemma_lens();
}
pub broadcast proof fn lemma_variant_end(s: Name, i: int)
    ensures #[trigger] p_variant(s, i) matches Some((j, _)) ==> 0 <= i < j <= s.len() && run(s, j, Class::Space) == j,
{
    broadcast use {lemma_run, lemma_ident_end};
    lemma_lens();
}
pub broadcast proof fn lemma_field_end(s: Name, i: int)
    ensures #[trigger] p_field(s, i) matches Some((j, _)) ==> 0 <= i < j <= s.len() && run(s, j, Class::Space) == j,
{
    broadcast use {lemma_run, lemma_ident_end};
    lemma_lens();
}
pub proof fn lemma_type_end(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures p_type(s, i) matches Some((j, _)) ==> i < j <= s.len(),
{
    broadcast use lemma_run;
    lemma_lens();
    let a = run(s, i, Class::Blank);
    lemma_variants_end(s, run(s, run(s, a + 4, Class::Blank) + 1, Class::Space));
    lemma_fields_end(s, run(s, run(s, a + 6, Class::Blank) + 1, Class::Space));
}
/// nothing is left to skip after the variants
pub broadcast proof fn lemma_variants_tight(s: Name, i: int)
    requires run(s, i, Class::Space) == i,
    ensures run(s, (#[trigger] p_variants(s, i)).0, Class::Space) == p_variants(s, i).0,
    decreases s.len() - i,
{
    hide(p_variant);
    broadcast use lemma_variant_end;
    if let Some((j, _)) = p_variant(s, i) { lemma_variants_tight(s, j); }
}
pub proof fn lemma_variants_end(s: Name, i: int)
    ensures i <= p_variants(s, i).0, 0 <= i <= s.len() ==> p_variants(s, i).0 <= s.len(),
    decreases s.len() - i,
{
    if let Some((j, _)) = p_variant(s, i) { if i < j <= s.len() { lemma_variants_end(s, j); } }
}
/// nothing is left to skip after the fields
pub broadcast proof fn lemma_fields_tight(s: Name, i: int)
    requires run(s, i, Class::Space) == i,
    ensures run(s, (#[trigger] p_fields(s, i)).0, Class::Space) == p_fields(s, i).0,
    decreases s.len() - i,
{
    hide(p_field);
    broadcast use lemma_field_end;
    if let Some((j, _)) = p_field(s, i) { lemma_fields_tight(s, j); }
}
pub proof fn lemma_fields_end(s: Name, i: int)
    ensures i <= p_fields(s, i).0, 0 <= i <= s.len() ==> p_fields(s, i).0 <= s.len(),
    decreases s.len() - i,
{
    if let Some((j, _)) = p_field(s, i) { if i < j <= s.len() { lemma_fields_end(s, j); } }
}
pub broadcast proof fn lemma_line_end(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures #[trigger] p_line(s, i) matches Some((j, _)) ==> i < j <= s.len(),
{
    broadcast use {lemma_run, lemma_ident_end};
    lemma_lens();
    let a = run(s, i, Class::Blank);
    if let Some(b) = p_ident(s, run(s, a, Class::Blank)) {
        let c = run(s, b, Class::Blank);
        if matches(s, c, ":"@) { lemma_type_end(s, run(s, c + 1, Class::Blank)); }
    }
}
pub broadcast proof fn lemma_field_far(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures #[trigger] f_field(s, i) >= i, p_field(s, i) matches Some((j, _)) ==> f_field(s, i) == j,
{
    broadcast use {lemma_run, lemma_ident_end, lemma_field_end};
}
pub proof fn lemma_fields_stop(s: Name, i: int)
    ensures p_field(s, p_fields(s, i).0) is None,
    decreases s.len() - i,
{
    hide(p_field);
    broadcast use lemma_field_end;
    if let Some((j, _)) = p_field(s, i) { lemma_fields_stop(s, j); }
}
/// no field starts where a brace follows
pub proof fn lemma_brace(s: Name, d: int)
    requires 0 <= d <= s.len(), p_field(s, d) is None, matches(s, run(s, d, Class::Space), "}"@),
    ensures f_field(s, d) == d,
{
    hide(p_field);
    broadcast use lemma_run;
    reveal_strlit("}");
    let e = run(s, d, Class::Space);
    assert(s.subrange(e, e + 1)[0] == '}');
}
pub broadcast proof fn lemma_type_far(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures
        #[trigger] f_type(s, i) >= i, f_enum(s, i) >= run(s, i, Class::Blank), f_struct(s, i) >= run(s, i, Class::Blank),
        p_type(s, i) matches Some((j, _)) ==> i < j <= s.len() && f_type(s, i) <= j,
        p_enum(s, i) is Some ==> f_struct(s, i) <= f_enum(s, i),
        p_struct(s, i) is Some ==> f_enum(s, i) <= f_struct(s, i),
{
    hide(p_field);
    hide(f_field);
    hide(p_variants);
    hide(p_fields);
    broadcast use {lemma_run, lemma_field_far};
    lemma_lens();
    lemma_apart(s, i);
    lemma_type_end(s, i);
    let a = run(s, i, Class::Blank);
    lemma_variants_end(s, run(s, run(s, a + 4, Class::Blank) + 1, Class::Space));
    let f = run(s, run(s, a + 6, Class::Blank) + 1, Class::Space);
    lemma_fields_end(s, f);
    lemma_fields_stop(s, f);
    if p_struct(s, i) is Some { lemma_brace(s, p_fields(s, f).0); }
}
pub broadcast proof fn lemma_decl_far(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures #[trigger] f_decl(s, i) >= i, p_decl(s, i) matches Some((j, _)) ==> f_decl(s, i) == j && i < j <= s.len(),
{
    hide(p_type);
    hide(f_type);
    broadcast use {lemma_run, lemma_ident_end};
    lemma_lens();
    if let Some(b) = p_ident(s, run(s, i, Class::Blank)) {
        let c = run(s, b, Class::Blank);
        if matches(s, c, ":"@) { lemma_type_far(s, run(s, c + 1, Class::Blank)); }
    }
}
pub broadcast proof fn lemma_line_far(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures #[trigger] f_line(s, i) >= i, p_line(s, i) matches Some((j, _)) ==> f_line(s, i) == j,
{
    hide(p_decl);
    hide(f_decl);
    broadcast use {lemma_run, lemma_line_end, lemma_decl_far};
    lemma_lens();
}
// ===================== names ===================================================
pub open spec fn ident(n: Name) -> bool {
    n.len() > 0 && is_in(Class::Start, n[0]) && (forall|k: int| 0 <= k < n.len() ==> is_in(Class::Word, #[trigger] n[k])) && !is_reserved(n)
}
pub open spec fn good_type(t: GType) -> bool {
    match t {
        GType::Enum(v) => forall|k: int| 0 <= k < v.len() ==> ident(#[trigger] v[k]),
        GType::Struct(f) => forall|k: int| 0 <= k < f.len() ==> ident((#[trigger] f[k]).name),
    }
}
pub open spec fn good_node(n: GNode) -> bool { n matches GNode::Decl(x, t) ==> ident(x) && good_type(t) }
pub proof fn lemma_ident_name(s: Name, i: int)
    ensures p_ident(s, i) matches Some(j) ==> 0 <= i < j <= s.len() && ident(s.subrange(i, j)),
{
    lemma_run(s, i, Class::Word);
    lemma_run(s, i + 1, Class::Word);
    if let Some(j) = p_ident(s, i) {
        assert forall|k: int| 0 <= k < j - i implies is_in(Class::Word, #[trigger] s.subrange(i, j)[k]) by { assert(is_in(Class::Word, s[i + k])); }
    }
}
pub proof fn lemma_variants_good(s: Name, i: int)
    ensures forall|k: int| 0 <= k < p_variants(s, i).1.len() ==> ident(#[trigger] p_variants(s, i).1[k]),
    decreases s.len() - i,
{
    if let Some((j, n)) = p_variant(s, i) { if i < j <= s.len() {
        lemma_variants_good(s, j);
        lemma_ident_name(s, i);
        let v = p_variants(s, j).1;
        assert forall|k: int| 0 <= k < (seq![n] + v).len() implies ident(#[trigger] (seq![n] + v)[k]) by { if k > 0 { assert(ident(v[k - 1])); } }
    } }
}
pub proof fn lemma_somes_cons<T>(x: Option<T>, v: Seq<Option<T>>)
    ensures somes(seq![x] + v) == (match x { Some(y) => seq![y] + somes(v), None => somes(v) }),
    decreases v.len(),
{
    let w = seq![x] + v;
    if v.len() == 0 {
        assert(w.drop_last() =~= Seq::empty());
        assert(w.last() == x);
        assert(somes(w.drop_last()) =~= Seq::empty());
        if let Some(y) = x { assert(somes(w) =~= seq![y] + somes(v)); } else { assert(somes(w) =~= somes(v)); }
    } else {
        lemma_somes_cons(x, v.drop_last());
        assert(w.drop_last() =~= seq![x] + v.drop_last());
        assert(w.last() == v.last());
        if let Some(y) = x { assert(somes(w) =~= seq![y] + somes(v)); } else { assert(somes(w) =~= somes(v)); }
    }
}
pub proof fn lemma_fields_good(s: Name, i: int)
    ensures forall|k: int| 0 <= k < somes(p_fields(s, i).1).len() ==> ident((#[trigger] somes(p_fields(s, i).1)[k]).name),
    decreases s.len() - i,
{
    if let Some((j, n)) = p_field(s, i) { if i < j <= s.len() {
        lemma_fields_good(s, j);
        lemma_ident_name(s, i);
        let v = p_fields(s, j).1;
        lemma_somes_cons(n, v);
        if let Some(y) = n {
            let f = seq![y] + somes(v);
            assert forall|k: int| 0 <= k < f.len() implies ident((#[trigger] f[k]).name) by { if k > 0 { assert(ident(somes(v)[k - 1].name)); } }
        }
    } }
}
pub proof fn lemma_lines_good(s: Name, i: int)
    ensures forall|k: int| 0 <= k < somes(p_lines(s, i).1).len() ==> good_node(#[trigger] somes(p_lines(s, i).1)[k]),
    decreases s.len() - i,
{
    if let Some((j, n)) = p_line(s, i) { if i < j <= s.len() {
        lemma_lines_good(s, j);
        let a = run(s, run(s, i, Class::Blank), Class::Blank);
        lemma_ident_name(s, a);
        if let Some(b) = p_ident(s, a) {
            let c = run(s, run(s, b, Class::Blank) + 1, Class::Blank);
            let d = run(s, c, Class::Blank);
            lemma_variants_good(s, run(s, run(s, d + 4, Class::Blank) + 1, Class::Space));
            lemma_fields_good(s, run(s, run(s, d + 6, Class::Blank) + 1, Class::Space));
        }
        let v = p_lines(s, j).1;
        lemma_somes_cons(n, v);
        if let Some(y) = n {
            assert(good_node(y));
            let f = seq![y] + somes(v);
            assert forall|k: int| 0 <= k < f.len() implies good_node(#[trigger] f[k]) by { if k > 0 { assert(good_node(somes(v)[k - 1])); } }
        }
    } }
}
/// no declaration, field or variant is named by a reserved word
pub proof fn theorem_names(s: Name)
    ensures p_schema(s) matches Some(v) ==> forall|k: int| 0 <= k < v.len() ==> good_node(#[trigger] v[k]), // #C12
{ lemma_lines_good(s, run(s, 0, Class::Space)); }
/// a word is a name exactly when it begins with a letter or _ and is not, as a whole, reserved
pub proof fn theorem_ident(s: Name, i: int, n: Name)
    requires matches(s, i, n), n.len() > 0, is_in(Class::Start, n[0]), forall|k: int| 0 <= k < n.len() ==> is_in(Class::Word, #[trigger] n[k]),
        i + n.len() < s.len() ==> !is_in(Class::Word, s[i + n.len()]),
    ensures p_ident(s, i) == (if is_reserved(n) { None } else { Some(i + n.len()) }), // #C12
{
    let j = i + n.len();
    assert forall|m: int| i <= m < j implies is_in(Class::Word, #[trigger] s[m]) by { assert(s[m] == s.subrange(i, j)[m - i]); assert(s[m] == n[m - i]); }
    assert(s[i] == s.subrange(i, j)[0]);
    lemma_run_is(s, i, j, Class::Word);
}
// ===================== what the parser's rules promise ========================
/// what every rule needs: n more nested predicates may be counted
pub open spec fn pre(s: Name, e: ErrorState, p: usize, n: int) -> bool { ok(s, p) && ok(s, e.max_err_pos) && e.suppress_fail <= n }
pub open spec fn post(s: Name, a: ErrorState, b: ErrorState) -> bool { ok(s, b.max_err_pos) && b.suppress_fail == a.suppress_fail && grown(a, b) }
/// the furthest failure is kept, and only moves where failures are noted
pub open spec fn grown(a: ErrorState, b: ErrorState) -> bool {
    b.reparsing_on_error == a.reparsing_on_error && b.max_err_pos >= a.max_err_pos && (still(a) ==> b.max_err_pos == a.max_err_pos)
}
/// failures are not noted
pub open spec fn still(a: ErrorState) -> bool { a.suppress_fail > 0 || a.reparsing_on_error }
/// the furthest failure in between was at f
pub open spec fn noted(s: Name, a: ErrorState, b: ErrorState, f: int) -> bool { still(a) || ix(s, b.max_err_pos) == most(ix(s, a.max_err_pos), f) }
/// matched exactly when there is an end, and ends there
pub open spec fn done<T>(s: Name, r: RuleResult<T>, j: Option<int>) -> bool {
    match (r, j) {
        (RuleResult::Matched(q, _), Some(j)) => ok(s, q) && ix(s, q) == j,
        (RuleResult::Failed, None) => true,
        _ => false,
    }
}
pub open spec fn fst<T>(x: Option<(int, T)>) -> Option<int> { match x { Some((j, _)) => Some(j), None => None } }
} // verus!
}
//@raw parser.use
use crate::ast::*;
use crate::peg::*;
use crate::grammar::*;
//@raw parser
pub type PositionRepr = crate::peg::str::LineCol;
broadcast use {crate::prelude::lemma_ix, lemma_order, lemma_run, lemma_strs_push, lemma_ofields_push, lemma_onodes_push};
//@fn parser::__parse__ -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 20),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), run($1@, ix($1@, $4), Class::Blank)), // #C13
        done($1@, r, Some(run($1@, ix($1@, $4), Class::Blank))),
//@loop 1
    invariant_except_break noted($1@, *old($3), *$3, 0), // #C13
    invariant pre($1@, *$3, __repeat_pos, 20), post($1@, *old($3), *$3), ok($1@, __pos), ix($1@, __pos) <= ix($1@, __repeat_pos),
        run($1@, ix($1@, __repeat_pos), Class::Blank) == run($1@, ix($1@, __pos), Class::Blank),
    ensures ix($1@, __repeat_pos) == run($1@, ix($1@, __pos), Class::Blank),
        noted($1@, *old($3), *$3, ix($1@, __repeat_pos)), // #C13
    decreases $1@.len() - ix($1@, __repeat_pos),
//@fn parser::__parse___ -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 20),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), run($1@, ix($1@, $4), Class::Eol)), // #C13
        done($1@, r, Some(run($1@, ix($1@, $4), Class::Eol))),
//@loop 1
    invariant_except_break noted($1@, *old($3), *$3, 0), // #C13
    invariant pre($1@, *$3, __repeat_pos, 20), post($1@, *old($3), *$3), ok($1@, __pos), ix($1@, __pos) <= ix($1@, __repeat_pos),
        run($1@, ix($1@, __repeat_pos), Class::Eol) == run($1@, ix($1@, __pos), Class::Eol),
    ensures ix($1@, __repeat_pos) == run($1@, ix($1@, __pos), Class::Eol),
        noted($1@, *old($3), *$3, ix($1@, __repeat_pos)), // #C13
    decreases $1@.len() - ix($1@, __repeat_pos),
//@fn parser::__parse____ -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 20),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), run($1@, ix($1@, $4), Class::Space)), // #C13
        done($1@, r, Some(run($1@, ix($1@, $4), Class::Space))),
//@loop 1
    invariant_except_break noted($1@, *old($3), *$3, 0), // #C13
    invariant pre($1@, *$3, __repeat_pos, 20), post($1@, *old($3), *$3), ok($1@, __pos), ix($1@, __pos) <= ix($1@, __repeat_pos),
        run($1@, ix($1@, __repeat_pos), Class::Space) == run($1@, ix($1@, __pos), Class::Space),
    ensures ix($1@, __repeat_pos) == run($1@, ix($1@, __pos), Class::Space),
        noted($1@, *old($3), *$3, ix($1@, __repeat_pos)), // #C13
    decreases $1@.len() - ix($1@, __repeat_pos),
//@fn parser::__parse_comment -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 10),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), match p_comment($1@, ix($1@, $4)) { Some(j) => j, None => ix($1@, $4) }), // #C13
        done($1@, r, p_comment($1@, ix($1@, $4))),
//@entry
    proof { lemma_lens(); }
//@loop 1
    invariant_except_break noted($1@, *old($3), *$3, 0), // #C13
    invariant pre($1@, *$3, __repeat_pos, 10), post($1@, *old($3), *$3), ok($1@, __pos), ix($1@, __pos) <= ix($1@, __repeat_pos),
        run($1@, ix($1@, __repeat_pos), Class::Line) == run($1@, ix($1@, __pos), Class::Line),
    ensures ix($1@, __repeat_pos) == run($1@, ix($1@, __pos), Class::Line),
        noted($1@, *old($3), *$3, ix($1@, __repeat_pos)), // #C13
    decreases $1@.len() - ix($1@, __repeat_pos),
//@fn parser::__parse_string -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 10),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), run($1@, ix($1@, $4), Class::Word)), // #C13
        done($1@, r, Some(run($1@, ix($1@, $4), Class::Word))),
        r->1@ == $1@.subrange(ix($1@, $4), run($1@, ix($1@, $4), Class::Word)),
//@entry
    proof { lemma_lens(); }
//@loop 1
    invariant_except_break noted($1@, *old($3), *$3, 0), // #C13
    invariant pre($1@, *$3, __repeat_pos, 10), post($1@, *old($3), *$3), ok($1@, __pos), ix($1@, __pos) <= ix($1@, __repeat_pos),
        run($1@, ix($1@, __repeat_pos), Class::Word) == run($1@, ix($1@, __pos), Class::Word),
    ensures ix($1@, __repeat_pos) == run($1@, ix($1@, __pos), Class::Word),
        noted($1@, *old($3), *$3, ix($1@, __repeat_pos)), // #C13
    decreases $1@.len() - ix($1@, __repeat_pos),
//@fn parser::__parse_reserved -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 20),
    ensures post($1@, *old($3), *final($3)),
        r matches RuleResult::Matched(q, _) ==> ok($1@, q) && reserved_at($1@, ix($1@, $4), ix($1@, q)),
        r is Failed ==> forall|j: int| !reserved_at($1@, ix($1@, $4), j),
//@entry
    proof { lemma_reserved(); }
//@fn parser::__parse_ident_start -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 20),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), if ix($1@, $4) < $1@.len() && is_in(Class::Start, $1@[ix($1@, $4)]) { 0 } else { ix($1@, $4) }), // #C13
        done($1@, r, if ix($1@, $4) < $1@.len() && is_in(Class::Start, $1@[ix($1@, $4)]) { Some(ix($1@, $4) + 1) } else { None }),
//@entry
    proof { lemma_lens(); }
//@fn parser::__parse_ident_chars -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 20),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), if ix($1@, $4) < $1@.len() && is_in(Class::Word, $1@[ix($1@, $4)]) { 0 } else { ix($1@, $4) }), // #C13
        done($1@, r, if ix($1@, $4) < $1@.len() && is_in(Class::Word, $1@[ix($1@, $4)]) { Some(ix($1@, $4) + 1) } else { None }),
//@entry
    proof { lemma_lens(); }
//@fn parser::__parse_ident -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 10),
    ensures post($1@, *old($3), *final($3)),
        final($3).max_err_pos == old($3).max_err_pos, // #C13
        done($1@, r, p_ident($1@, ix($1@, $4))),
        r matches RuleResult::Matched(_, v) ==> v@ == $1@.subrange(ix($1@, $4), p_ident($1@, ix($1@, $4))->0),
//@entry
    proof { lemma_reserved_at($1@, ix($1@, $4)); }
//@loop 1
    invariant pre($1@, *$3, __repeat_pos, 12), ok($1@, $3.max_err_pos), $3.suppress_fail == old($3).suppress_fail + 1, grown(*old($3), *$3), $3.max_err_pos == old($3).max_err_pos, ok($1@, __pos), ix($1@, __pos) <= ix($1@, __repeat_pos),
        run($1@, ix($1@, __repeat_pos), Class::Word) == run($1@, ix($1@, __pos), Class::Word),
    ensures ix($1@, __repeat_pos) == run($1@, ix($1@, __pos), Class::Word),
    decreases $1@.len() - ix($1@, __repeat_pos),
//@fn parser::__parse_enum_variant -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 8),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), match p_variant($1@, ix($1@, $4)) { Some((j, _)) => j, None => 0 }), // #C13
        done($1@, r, fst(p_variant($1@, ix($1@, $4)))),
        r matches RuleResult::Matched(_, v) ==> v@ == (p_variant($1@, ix($1@, $4))->0).1,
//@entry
    proof { lemma_lens(); }
//@fn parser::__parse_enum_type -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 8),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), f_enum($1@, ix($1@, $4))), // #C13
        done($1@, r, fst(p_enum($1@, ix($1@, $4)))),
        r matches RuleResult::Matched(_, v) ==> GType::Enum(strs(v.0@)) == (p_enum($1@, ix($1@, $4))->0).1,
//@entry
    hide(p_variant);
    broadcast use {lemma_variant_end, lemma_variants_tight};
    proof { lemma_lens(); }
//@loop 1
    invariant_except_break noted($1@, *old($3), *$3, ix($1@, __repeat_pos)), // #C13
    invariant pre($1@, *$3, __repeat_pos, 8), post($1@, *old($3), *$3), ok($1@, __pos),
        p_variants($1@, ix($1@, __pos)) == (p_variants($1@, ix($1@, __repeat_pos)).0, strs(__repeat_value@) + p_variants($1@, ix($1@, __repeat_pos)).1),
    ensures p_variants($1@, ix($1@, __pos)) == (ix($1@, __repeat_pos), strs(__repeat_value@)),
        noted($1@, *old($3), *$3, ix($1@, __repeat_pos)), // #C13
    decreases $1@.len() - ix($1@, __repeat_pos),
//@fn parser::__parse_struct_field -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 8),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), f_field($1@, ix($1@, $4))), // #C13
        done($1@, r, fst(p_field($1@, ix($1@, $4)))),
        r matches RuleResult::Matched(_, v) ==> g_ofield(v) == (p_field($1@, ix($1@, $4))->0).1,
//@entry
    hide(p_ident);
    hide(p_comment);
    broadcast use {lemma_ident_end, lemma_comment_end};
    proof { lemma_lens(); lemma_apart($1@, ix($1@, $4)); }
//@fn parser::__parse_struct_type -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 8),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), f_struct($1@, ix($1@, $4))), // #C13
        done($1@, r, fst(p_struct($1@, ix($1@, $4)))),
        r matches RuleResult::Matched(_, v) ==> GType::Struct(g_fields(v.0@)) == (p_struct($1@, ix($1@, $4))->0).1,
//@entry
    hide(p_field);
    hide(f_field);
    broadcast use {lemma_field_end, lemma_field_far, lemma_fields_tight, lemma_somes_fields};
    proof { lemma_lens(); }
//@loop 1
    invariant_except_break noted($1@, *old($3), *$3, ix($1@, __repeat_pos)), // #C13
    invariant pre($1@, *$3, __repeat_pos, 8), post($1@, *old($3), *$3), ok($1@, __pos),
        p_fields($1@, ix($1@, __pos)) == (p_fields($1@, ix($1@, __repeat_pos)).0, g_ofields(__repeat_value@) + p_fields($1@, ix($1@, __repeat_pos)).1),
    ensures p_fields($1@, ix($1@, __pos)) == (ix($1@, __repeat_pos), g_ofields(__repeat_value@)),
        noted($1@, *old($3), *$3, f_field($1@, ix($1@, __repeat_pos))), // #C13
    decreases $1@.len() - ix($1@, __repeat_pos),
//@fn parser::__parse_type -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 8),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), f_type($1@, ix($1@, $4))), // #C13
        done($1@, r, fst(p_type($1@, ix($1@, $4)))),
        r matches RuleResult::Matched(_, v) ==> g_type(v) == (p_type($1@, ix($1@, $4))->0).1,
//@entry
    hide(p_enum);
    hide(p_struct);
    hide(f_enum);
    hide(f_struct);
    broadcast use lemma_type_far;
    proof { lemma_lens(); lemma_apart($1@, ix($1@, $4)); lemma_blank($1@, ix($1@, $4)); }
//@fn parser::__parse_export -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 8),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), if !matches($1@, ix($1@, $4), "export"@) { ix($1@, $4) } else { match p_export($1@, ix($1@, $4)) { Some((j, _)) => j, None => 0 } }), // #C13
        done($1@, r, fst(p_export($1@, ix($1@, $4)))),
        r matches RuleResult::Matched(_, v) ==> g_node(v) == (p_export($1@, ix($1@, $4))->0).1,
//@entry
    proof { lemma_lens(); }
//@fn parser::__parse_line -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 8),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), f_line($1@, ix($1@, $4))), // #C13
        done($1@, r, fst(p_line($1@, ix($1@, $4)))),
        r matches RuleResult::Matched(_, v) ==> g_onode(v) == (p_line($1@, ix($1@, $4))->0).1,
//@entry
    hide(p_type);
    hide(f_type);
    broadcast use {lemma_type_far, lemma_decl_far};
    proof { lemma_lens(); lemma_apart($1@, run($1@, ix($1@, $4), Class::Blank)); }
//@fn parser::__parse_schema -> r
//@prop C11 C12
    requires pre($1@, *old($3), $4, 8),
    ensures post($1@, *old($3), *final($3)),
        noted($1@, *old($3), *final($3), f_line($1@, p_lines($1@, run($1@, ix($1@, $4), Class::Space)).0)), // #C13
        r matches RuleResult::Matched(q, v) && ok($1@, q) && ({
            let (e, l) = p_lines($1@, run($1@, ix($1@, $4), Class::Space));
            ix($1@, q) == e && g_ast(v@) == somes(l)
        }),
//@entry
    hide(p_line);
    hide(f_line);
    broadcast use {lemma_line_end, lemma_line_far, lemma_somes_nodes};

//@loop 1
    invariant_except_break noted($1@, *old($3), *$3, ix($1@, __repeat_pos)), // #C13
    invariant pre($1@, *$3, __repeat_pos, 8), post($1@, *old($3), *$3), ok($1@, __pos),
        p_lines($1@, ix($1@, __pos)) == (p_lines($1@, ix($1@, __repeat_pos)).0, g_onodes(__repeat_value@) + p_lines($1@, ix($1@, __repeat_pos)).1),
    ensures p_lines($1@, ix($1@, __pos)) == (ix($1@, __repeat_pos), g_onodes(__repeat_value@)),
        noted($1@, *old($3), *$3, f_line($1@, ix($1@, __repeat_pos))), // #C13
    decreases $1@.len() - ix($1@, __repeat_pos),
//@fn parser::schema -> r
//@prop C11 C12 C13 C16
    ensures
        r matches Ok(v) ==> p_schema($1@) == Some(g_ast(v@)), // #C11 #C12
        r is Err ==> p_schema($1@) is None, // #C11 #C12
        r matches Err(e) ==> located_at($1@, failing($1@), e.location), // #C13
//@entry
    hide(p_line);
    hide(f_line);
    broadcast use {lemma_line_end, lemma_line_far};
//@fn parser::ParseState::new -> r
