//@raw top
// ---------------------------------------------------------------------------
// The schema format, without an algorithm: how a text is made of pieces.  White
// space belongs to what stands before it; every word is as long as it can be.
// ---------------------------------------------------------------------------
pub mod layout {
use vstd::prelude::*;
use crate::prelude::*;
use crate::peg::*;
use crate::grammar::*;
verus! {
/// at most one comma, with white space around it
pub struct LTail { pub w1: Name, pub comma: bool, pub w2: Name }
pub struct LVar { pub name: Name, pub tail: LTail }
pub struct LCom { pub body: Name, pub sp: Name }
pub enum LFld {
    Comment(LCom),
    Field { name: Name, b1: Name, opt: bool, b2: Name, ty: Name, arr: bool, tail: LTail },
}
pub enum LTy {
    Enum { b1: Name, w0: Name, vars: Seq<LVar>, end: int },
    Struct { b1: Name, w0: Name, flds: Seq<LFld>, end: int },
}
pub enum LNode {
    Comment(LCom),
    Export { b1: Name, name: Name, sp: Name },
    Decl { name: Name, b1: Name, b2: Name, ty: LTy, sp: Name },
}
pub struct LSchema { pub w0: Name, pub nodes: Seq<LNode> }

// ---- what it says
pub open spec fn m_var(v: LVar) -> Name { v.name }
pub open spec fn m_vars(v: Seq<LVar>) -> Seq<Name> { v.map_values(|x: LVar| m_var(x)) }
pub open spec fn m_fld(f: LFld) -> Option<GField> {
    match f { LFld::Comment(_) => None, LFld::Field { name, b1, opt, b2, ty, arr, tail } => Some(GField { name, ty, arr, opt }) }
}
pub open spec fn m_flds(v: Seq<LFld>) -> Seq<Option<GField>> { v.map_values(|x: LFld| m_fld(x)) }
pub open spec fn m_ty(t: LTy) -> GType {
    match t { LTy::Enum { b1, w0, vars, end } => GType::Enum(m_vars(vars)), LTy::Struct { b1, w0, flds, end } => GType::Struct(somes(m_flds(flds))) }
}
pub open spec fn m_node(n: LNode) -> Option<GNode> {
    match n { LNode::Comment(_) => None, LNode::Export { b1, name, sp } => Some(GNode::Export(name)), LNode::Decl { name, b1, b2, ty, sp } => Some(GNode::Decl(name, m_ty(ty))) }
}
pub open spec fn m_nodes(v: Seq<LNode>) -> Seq<Option<GNode>> { v.map_values(|x: LNode| m_node(x)) }
pub open spec fn meaning(l: LSchema) -> Seq<GNode> { somes(m_nodes(l.nodes)) }

// ---- how it is written
/// t stands at i and has only characters of the class
pub open spec fn piece(s: Name, i: int, t: Name, c: Class) -> bool { matches(s, i, t) && forall|k: int| 0 <= k < t.len() ==> is_in(c, #[trigger] t[k]) }
/// no character of the class stands at j
pub open spec fn stop(s: Name, j: int, c: Class) -> bool { j < s.len() ==> !is_in(c, s[j]) }
/// the whole word at i
pub open spec fn word(s: Name, i: int, n: Name) -> bool { matches(s, i, n) && stop(s, i + n.len(), Class::Word) }
pub open spec fn tail_end(i: int, t: LTail) -> int { i + t.w1.len() + (if t.comma { 1int } else { 0 }) + t.w2.len() }
pub open spec fn tail_at(s: Name, i: int, t: LTail) -> bool {
    let b = i + t.w1.len();
    &&& piece(s, i, t.w1, Class::Space)
    &&& if t.comma { matches(s, b, ","@) && piece(s, b + 1, t.w2, Class::Space) } else { t.w2.len() == 0 && !matches(s, b, ","@) }
    &&& stop(s, tail_end(i, t), Class::Space)
}
pub open spec fn var_end(i: int, v: LVar) -> int { tail_end(i + v.name.len(), v.tail) }
pub open spec fn var_at(s: Name, i: int, v: LVar) -> bool { word(s, i, v.name) && ident(v.name) && tail_at(s, i + v.name.len(), v.tail) }
pub open spec fn vars_at(s: Name, i: int, v: Seq<LVar>, j: int) -> bool
    decreases v.len(),
{
    if v.len() == 0 { i == j } else { var_at(s, i, v[0]) && vars_at(s, var_end(i, v[0]), v.skip(1), j) }
}
/// a comment reaches to the end of the line
pub open spec fn com_end(i: int, c: LCom) -> int { i + 1 + c.body.len() + c.sp.len() }
pub open spec fn com_at(s: Name, i: int, c: LCom) -> bool {
    let b = i + 1 + c.body.len();
    matches(s, i, "#"@) && piece(s, i + 1, c.body, Class::Line) && stop(s, b, Class::Line) && piece(s, b, c.sp, Class::Space) && stop(s, com_end(i, c), Class::Space)
}
pub open spec fn fld_end(i: int, f: LFld) -> int {
    match f {
        LFld::Comment(c) => com_end(i, c),
        LFld::Field { name, b1, opt, b2, ty, arr, tail } =>
            tail_end(i + name.len() + b1.len() + (if opt { 1int } else { 0 }) + 1 + b2.len() + ty.len() + (if arr { 2int } else { 0 }), tail),
    }
}
pub open spec fn fld_at(s: Name, i: int, f: LFld) -> bool {
    match f {
        LFld::Comment(c) => com_at(s, i, c),
        LFld::Field { name, b1, opt, b2, ty, arr, tail } => {
            let a = i + name.len();
            let b = a + b1.len();
            let c = if opt { b + 1 } else { b };
            let d = c + 1 + b2.len();
            let e = d + ty.len();
            &&& word(s, i, name) && ident(name)
            &&& piece(s, a, b1, Class::Blank)
            &&& (opt ==> matches(s, b, "?"@))
            &&& matches(s, c, ":"@)
            &&& piece(s, c + 1, b2, Class::Blank) && stop(s, d, Class::Blank)
            &&& piece(s, d, ty, Class::Word) && stop(s, e, Class::Word)
            &&& arr == matches(s, e, "[]"@)
            &&& tail_at(s, if arr { e + 2 } else { e }, tail)
        },
    }
}
pub open spec fn flds_at(s: Name, i: int, v: Seq<LFld>, j: int) -> bool
    decreases v.len(),
{
    if v.len() == 0 { i == j } else { fld_at(s, i, v[0]) && flds_at(s, fld_end(i, v[0]), v.skip(1), j) }
}
pub open spec fn ty_end(t: LTy) -> int { match t { LTy::Enum { b1, w0, vars, end } => end + 1, LTy::Struct { b1, w0, flds, end } => end + 1 } }
pub open spec fn ty_at(s: Name, i: int, t: LTy) -> bool {
    match t {
        LTy::Enum { b1, w0, vars, end } => {
            let b = i + 4 + b1.len();
            let c = b + 1 + w0.len();
            matches(s, i, "enum"@) && piece(s, i + 4, b1, Class::Blank) && matches(s, b, "{"@) && piece(s, b + 1, w0, Class::Space) && stop(s, c, Class::Space)
                && vars_at(s, c, vars, end) && matches(s, end, "}"@)
        },
        LTy::Struct { b1, w0, flds, end } => {
            let b = i + 6 + b1.len();
            let c = b + 1 + w0.len();
            matches(s, i, "struct"@) && piece(s, i + 6, b1, Class::Blank) && matches(s, b, "{"@) && piece(s, b + 1, w0, Class::Space) && stop(s, c, Class::Space)
                && flds_at(s, c, flds, end) && matches(s, end, "}"@)
        },
    }
}
pub open spec fn node_end(i: int, n: LNode) -> int {
    match n {
        LNode::Comment(c) => com_end(i, c),
        LNode::Export { b1, name, sp } => i + 6 + b1.len() + name.len() + sp.len(),
        LNode::Decl { name, b1, b2, ty, sp } => ty_end(ty) + sp.len(),
    }
}
pub open spec fn node_at(s: Name, i: int, n: LNode) -> bool {
    match n {
        LNode::Comment(c) => com_at(s, i, c),
        LNode::Export { b1, name, sp } => {
            let a = i + 6 + b1.len();
            let b = a + name.len();
            word(s, i, "export"@) && piece(s, i + 6, b1, Class::Blank) && stop(s, a, Class::Blank) && piece(s, a, name, Class::Word) && stop(s, b, Class::Word)
                && piece(s, b, sp, Class::Space) && stop(s, b + sp.len(), Class::Space)
        },
        LNode::Decl { name, b1, b2, ty, sp } => {
            let a = i + name.len();
            let b = a + b1.len();
            &&& word(s, i, name) && ident(name) && name != "export"@
            &&& piece(s, a, b1, Class::Blank)
            &&& matches(s, b, ":"@)
            &&& piece(s, b + 1, b2, Class::Blank)
            &&& ty_at(s, b + 1 + b2.len(), ty)
            &&& piece(s, ty_end(ty), sp, Class::Space) && stop(s, ty_end(ty) + sp.len(), Class::Space)
        },
    }
}
pub open spec fn nodes_at(s: Name, i: int, v: Seq<LNode>, j: int) -> bool
    decreases v.len(),
{
    if v.len() == 0 { i == j } else { node_at(s, i, v[0]) && nodes_at(s, node_end(i, v[0]), v.skip(1), j) }
}
/// s is written as l
pub open spec fn written(s: Name, l: LSchema) -> bool {
    piece(s, 0, l.w0, Class::Space) && stop(s, l.w0.len() as int, Class::Space) && nodes_at(s, l.w0.len() as int, l.nodes, s.len() as int)
}

// ===================== every layout is read as what it says ====================
pub proof fn lemma_piece(s: Name, i: int, t: Name, c: Class)
    requires piece(s, i, t, c), stop(s, i + t.len(), c),
    ensures run(s, i, c) == i + t.len(),
{
    let j = i + t.len();
    assert forall|m: int| i <= m < j implies is_in(c, #[trigger] s[m]) by { assert(s[m] == s.subrange(i, j)[m - i]); assert(is_in(c, t[m - i])); }
    lemma_run_is(s, i, j, c);
}
pub proof fn lemma_one(s: Name, i: int)
    ensures
        matches(s, i, "#"@) <==> 0 <= i < s.len() && s[i] == '#', matches(s, i, ","@) <==> 0 <= i < s.len() && s[i] == ',',
        matches(s, i, "{"@) <==> 0 <= i < s.len() && s[i] == '{', matches(s, i, "}"@) <==> 0 <= i < s.len() && s[i] == '}',
        matches(s, i, ":"@) <==> 0 <= i < s.len() && s[i] == ':', matches(s, i, "?"@) <==> 0 <= i < s.len() && s[i] == '?',
        matches(s, i, "enum"@) ==> 0 <= i < s.len() && s[i] == 'e', matches(s, i, "struct"@) ==> 0 <= i < s.len() && s[i] == 's',
        matches(s, i, "export"@) ==> 0 <= i < s.len() && s[i] == 'e',
        matches(s, i, "[]"@) ==> 0 <= i < s.len() && s[i] == '[',
{
    reveal_strlit("#"); reveal_strlit(","); reveal_strlit("{"); reveal_strlit("}"); reveal_strlit(":"); reveal_strlit("?"); reveal_strlit("[]");
    reveal_strlit("enum"); reveal_strlit("struct"); reveal_strlit("export");
    if 0 <= i < s.len() {
        let u = s.subrange(i, i + 1);
        assert(u[0] == s[i]);
        assert(u == "#"@ <==> u =~= "#"@); assert(u == ","@ <==> u =~= ","@); assert(u == "{"@ <==> u =~= "{"@); assert(u == "}"@ <==> u =~= "}"@);
        assert(u == ":"@ <==> u =~= ":"@); assert(u == "?"@ <==> u =~= "?"@);
    }
    if matches(s, i, "enum"@) { assert(s.subrange(i, i + 4)[0] == s[i]); }
    if matches(s, i, "struct"@) { assert(s.subrange(i, i + 6)[0] == s[i]); }
    if matches(s, i, "export"@) { assert(s.subrange(i, i + 6)[0] == s[i]); }
    if matches(s, i, "[]"@) { assert(s.subrange(i, i + 2)[0] == s[i]); }
}
pub proof fn lemma_tail(s: Name, i: int, t: LTail)
    requires tail_at(s, i, t),
    ensures p_end(s, i) == tail_end(i, t), i <= tail_end(i, t) <= s.len(),
{
    lemma_lens();
    let b = i + t.w1.len();
    lemma_one(s, b);
    lemma_piece(s, i, t.w1, Class::Space);
    if t.comma { lemma_piece(s, b + 1, t.w2, Class::Space); }
}
pub proof fn lemma_word(s: Name, i: int, n: Name)
    requires word(s, i, n), ident(n),
    ensures p_ident(s, i) == Some(i + n.len()), s.subrange(i, i + n.len()) == n, is_in(Class::Start, s[i]), i < s.len(),
{
    theorem_ident(s, i, n);
    assert(s[i] == s.subrange(i, i + n.len())[0]);
}
pub proof fn lemma_vars(s: Name, i: int, v: Seq<LVar>, j: int)
    requires vars_at(s, i, v, j), matches(s, j, "}"@), 0 <= i <= s.len(), stop(s, i, Class::Space),
    ensures p_variants(s, i) == (j, m_vars(v)), i <= j, stop(s, j, Class::Space),
    decreases v.len(),
{
    lemma_one(s, j);
    if v.len() == 0 { assert(m_vars(v) =~= seq![]); } else {
        let x = v[0];
        lemma_word(s, i, x.name);
        lemma_tail(s, i + x.name.len(), x.tail);
        lemma_vars(s, var_end(i, x), v.skip(1), j);
        assert(m_vars(v) =~= seq![x.name] + m_vars(v.skip(1)));
    }
}
pub proof fn lemma_eol(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures run(s, run(s, i, Class::Eol), Class::Space) == run(s, i, Class::Space),
    decreases s.len() - i,
{ if i < s.len() && is_in(Class::Eol, s[i]) { lemma_eol(s, i + 1); } }
pub proof fn lemma_com(s: Name, i: int, c: LCom)
    requires com_at(s, i, c),
    ensures p_comment(s, i) matches Some(b) && run(s, b, Class::Space) == com_end(i, c), 0 <= i < com_end(i, c) <= s.len(),
{
    lemma_lens();
    let b = i + 1 + c.body.len();
    lemma_piece(s, i + 1, c.body, Class::Line);
    lemma_piece(s, b, c.sp, Class::Space);
    lemma_eol(s, b);
}
pub proof fn lemma_fld(s: Name, i: int, f: LFld)
    requires fld_at(s, i, f), 0 <= i <= s.len(),
    ensures p_field(s, i) == Some((fld_end(i, f), m_fld(f))), i < fld_end(i, f) <= s.len(), stop(s, fld_end(i, f), Class::Space),
{
    lemma_lens();
    match f {
        LFld::Comment(c) => lemma_com(s, i, c),
        LFld::Field { name, b1, opt, b2, ty, arr, tail } => {
            let a = i + name.len();
            let b = a + b1.len();
            let c = if opt { b + 1 } else { b };
            let d = c + 1 + b2.len();
            let e = d + ty.len();
            lemma_word(s, i, name);
            lemma_one(s, i); lemma_one(s, b); lemma_one(s, c);
            lemma_piece(s, a, b1, Class::Blank);
            lemma_piece(s, c + 1, b2, Class::Blank);
            lemma_piece(s, d, ty, Class::Word);
            lemma_tail(s, if arr { e + 2 } else { e }, tail);
        },
    }
}
pub proof fn lemma_flds(s: Name, i: int, v: Seq<LFld>, j: int)
    requires flds_at(s, i, v, j), matches(s, j, "}"@), 0 <= i <= s.len(),
    ensures p_fields(s, i) == (j, m_flds(v)), i <= j, stop(s, j, Class::Space),
    decreases v.len(),
{
    lemma_one(s, j);
    if v.len() == 0 { assert(m_flds(v) =~= seq![]); } else {
        let x = v[0];
        lemma_fld(s, i, x);
        lemma_flds(s, fld_end(i, x), v.skip(1), j);
        assert(m_flds(v) =~= seq![m_fld(x)] + m_flds(v.skip(1)));
    }
}
pub proof fn lemma_ty(s: Name, i: int, t: LTy)
    requires ty_at(s, i, t), 0 <= i <= s.len(),
    ensures p_type(s, i) == Some((ty_end(t), m_ty(t))), i < ty_end(t) <= s.len(),
{
    lemma_lens();
    lemma_one(s, i);
    match t {
        LTy::Enum { b1, w0, vars, end } => {
            let b = i + 4 + b1.len();
            let c = b + 1 + w0.len();
            lemma_one(s, b); lemma_one(s, end);
            lemma_piece(s, i + 4, b1, Class::Blank);
            lemma_piece(s, b + 1, w0, Class::Space);
            lemma_vars(s, c, vars, end);
        },
        LTy::Struct { b1, w0, flds, end } => {
            let b = i + 6 + b1.len();
            let c = b + 1 + w0.len();
            lemma_one(s, b); lemma_one(s, end);
            lemma_piece(s, i + 6, b1, Class::Blank);
            lemma_piece(s, b + 1, w0, Class::Space);
            lemma_flds(s, c, flds, end);
        },
    }
}
pub proof fn lemma_export(s: Name, i: int, n: Name)
    requires word(s, i, n), word(s, i, "export"@), ident(n),
    ensures n == "export"@,
{
    lemma_lens();
    lemma_word(s, i, n);
    reveal_strlit("export");
    lemma_piece(s, i, "export"@, Class::Word);
}
pub proof fn lemma_node(s: Name, i: int, n: LNode)
    requires node_at(s, i, n), 0 <= i <= s.len(), stop(s, i, Class::Space),
    ensures p_line(s, i) == Some((node_end(i, n), m_node(n))), i < node_end(i, n) <= s.len(), stop(s, node_end(i, n), Class::Space),
{
    lemma_lens();
    lemma_one(s, i);
    match n {
        LNode::Comment(c) => lemma_com(s, i, c),
        LNode::Export { b1, name, sp } => {
            let a = i + 6 + b1.len();
            let b = a + name.len();
            lemma_piece(s, i + 6, b1, Class::Blank);
            lemma_piece(s, a, name, Class::Word);
            lemma_piece(s, b, sp, Class::Space);
        },
        LNode::Decl { name, b1, b2, ty, sp } => {
            let a = i + name.len();
            let b = a + b1.len();
            let c = b + 1 + b2.len();
            let e = ty_end(ty);
            lemma_word(s, i, name);
            if word(s, i, "export"@) { lemma_export(s, i, name); }
            lemma_one(s, b); lemma_one(s, c);
            lemma_piece(s, a, b1, Class::Blank);
            lemma_piece(s, b + 1, b2, Class::Blank);
            lemma_ty(s, c, ty);
            lemma_piece(s, e, sp, Class::Space);
        },
    }
}
pub proof fn lemma_nodes(s: Name, i: int, v: Seq<LNode>)
    requires nodes_at(s, i, v, s.len() as int), 0 <= i <= s.len(), stop(s, i, Class::Space),
    ensures p_lines(s, i) == (s.len() as int, m_nodes(v)),
    decreases v.len(),
{
    if v.len() == 0 {
        lemma_one(s, i);
        assert(m_nodes(v) =~= seq![]);
    } else {
        let x = v[0];
        lemma_node(s, i, x);
        lemma_nodes(s, node_end(i, x), v.skip(1));
        assert(m_nodes(v) =~= seq![m_node(x)] + m_nodes(v.skip(1)));
    }
}
/// whatever the layout, a text is read as what it says
pub proof fn theorem_layout(s: Name, l: LSchema)
    requires written(s, l),
    ensures p_schema(s) == Some(meaning(l)), // #C11
{
    lemma_piece(s, 0, l.w0, Class::Space);
    lemma_nodes(s, l.w0.len() as int, l.nodes);
}
// ===================== what is read is written in the format ===================
pub open spec fn c_tail(s: Name, i: int) -> LTail {
    let a = run(s, i, Class::Space);
    if matches(s, a, ","@) { LTail { w1: s.subrange(i, a), comma: true, w2: s.subrange(a + 1, p_end(s, i)) } } else { LTail { w1: s.subrange(i, a), comma: false, w2: seq![] } }
}
pub proof fn lemma_sub(s: Name, i: int, c: Class)
    requires 0 <= i <= s.len(),
    ensures piece(s, i, s.subrange(i, run(s, i, c)), c), stop(s, run(s, i, c), c), i <= run(s, i, c) <= s.len(),
{
    lemma_run(s, i, c);
    let t = s.subrange(i, run(s, i, c));
    assert forall|k: int| 0 <= k < t.len() implies is_in(c, #[trigger] t[k]) by { assert(is_in(c, s[i + k])); }
}
pub proof fn lemma_c_tail(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures tail_at(s, i, c_tail(s, i)), tail_end(i, c_tail(s, i)) == p_end(s, i), stop(s, p_end(s, i), Class::Space), i <= p_end(s, i) <= s.len(),
{
    lemma_lens();
    let a = run(s, i, Class::Space);
    lemma_sub(s, i, Class::Space);
    if matches(s, a, ","@) { lemma_sub(s, a + 1, Class::Space); }
}
pub proof fn lemma_c_word(s: Name, i: int)
    ensures p_ident(s, i) matches Some(j) ==> 0 <= i < j <= s.len() && ident(s.subrange(i, j)) && word(s, i, s.subrange(i, j)),
{
    lemma_ident_name(s, i);
    lemma_run(s, i, Class::Word);
}
pub open spec fn c_var(s: Name, i: int) -> LVar { let a = p_ident(s, i)->0; LVar { name: s.subrange(i, a), tail: c_tail(s, a) } }
pub open spec fn c_vars(s: Name, i: int) -> Seq<LVar>
    decreases s.len() - i,
{
    match p_variant(s, i) { Some((j, n)) => if i < j <= s.len() { seq![c_var(s, i)] + c_vars(s, j) } else { seq![] }, None => seq![] }
}
pub proof fn lemma_c_vars(s: Name, i: int)
    requires 0 <= i <= s.len(), stop(s, i, Class::Space),
    ensures vars_at(s, i, c_vars(s, i), p_variants(s, i).0), m_vars(c_vars(s, i)) == p_variants(s, i).1,
        stop(s, p_variants(s, i).0, Class::Space), i <= p_variants(s, i).0 <= s.len(),
    decreases s.len() - i,
{
    let v = c_vars(s, i);
    if let Some((j, n)) = p_variant(s, i) {
        lemma_c_word(s, i);
        let a = p_ident(s, i)->0;
        lemma_c_tail(s, a);
        lemma_c_vars(s, j);
        assert(v.skip(1) =~= c_vars(s, j));
        assert(m_vars(v) =~= seq![n] + m_vars(c_vars(s, j)));
    } else { assert(m_vars(v) =~= seq![]); }
}
pub open spec fn c_com(s: Name, i: int) -> LCom {
    let b = run(s, i + 1, Class::Line);
    LCom { body: s.subrange(i + 1, b), sp: s.subrange(b, run(s, b, Class::Space)) }
}
pub proof fn lemma_c_com(s: Name, i: int)
    requires p_comment(s, i) is Some,
    ensures com_at(s, i, c_com(s, i)), com_end(i, c_com(s, i)) == run(s, p_comment(s, i)->0, Class::Space), i < com_end(i, c_com(s, i)) <= s.len(),
{
    lemma_lens();
    let b = run(s, i + 1, Class::Line);
    lemma_sub(s, i + 1, Class::Line);
    lemma_sub(s, b, Class::Space);
    lemma_eol(s, b);
}
pub open spec fn c_fld(s: Name, i: int) -> LFld {
    if p_comment(s, i) is Some { LFld::Comment(c_com(s, i)) } else {
        let a = p_ident(s, i)->0;
        let b = run(s, a, Class::Blank);
        let opt = matches(s, b, "?"@);
        let c = if opt { b + 1 } else { b };
        let d = run(s, c + 1, Class::Blank);
        let e = run(s, d, Class::Word);
        let arr = matches(s, e, "[]"@);
        LFld::Field { name: s.subrange(i, a), b1: s.subrange(a, b), opt, b2: s.subrange(c + 1, d), ty: s.subrange(d, e), arr, tail: c_tail(s, if arr { e + 2 } else { e }) }
    }
}
pub proof fn lemma_c_fld(s: Name, i: int)
    ensures p_field(s, i) matches Some((j, n)) ==> fld_at(s, i, c_fld(s, i)) && fld_end(i, c_fld(s, i)) == j && m_fld(c_fld(s, i)) == n
        && 0 <= i < j <= s.len() && stop(s, j, Class::Space),
{
    lemma_lens();
    if p_field(s, i) is Some {
        if p_comment(s, i) is Some { lemma_c_com(s, i); } else {
            let a = p_ident(s, i)->0;
            let b = run(s, a, Class::Blank);
            let opt = matches(s, b, "?"@);
            let c = if opt { b + 1 } else { b };
            let d = run(s, c + 1, Class::Blank);
            let e = run(s, d, Class::Word);
            let arr = matches(s, e, "[]"@);
            lemma_c_word(s, i);
            lemma_sub(s, a, Class::Blank);
            lemma_sub(s, c + 1, Class::Blank);
            lemma_sub(s, d, Class::Word);
            lemma_c_tail(s, if arr { e + 2 } else { e });
        }
    }
}
pub open spec fn c_flds(s: Name, i: int) -> Seq<LFld>
    decreases s.len() - i,
{
    match p_field(s, i) { Some((j, n)) => if i < j <= s.len() { seq![c_fld(s, i)] + c_flds(s, j) } else { seq![] }, None => seq![] }
}
pub proof fn lemma_c_flds(s: Name, i: int)
    requires 0 <= i <= s.len(), stop(s, i, Class::Space),
    ensures flds_at(s, i, c_flds(s, i), p_fields(s, i).0), m_flds(c_flds(s, i)) == p_fields(s, i).1,
        stop(s, p_fields(s, i).0, Class::Space), i <= p_fields(s, i).0 <= s.len(),
    decreases s.len() - i,
{
    let v = c_flds(s, i);
    lemma_c_fld(s, i);
    if let Some((j, n)) = p_field(s, i) {
        lemma_c_flds(s, j);
        assert(v.skip(1) =~= c_flds(s, j));
        assert(m_flds(v) =~= seq![n] + m_flds(c_flds(s, j)));
    } else { assert(m_flds(v) =~= seq![]); }
}
pub open spec fn c_ty(s: Name, i: int) -> LTy {
    if p_enum(s, i) is Some {
        let b = run(s, i + 4, Class::Blank);
        let c = run(s, b + 1, Class::Space);
        LTy::Enum { b1: s.subrange(i + 4, b), w0: s.subrange(b + 1, c), vars: c_vars(s, c), end: p_variants(s, c).0 }
    } else {
        let b = run(s, i + 6, Class::Blank);
        let c = run(s, b + 1, Class::Space);
        LTy::Struct { b1: s.subrange(i + 6, b), w0: s.subrange(b + 1, c), flds: c_flds(s, c), end: p_fields(s, c).0 }
    }
}
pub proof fn lemma_c_ty(s: Name, i: int)
    requires stop(s, i, Class::Blank), 0 <= i <= s.len(),
    ensures p_type(s, i) matches Some((j, t)) ==> ty_at(s, i, c_ty(s, i)) && ty_end(c_ty(s, i)) == j && m_ty(c_ty(s, i)) == t && i < j <= s.len(),
{
    lemma_lens();
    if p_enum(s, i) is Some {
        let b = run(s, i + 4, Class::Blank);
        let c = run(s, b + 1, Class::Space);
        lemma_sub(s, i + 4, Class::Blank);
        lemma_sub(s, b + 1, Class::Space);
        lemma_c_vars(s, c);
    } else if p_struct(s, i) is Some {
        let b = run(s, i + 6, Class::Blank);
        let c = run(s, b + 1, Class::Space);
        lemma_sub(s, i + 6, Class::Blank);
        lemma_sub(s, b + 1, Class::Space);
        lemma_c_flds(s, c);
    }
}
pub open spec fn c_node(s: Name, i: int) -> LNode {
    if p_comment(s, i) is Some { LNode::Comment(c_com(s, i)) }
    else if p_export(s, i) is Some {
        let a = run(s, i + 6, Class::Blank);
        let b = run(s, a, Class::Word);
        LNode::Export { b1: s.subrange(i + 6, a), name: s.subrange(a, b), sp: s.subrange(b, run(s, b, Class::Space)) }
    } else {
        let a = p_ident(s, i)->0;
        let b = run(s, a, Class::Blank);
        let c = run(s, b + 1, Class::Blank);
        let e = ty_end(c_ty(s, c));
        LNode::Decl { name: s.subrange(i, a), b1: s.subrange(a, b), b2: s.subrange(b + 1, c), ty: c_ty(s, c), sp: s.subrange(e, run(s, e, Class::Space)) }
    }
}
pub proof fn lemma_c_node(s: Name, i: int)
    requires stop(s, i, Class::Space), 0 <= i <= s.len(),
    ensures p_line(s, i) matches Some((j, n)) ==> node_at(s, i, c_node(s, i)) && node_end(i, c_node(s, i)) == j && m_node(c_node(s, i)) == n
        && i < j <= s.len() && stop(s, j, Class::Space),
{
    lemma_lens();
    if p_line(s, i) is Some {
        if p_comment(s, i) is Some { lemma_c_com(s, i); }
        else if p_export(s, i) is Some {
            let a = run(s, i + 6, Class::Blank);
            let b = run(s, a, Class::Word);
            lemma_sub(s, i + 6, Class::Blank);
            lemma_sub(s, a, Class::Word);
            lemma_sub(s, b, Class::Space);
        } else {
            let a = p_ident(s, i)->0;
            let b = run(s, a, Class::Blank);
            let c = run(s, b + 1, Class::Blank);
            lemma_c_word(s, i);
            lemma_sub(s, a, Class::Blank);
            lemma_sub(s, b + 1, Class::Blank);
            lemma_c_ty(s, c);
            let e = ty_end(c_ty(s, c));
            lemma_sub(s, e, Class::Space);
        }
    }
}
pub open spec fn c_nodes(s: Name, i: int) -> Seq<LNode>
    decreases s.len() - i,
{
    match p_line(s, i) { Some((j, n)) => if i < j <= s.len() { seq![c_node(s, i)] + c_nodes(s, j) } else { seq![] }, None => seq![] }
}
pub proof fn lemma_c_nodes(s: Name, i: int)
    requires 0 <= i <= s.len(), stop(s, i, Class::Space),
    ensures nodes_at(s, i, c_nodes(s, i), p_lines(s, i).0), m_nodes(c_nodes(s, i)) == p_lines(s, i).1,
    decreases s.len() - i,
{
    let v = c_nodes(s, i);
    lemma_c_node(s, i);
    if let Some((j, n)) = p_line(s, i) {
        lemma_c_nodes(s, j);
        assert(v.skip(1) =~= c_nodes(s, j));
        assert(m_nodes(v) =~= seq![n] + m_nodes(c_nodes(s, j)));
    } else { assert(m_nodes(v) =~= seq![]); }
}
/// a text is accepted only if all of it is written in the format
pub proof fn theorem_format(s: Name)
    ensures p_schema(s) matches Some(v) ==> exists|l: LSchema| #[trigger] written(s, l) && meaning(l) == v, // #C12
{
    let c = run(s, 0, Class::Space);
    let l = LSchema { w0: s.subrange(0, c), nodes: c_nodes(s, c) };
    lemma_sub(s, 0, Class::Space);
    lemma_c_nodes(s, c);
    if p_schema(s) is Some { assert(written(s, l)); }
}
} // verus!
}
