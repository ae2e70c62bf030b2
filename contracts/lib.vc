//@raw lib.use
use crate::peg::*;
use crate::peg::error::ParseError;
use crate::peg::str::LineCol;
use crate::grammar::*;
use crate::check::*;
use crate::model::*;
//@raw lib
broadcast use {crate::prelude::lemma_ix, crate::grammar::lemma_run};
// ===================== the report of a parse error ===========================
pub open spec fn char_at(s: Name, i: int) -> char { if i < s.len() { s[i] } else { '\0' } }
/// the line that character i is on
pub open spec fn line_of(s: Name, i: int) -> Name { s.subrange(i - col(s, i), run(s, i, Class::Line)) }
/// the report for character i
pub open spec fn report(s: Name, i: int) -> Name {
    let c = seq![char_at(s, i)];
    let l = dec(lines_before(s, i) + 1);
    let k = dec(col(s, i) + 1);
    let t = line_of(s, i);
    let m = times("~"@, col(s, i));
    emit!(Seq::<char>::empty(), "\nUnexpected token '{c}' at line {l}, column {k}\n|\n|  {t}\n|~~{m}^\n")
}
pub proof fn lemma_col(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures 0 <= col(s, i) <= i, lines_before(s, i) >= 0,
    decreases i,
{ if i > 0 { lemma_col(s, i - 1); } }
/// before the character: the last piece is what the line has so far
pub proof fn lemma_split_to(s: Name, i: int)
    requires 0 <= i <= s.len(),
    ensures
        split(s.take(i), '\n').len() == lines_before(s, i) + 1,
        split(s.take(i), '\n').last() == s.subrange(i - col(s, i), i),
    decreases i,
{
    lemma_col(s, i);
    if i > 0 {
        lemma_split_to(s, i - 1);
        lemma_col(s, i - 1);
        assert(s.take(i).drop_last() =~= s.take(i - 1));
        if s[i - 1] != '\n' { assert(s.subrange(i - 1 - col(s, i - 1), i - 1).push(s[i - 1]) =~= s.subrange(i - col(s, i), i)); }
    }
    assert(s.subrange(i, i) =~= Seq::<char>::empty());
    assert(s.take(0) =~= Seq::<char>::empty());
}
/// after it: the piece grows up to the next line feed and stays
pub proof fn lemma_split_from(s: Name, i: int, m: int)
    requires 0 <= i <= m <= s.len(),
    ensures ({
        let r = split(s.take(m), '\n');
        let e = run(s, i, Class::Line);
        &&& r.len() >= lines_before(s, i) + 1
        &&& (m <= e ==> r.len() == lines_before(s, i) + 1)
        &&& r[lines_before(s, i)] == s.subrange(i - col(s, i), if m <= e { m } else { e })
    }),
    decreases m - i,
{
    broadcast use lemma_run;
    lemma_col(s, i);
    let e = run(s, i, Class::Line);
    if m == i { lemma_split_to(s, i); } else {
        lemma_split_from(s, i, m - 1);
        assert(s.take(m).drop_last() =~= s.take(m - 1));
        assert(s.take(m).last() == s[m - 1]);
        if m <= e {
            assert(is_in(Class::Line, s[m - 1]));
            assert(s.subrange(i - col(s, i), m - 1).push(s[m - 1]) =~= s.subrange(i - col(s, i), m));
        } else if m - 1 == e {
            assert(!is_in(Class::Line, s[e]));
        } else {
            lemma_after(s, i, m - 1);
        }
    }
}
/// there is a later piece once the line feed has been passed
pub proof fn lemma_after(s: Name, i: int, m: int)
    requires 0 <= i < m <= s.len(), run(s, i, Class::Line) < m,
    ensures split(s.take(m), '\n').len() >= lines_before(s, i) + 2,
    decreases m,
{
    broadcast use lemma_run;
    let e = run(s, i, Class::Line);
    lemma_split_to(s, m);
    lemma_lines_mono(s, i, e);
    lemma_lines_mono(s, e + 1, m);
}
pub proof fn lemma_lines_mono(s: Name, i: int, j: int)
    requires 0 <= i <= j <= s.len(),
    ensures lines_before(s, i) <= lines_before(s, j),
    decreases j - i,
{ if i < j { lemma_lines_mono(s, i, j - 1); } }
// ===================== what a text means =======================================
/// the parser reads s as the schema v
pub open spec fn means(s: Name, v: Seq<ast::Node>) -> bool { p_schema(s) == Some(g_ast(v)) }
pub open spec fn faultless(v: Seq<ast::Node>) -> bool { forall|f: Fault| !#[trigger] faulty(v, f) }
/// t is the code for the schema v
pub open spec fn compiled(v: Seq<ast::Node>, t: Name) -> bool {
    exists|x: Resolved| #[trigger] resolves(v, x) && module_text(t, x.types@, x.export.name@, x.export.r#struct)
}
pub open spec fn resolves(v: Seq<ast::Node>, x: Resolved) -> bool {
    &&& exports(v, x.export.name@)
    &&& tree_ok(decl_map(v), x.export.name@, ResolvedType::Struct(x.export.r#struct))
    &&& forall|n: Name| #[trigger] x.types@.contains_key(n) ==> entry_ok(decl_map(v), n, x.types@[n])
    &&& forall|n: Name| #[trigger] x.types@.contains_key(n) <==> used_by(decl_map(v), x.export.name@, n)
}
pub proof fn lemma_names_ok(s: Name, v: Seq<ast::Node>)
    requires means(s, v),
    ensures names_ok(v),
{
    theorem_names(s);
    lemma_reserved();
    assert forall|i: int, n: Name| #[trigger] decl_name_at(v, i, n) implies builtin_of(n) is None by {
        let w = p_schema(s)->0;
        assert(good_node(w[i]));
        assert(g_ast(v)[i] == g_node(v[i]));
        assert(!is_reserved(n));
        assert forall|k: int| 0 <= k < 10 implies n != #[trigger] reserved(k) by { }
        assert(reserved(0) != n && reserved(1) != n && reserved(2) != n && reserved(3) != n && reserved(4) != n && reserved(5) != n && reserved(6) != n && reserved(7) != n);
    }
}
/// what the checker guarantees is what the generator needs
pub proof fn lemma_wf_ty(v: Seq<ast::Node>, n: Name, t: ResolvedType)
    requires faultless(v), tree_ok(decl_map(v), n, t),
    ensures wf_ty(n, t),
    decreases t,
{
    let d = decl_map(v);
    match t {
        ResolvedType::Builtin(_) => {},
        ResolvedType::Enum(e) => {
            assert(!faulty(v, Fault::EmptyEnum(n)));
            assert(!faulty(v, Fault::TooManyVariants(n, vars(d[n]).len() as int)));
        },
        ResolvedType::Struct(x) => lemma_wf_struct(v, n, x),
    }
}
pub proof fn lemma_wf_struct(v: Seq<ast::Node>, n: Name, x: check::Struct)
    requires faultless(v), tree_ok(decl_map(v), n, ResolvedType::Struct(x)),
    ensures wf_struct(x),
    decreases x,
{
    let d = decl_map(v);
    assert forall|i: int| 0 <= i < x.fields@.len() implies wf_field(#[trigger] x.fields@[i]) by { lemma_wf_field(v, flds(d[n])[i], x.fields@[i]); }
    assert forall|i: int, j: int| 0 <= i < j < x.fields@.len() implies (#[trigger] x.fields@[i]).name@ != (#[trigger] x.fields@[j]).name@ by {
        assert(!faulty(v, Fault::DupField(flds(d[n])[j].0@, n)));
        assert(field_ok(d, flds(d[n])[i], x.fields@[i]) && field_ok(d, flds(d[n])[j], x.fields@[j]));
        assert(!dup_fld_at(flds(d[n]), i, j));
    }
}
pub proof fn lemma_wf_field(v: Seq<ast::Node>, u: (&str, ast::Unresolved), f: StructField)
    requires faultless(v), field_ok(decl_map(v), u, f),
    ensures wf_field(f),
    decreases f,
{
    lemma_wf_ty(v, (*f.r#type.0).0@, fty(f));
}
// ---- two readings of one text have the same faults
pub open spec fn alike(d: Decls, e: Decls) -> bool {
    forall|n: Name| #[trigger] d.contains_key(n) <==> e.contains_key(n)
}
pub open spec fn alike_types(d: Decls, e: Decls) -> bool {
    forall|n: Name| #[trigger] d.contains_key(n) ==> g_type(d[n]) == g_type(e[n])
}
pub proof fn lemma_alike_map(v: Seq<ast::Node>, w: Seq<ast::Node>)
    requires g_ast(v) == g_ast(w),
    ensures alike(decl_map(v), decl_map(w)), alike_types(decl_map(v), decl_map(w)),
    decreases v.len(),
{
    assert(g_ast(v).len() == g_ast(w).len());
    if v.len() > 0 {
        assert(g_ast(v.drop_last()) =~= g_ast(v).drop_last());
        assert(g_ast(w.drop_last()) =~= g_ast(w).drop_last());
        lemma_alike_map(v.drop_last(), w.drop_last());
        assert(g_ast(v).last() == g_node(v.last()) && g_ast(w).last() == g_node(w.last()));
    }
}
pub proof fn lemma_alike_type(t: ast::Type, u: ast::Type)
    requires g_type(t) == g_type(u),
    ensures
        t is Enum <==> u is Enum, t is Struct <==> u is Struct,
        t is Enum ==> vars(t).len() == vars(u).len() && forall|i: int| 0 <= i < vars(t).len() ==> (#[trigger] vars(t)[i])@ == (#[trigger] vars(u)[i])@,
        t is Struct ==> flds(t).len() == flds(u).len() && forall|i: int| 0 <= i < flds(t).len() ==> g_field(#[trigger] flds(t)[i]) == g_field(#[trigger] flds(u)[i]),
{
    if t is Enum {
        assert(strs(vars(t)).len() == strs(vars(u)).len());
        assert forall|i: int| 0 <= i < vars(t).len() implies (#[trigger] vars(t)[i])@ == (#[trigger] vars(u)[i])@ by { assert(strs(vars(t))[i] == strs(vars(u))[i]); }
    } else {
        assert(g_fields(flds(t)).len() == g_fields(flds(u)).len());
        assert forall|i: int| 0 <= i < flds(t).len() implies g_field(#[trigger] flds(t)[i]) == g_field(#[trigger] flds(u)[i]) by { assert(g_fields(flds(t))[i] == g_fields(flds(u))[i]); }
    }
}
pub proof fn lemma_alike_edge(d: Decls, e: Decls, a: Name, b: Name)
    requires alike(d, e), alike_types(d, e), edge(d, a, b),
    ensures edge(e, a, b),
{
    lemma_alike_type(d[a], e[a]);
    let j = choose|j: int| #[trigger] field_ty_at(d[a], j, b);
    assert(g_field(flds(d[a])[j]) == g_field(flds(e[a])[j]));
    assert(field_ty_at(e[a], j, b));
}
pub proof fn lemma_alike_bad(d: Decls, e: Decls, f: Fault)
    requires alike(d, e), alike_types(d, e), bad(d, f),
    ensures bad(e, f),
{
    match f {
        Fault::EmptyEnum(n) => lemma_alike_type(d[n], e[n]),
        Fault::TooManyVariants(n, _) => lemma_alike_type(d[n], e[n]),
        Fault::DupVariant(v, n) => {
            lemma_alike_type(d[n], e[n]);
            let (i, j) = choose|i: int, j: int| #[trigger] dup_var_at(vars(d[n]), i, j) && vars(d[n])[j]@ == v;
            assert(vars(d[n])[i]@ == vars(e[n])[i]@ && vars(d[n])[j]@ == vars(e[n])[j]@);
            assert(dup_var_at(vars(e[n]), i, j));
        },
        Fault::DupField(v, n) => {
            lemma_alike_type(d[n], e[n]);
            let (i, j) = choose|i: int, j: int| #[trigger] dup_fld_at(flds(d[n]), i, j) && flds(d[n])[j].0@ == v;
            assert(g_field(flds(d[n])[i]) == g_field(flds(e[n])[i]) && g_field(flds(d[n])[j]) == g_field(flds(e[n])[j]));
            assert(dup_fld_at(flds(e[n]), i, j));
        },
        Fault::OptionalArray(v, n) => {
            lemma_alike_type(d[n], e[n]);
            let i = choose|i: int| #[trigger] opt_arr_at(flds(d[n]), i) && flds(d[n])[i].0@ == v;
            assert(g_field(flds(d[n])[i]) == g_field(flds(e[n])[i]));
            assert(opt_arr_at(flds(e[n]), i));
        },
        Fault::MissingType(t) => {
            let n = choose|n: Name| #[trigger] edge(d, n, t);
            lemma_alike_edge(d, e, n, t);
        },
        Fault::Cycle(n) => {
            let p = choose|p: Seq<Name>| #[trigger] walk_to(d, p, n, n);
            assert forall|i: int| 0 <= i < p.len() - 1 implies edge(e, #[trigger] p[i], p[i + 1]) by { lemma_alike_edge(d, e, p[i], p[i + 1]); }
            assert(walk_to(e, p, n, n));
        },
        _ => {},
    }
}
/// the kind of the result depends on the text alone
pub proof fn theorem_kind(s: Name, v: Seq<ast::Node>, w: Seq<ast::Node>, f: Fault)
    requires means(s, v), means(s, w), faulty(v, f),
    ensures faulty(w, f), // #C16
{
    lemma_alike_map(v, w);
    lemma_alike_map(w, v);
    let d = decl_map(v);
    let e = decl_map(w);
    assert(g_ast(v).len() == g_ast(w).len());
    assert forall|i: int| 0 <= i < v.len() implies g_node(#[trigger] v[i]) == g_node(w[i]) by { assert(g_ast(v)[i] == g_ast(w)[i]); }
    assert forall|i: int| #[trigger] is_export_at(w, i) implies is_export_at(v, i) && v[i]->Export_0@ == w[i]->Export_0@ by { assert(g_node(v[i]) == g_node(w[i])); }
    assert forall|i: int| #[trigger] is_export_at(v, i) implies is_export_at(w, i) && v[i]->Export_0@ == w[i]->Export_0@ by { assert(g_node(v[i]) == g_node(w[i])); }
    match f {
        Fault::NoExport => {},
        Fault::MultiExport => {
            let (i, j) = choose|i: int, j: int| i < j && #[trigger] is_export_at(v, i) && #[trigger] is_export_at(v, j);
            assert(is_export_at(w, i) && is_export_at(w, j));
        },
        Fault::DupDecl(n) => {
            let (i, j) = choose|i: int, j: int| i < j && #[trigger] decl_name_at(v, i, n) && #[trigger] decl_name_at(v, j, n);
            assert(g_node(v[i]) == g_node(w[i]) && g_node(v[j]) == g_node(w[j]));
            assert(decl_name_at(w, i, n) && decl_name_at(w, j, n));
        },
        Fault::ExportNotStruct(n) => {
            let i = choose|i: int| #[trigger] is_export_at(v, i) && v[i]->Export_0@ == n;
            assert(is_export_at(w, i));
            if is_enum(d, n) { lemma_alike_type(d[n], e[n]); }
        },
        Fault::ExportMissing(n) => {
            let i = choose|i: int| #[trigger] is_export_at(v, i) && v[i]->Export_0@ == n;
            assert(is_export_at(w, i));
        },
        _ => lemma_alike_bad(d, e, f),
    }
}
// ---- two compilations of one text give the same types and declarations
/// t and u are the same type, held at different places
pub open spec fn like(t: ResolvedType, u: ResolvedType) -> bool
    decreases t,
{
    match t {
        ResolvedType::Builtin(b) => u == ResolvedType::Builtin(b),
        ResolvedType::Enum(e) => u is Enum && like_enum(e, u->Enum_0),
        ResolvedType::Struct(s) => u is Struct && like_struct(s, u->Struct_0),
    }
}
pub open spec fn like_enum(e: check::Enum, g: check::Enum) -> bool {
    &&& e.repr == g.repr && e.variants@.len() == g.variants@.len()
    &&& forall|i: int| 0 <= i < e.variants@.len() ==> (#[trigger] e.variants@[i]).name@ == g.variants@[i].name@ && e.variants@[i].value == g.variants@[i].value
}
pub open spec fn like_struct(s: check::Struct, z: check::Struct) -> bool
    decreases s,
{
    s.fields@.len() == z.fields@.len() && forall|i: int| 0 <= i < s.fields@.len() ==> like_field(#[trigger] s.fields@[i], z.fields@[i])
}
pub open spec fn like_field(f: StructField, g: StructField) -> bool
    decreases f,
{
    &&& f.name@ == g.name@ && f.array == g.array && f.optional == g.optional
    &&& (*f.r#type.0).0@ == (*g.r#type.0).0@
    &&& like((*f.r#type.0).1, (*g.r#type.0).1)
}
pub proof fn lemma_like(d: Decls, e: Decls, n: Name, t: ResolvedType, u: ResolvedType)
    requires alike(d, e), alike_types(d, e), tree_ok(d, n, t), tree_ok(e, n, u),
    ensures like(t, u),
    decreases t,
{
    match t {
        ResolvedType::Builtin(_) => {},
        ResolvedType::Enum(x) => {
            lemma_alike_type(d[n], e[n]);
            assert forall|i: int| 0 <= i < x.variants@.len() implies (#[trigger] x.variants@[i]).name@ == u->Enum_0.variants@[i].name@ && x.variants@[i].value == u->Enum_0.variants@[i].value by {
                assert(vars(d[n])[i]@ == vars(e[n])[i]@);
                assert(u->Enum_0.variants@[i].name@ == vars(e[n])[i]@);
            }
        },
        ResolvedType::Struct(x) => {
            lemma_alike_type(d[n], e[n]);
            lemma_like_struct(d, e, n, x, u->Struct_0);
        },
    }
}
pub proof fn lemma_like_struct(d: Decls, e: Decls, n: Name, x: check::Struct, y: check::Struct)
    requires alike(d, e), alike_types(d, e), tree_ok(d, n, ResolvedType::Struct(x)), tree_ok(e, n, ResolvedType::Struct(y)),
    ensures like_struct(x, y),
    decreases x,
{
    lemma_alike_type(d[n], e[n]);
    assert forall|i: int| 0 <= i < x.fields@.len() implies like_field(#[trigger] x.fields@[i], y.fields@[i]) by {
        let (a, b) = (flds(d[n])[i], flds(e[n])[i]);
        assert(g_field(a) == g_field(b));
        assert(field_ok(d, a, x.fields@[i]) && field_ok(e, b, y.fields@[i]));
        lemma_like_field(d, e, a, b, x.fields@[i], y.fields@[i]);
    }
}
pub proof fn lemma_like_field(d: Decls, e: Decls, a: (&str, ast::Unresolved), b: (&str, ast::Unresolved), f: StructField, g: StructField)
    requires alike(d, e), alike_types(d, e), g_field(a) == g_field(b), field_ok(d, a, f), field_ok(e, b, g),
    ensures like_field(f, g),
    decreases f,
{
    lemma_like(d, e, (*f.r#type.0).0@, fty(f), fty(g));
}
/// the same reach
pub proof fn lemma_alike_used(d: Decls, e: Decls, r: Name, n: Name)
    requires alike(d, e), alike_types(d, e), used_by(d, r, n),
    ensures used_by(e, r, n),
{
    if n != r {
        let p = choose|p: Seq<Name>| #[trigger] walk_to(d, p, r, n);
        assert forall|i: int| 0 <= i < p.len() - 1 implies edge(e, #[trigger] p[i], p[i + 1]) by { lemma_alike_edge(d, e, p[i], p[i + 1]); }
        assert(walk_to(e, p, r, n));
    }
}
/// the same declarations
pub proof fn lemma_like_members(a: Name, ind: Name, s: check::Struct, z: check::Struct, k: nat)
    requires like_struct(s, z), k <= s.fields@.len(),
    ensures members(a, ind, s, k) == members(a, ind, z, k),
    decreases k,
{
    if k > 0 {
        lemma_like_members(a, ind, s, z, (k - 1) as nat);
        assert(like_field(s.fields@[k - 1], z.fields@[k - 1]));
    }
}
pub proof fn lemma_like_params(a: Name, ind: Name, s: check::Struct, z: check::Struct, export: Name, k: nat)
    requires like_struct(s, z), k <= s.fields@.len(),
    ensures params(a, ind, s, export, k) == params(a, ind, z, export, k),
    decreases k,
{
    if k > 0 {
        lemma_like_params(a, ind, s, z, export, (k - 1) as nat);
        assert(like_field(s.fields@[k - 1], z.fields@[k - 1]));
    }
}
pub proof fn lemma_like_variants(a: Name, ind: Name, e: check::Enum, g: check::Enum, k: nat)
    requires like_enum(e, g), k <= e.variants@.len(),
    ensures variants(a, ind, e, k) == variants(a, ind, g, k),
    decreases k,
{
    if k > 0 {
        lemma_like_variants(a, ind, e, g, (k - 1) as nat);
        assert(e.variants@[k - 1].name@ == g.variants@[k - 1].name@);
    }
}
/// the same writes
pub proof fn lemma_like_calls(t: ResolvedType, u: ResolvedType, v: V)
    requires like(t, u),
    ensures calls(t, v) == calls(u, v),
    decreases t, 0nat, 0nat,
{
    if let ResolvedType::Struct(s) = t { lemma_like_calls_fields(s, u->Struct_0, s.fields@.len(), v); }
}
pub proof fn lemma_like_calls_fields(s: check::Struct, z: check::Struct, k: nat, v: V)
    requires like_struct(s, z), k <= s.fields@.len(),
    ensures calls_fields(s, k, v) == calls_fields(z, k, v),
    decreases s, 1nat, k,
{
    if k > 0 {
        lemma_like_calls_fields(s, z, (k - 1) as nat, v);
        assert(like_field(s.fields@[k - 1], z.fields@[k - 1]));
        lemma_like_calls_field(s.fields@[k - 1], z.fields@[k - 1], prop(v, s.fields@[k - 1].name@));
    }
}
pub proof fn lemma_like_calls_field(f: StructField, g: StructField, v: V)
    requires like_field(f, g),
    ensures calls_field(f, v) == calls_field(g, v),
    decreases f, 4nat, 0nat,
{
    let (t, u) = (fty(f), fty(g));
    lemma_like_calls(t, u, v);
    lemma_like_calls_items(t, u, v->Arr_0, v->Arr_0.len());
}
pub proof fn lemma_like_calls_items(t: ResolvedType, u: ResolvedType, a: Seq<V>, k: nat)
    requires like(t, u),
    ensures calls_items(t, a, k) == calls_items(u, a, k),
    decreases t, 1nat, k,
{
    if k > 0 {
        lemma_like_calls_items(t, u, a, (k - 1) as nat);
        lemma_like_calls(t, u, a[k - 1]);
    }
}
/// the declaration of one type
pub open spec fn decl(a: Name, ind: Name, n: Name, t: ResolvedType) -> Name {
    match t {
        ResolvedType::Builtin(_) => a,
        ResolvedType::Enum(e) => enum_decl(a, ind, n, e),
        ResolvedType::Struct(s) => struct_decl(a, ind, n, s),
    }
}
/// types, declarations, constructor and the writes of the write method depend on the text alone
pub proof fn theorem_same(s: Name, v: Seq<ast::Node>, w: Seq<ast::Node>, x: Resolved, y: Resolved)
    requires means(s, v), means(s, w), faultless(v), resolves(v, x), resolves(w, y),
    ensures
        x.export.name@ == y.export.name@, // #C16
        forall|n: Name| #[trigger] x.types@.contains_key(n) <==> y.types@.contains_key(n), // #C16
        forall|a: Name, ind: Name, n: Name| x.types@.contains_key(n) ==> #[trigger] decl(a, ind, n, x.types@[n].val().1) == decl(a, ind, n, y.types@[n].val().1), // #C16
        forall|a: Name, ind: Name, n: Name| #[trigger] params(a, ind, x.export.r#struct, n, x.export.r#struct.fields@.len()) == params(a, ind, y.export.r#struct, n, y.export.r#struct.fields@.len()), // #C16
        forall|u: V| #[trigger] calls(ResolvedType::Struct(x.export.r#struct), u) == calls(ResolvedType::Struct(y.export.r#struct), u), // #C16
{
    lemma_alike_map(v, w);
    lemma_alike_map(w, v);
    let (d, e) = (decl_map(v), decl_map(w));
    assert(g_ast(v).len() == g_ast(w).len());
    let i = choose|i: int| #[trigger] is_export_at(v, i) && v[i]->Export_0@ == x.export.name@;
    let j = choose|j: int| #[trigger] is_export_at(w, j) && w[j]->Export_0@ == y.export.name@;
    assert(g_ast(v)[j] == g_ast(w)[j]);
    assert(g_node(v[j]) == g_node(w[j]));
    assert(is_export_at(v, j));
    assert(!faulty(v, Fault::MultiExport));
    assert(i == j);
    assert forall|n: Name| #[trigger] x.types@.contains_key(n) <==> y.types@.contains_key(n) by {
        if x.types@.contains_key(n) { lemma_alike_used(d, e, x.export.name@, n); }
        if y.types@.contains_key(n) { lemma_alike_used(e, d, x.export.name@, n); }
    }
    assert forall|a: Name, ind: Name, n: Name| x.types@.contains_key(n) implies #[trigger] decl(a, ind, n, x.types@[n].val().1) == decl(a, ind, n, y.types@[n].val().1) by {
        let (t, u) = (x.types@[n].val().1, y.types@[n].val().1);
        assert(entry_ok(d, n, x.types@[n]) && entry_ok(e, n, y.types@[n]));
        lemma_like(d, e, n, t, u);
        match t {
            ResolvedType::Builtin(_) => {},
            ResolvedType::Enum(g) => lemma_like_variants(emit!(a, "{ind}export const enum {n} {{\n"), ind + "    "@, g, u->Enum_0, g.variants@.len()),
            ResolvedType::Struct(z) => lemma_like_members(emit!(a, "{ind}export interface {n} {{\n"), ind + "    "@, z, u->Struct_0, z.fields@.len()),
        }
    }
    let (p, q) = (x.export.r#struct, y.export.r#struct);
    lemma_like(d, e, x.export.name@, ResolvedType::Struct(p), ResolvedType::Struct(q));
    assert forall|a: Name, ind: Name, n: Name| #[trigger] params(a, ind, p, n, p.fields@.len()) == params(a, ind, q, n, q.fields@.len()) by { lemma_like_params(a, ind, p, q, n, p.fields@.len()); }
    assert forall|u: V| #[trigger] calls(ResolvedType::Struct(p), u) == calls(ResolvedType::Struct(q), u) by { lemma_like_calls(ResolvedType::Struct(p), ResolvedType::Struct(q), u); }
}
//@fn lib::pretty_error -> r
//@prop C13 C16
    requires located($1@, $2.location),
    ensures ok($1@, $2.location.offset), r@ =~= report($1@, ix($1@, $2.location.offset)), // #C13
//@entry
    proof {
        let i = choose|i: int| loc_at($1@, i, $2.location);
        lemma_at($1@, $2.location.offset, i);
        lemma_col($1@, i);
        lemma_split_from($1@, i, $1@.len() as int);
        assert($1@.take($1@.len() as int) =~= $1@);
    }
//@fn lib::compile -> r
//@prop C13 C16
    ensures
        r matches Err(Error::Parse(m)) ==> p_schema($1@) is None && 0 <= failing($1@) <= $1@.len() && m@ == report($1@, failing($1@)), // #C12 #C13 #C16
        r matches Err(Error::Check(m)) ==> exists|v: Seq<ast::Node>| #[trigger] means($1@, v) && reports(v, m@), // #C16
        r matches Ok(t) ==> exists|v: Seq<ast::Node>| #[trigger] means($1@, v) && faultless(v) && compiled(v, t@), // #C16
//@before type_check 1
    proof { lemma_names_ok($1@, ${let:schema}@); }
    let ghost __v = ${let:schema}@;
    proof { assert(means($1@, __v)); }
//@before generate 1
    proof { lemma_wf_struct(__v, ${let:type_check}.export.name@, ${let:type_check}.export.r#struct); assert(resolves(__v, ${let:type_check})); assert(means($1@, __v)); assert(faultless(__v)); }
