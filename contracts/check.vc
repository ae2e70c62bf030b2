//@raw check.use
use crate::prelude::*;
//@raw check
// ===================== what a schema means ==================================
pub type Decls<'a> = Map<Name, ast::Type<'a>>;

/// the declarations of a schema, by name
pub open spec fn decl_map<'a>(s: Seq<ast::Node<'a>>) -> Decls<'a>
    decreases s.len(),
{
    if s.len() == 0 { Map::empty() } else {
        match s.last() {
            ast::Node::Decl(n, t) => decl_map(s.drop_last()).insert(n@, t),
            ast::Node::Export(_) => decl_map(s.drop_last()),
        }
    }
}
pub open spec fn is_export_at(s: Seq<ast::Node>, i: int) -> bool { 0 <= i < s.len() && s[i] is Export }
pub open spec fn decl_name_at(s: Seq<ast::Node>, i: int, n: Name) -> bool {
    0 <= i < s.len() && s[i] is Decl && s[i]->Decl_0@ == n
}
pub open spec fn no_dup_decls(s: Seq<ast::Node>) -> bool {
    forall|i: int, j: int, n: Name| !(i < j && #[trigger] decl_name_at(s, i, n) && #[trigger] decl_name_at(s, j, n))
}
pub open spec fn builtin_of(n: Name) -> Option<Builtin> {
    if n == "uint8"@ { Some(Builtin::Uint8) }
    else if n == "uint16"@ { Some(Builtin::Uint16) }
    else if n == "uint32"@ { Some(Builtin::Uint32) }
    else if n == "int8"@ { Some(Builtin::Int8) }
    else if n == "int16"@ { Some(Builtin::Int16) }
    else if n == "int32"@ { Some(Builtin::Int32) }
    else if n == "float"@ { Some(Builtin::Float) }
    else if n == "string"@ { Some(Builtin::String) }
    else { None }
}
/// the parser never produces a declaration named like a built-in type
pub open spec fn names_ok(s: Seq<ast::Node>) -> bool {
    forall|i: int, n: Name| #[trigger] decl_name_at(s, i, n) ==> builtin_of(n) is None
}

pub open spec fn is_struct(d: Decls, n: Name) -> bool { d.contains_key(n) && d[n] is Struct }
pub open spec fn is_enum(d: Decls, n: Name) -> bool { d.contains_key(n) && d[n] is Enum }
pub open spec fn flds<'a>(t: ast::Type<'a>) -> Seq<(&'a str, ast::Unresolved<'a>)> { t->Struct_0.0@ }
pub open spec fn vars<'a>(t: ast::Type<'a>) -> Seq<&'a str> { t->Enum_0.0@ }

/// struct a has a field of type b
pub open spec fn field_ty_at(t: ast::Type, j: int, b: Name) -> bool { 0 <= j < flds(t).len() && flds(t)[j].1.0@ == b }
pub open spec fn edge(d: Decls, a: Name, b: Name) -> bool {
    is_struct(d, a) && exists|j: int| #[trigger] field_ty_at(d[a], j, b)
}
pub open spec fn walk(d: Decls, p: Seq<Name>) -> bool {
    p.len() >= 2 && forall|i: int| 0 <= i < p.len() - 1 ==> edge(d, #[trigger] p[i], p[i + 1])
}
pub open spec fn walk_to(d: Decls, p: Seq<Name>, a: Name, b: Name) -> bool { walk(d, p) && p[0] == a && p[p.len() - 1] == b }
/// b is used, directly or not, by a
pub open spec fn reach(d: Decls, a: Name, b: Name) -> bool { exists|p: Seq<Name>| #[trigger] walk_to(d, p, a, b) }

pub open spec fn dup_var_at(v: Seq<&str>, i: int, j: int) -> bool { 0 <= i < j < v.len() && v[i]@ == v[j]@ }
pub open spec fn dup_fld_at(v: Seq<(&str, ast::Unresolved)>, i: int, j: int) -> bool { 0 <= i < j < v.len() && v[i].0@ == v[j].0@ }
pub open spec fn opt_arr_at(v: Seq<(&str, ast::Unresolved)>, i: int) -> bool { 0 <= i < v.len() && v[i].1.1 && v[i].1.2 }

/// everything that can be wrong with a schema
pub enum Fault {
    NoExport,
    MultiExport,
    DupDecl(Name),
    EmptyEnum(Name),
    TooManyVariants(Name, int),
    DupVariant(Name, Name),
    DupField(Name, Name),
    OptionalArray(Name, Name),
    MissingType(Name),
    Cycle(Name),
    ExportNotStruct(Name),
    ExportMissing(Name),
}
pub open spec fn exports(s: Seq<ast::Node>, n: Name) -> bool {
    exists|i: int| #[trigger] is_export_at(s, i) && s[i]->Export_0@ == n
}
pub open spec fn missing(d: Decls, t: Name) -> bool {
    builtin_of(t) is None && !d.contains_key(t) && exists|n: Name| #[trigger] edge(d, n, t)
}
pub open spec fn dup_decl(s: Seq<ast::Node>, n: Name) -> bool {
    exists|i: int, j: int| i < j && #[trigger] decl_name_at(s, i, n) && #[trigger] decl_name_at(s, j, n)
}
pub open spec fn dup_variant(v: Seq<&str>, n: Name) -> bool { exists|i: int, j: int| #[trigger] dup_var_at(v, i, j) && v[j]@ == n }
pub open spec fn dup_field(v: Seq<(&str, ast::Unresolved)>, n: Name) -> bool { exists|i: int, j: int| #[trigger] dup_fld_at(v, i, j) && v[j].0@ == n }
pub open spec fn opt_array(v: Seq<(&str, ast::Unresolved)>, n: Name) -> bool { exists|i: int| #[trigger] opt_arr_at(v, i) && v[i].0@ == n }
/// what can be wrong with the declarations, once their names are distinct
pub open spec fn bad(d: Decls, f: Fault) -> bool {
    match f {
        Fault::EmptyEnum(n) => is_enum(d, n) && vars(d[n]).len() == 0,
        Fault::TooManyVariants(n, k) => is_enum(d, n) && vars(d[n]).len() == k && k > 32,
        Fault::DupVariant(v, n) => is_enum(d, n) && dup_variant(vars(d[n]), v),
        Fault::DupField(v, n) => is_struct(d, n) && dup_field(flds(d[n]), v),
        Fault::OptionalArray(v, n) => is_struct(d, n) && opt_array(flds(d[n]), v),
        Fault::MissingType(t) => missing(d, t),
        Fault::Cycle(n) => reach(d, n, n),
        _ => false,
    }
}
pub open spec fn faulty(s: Seq<ast::Node>, f: Fault) -> bool {
    match f {
        Fault::NoExport => forall|i: int| !#[trigger] is_export_at(s, i),
        Fault::MultiExport => exists|i: int, j: int| i < j && #[trigger] is_export_at(s, i) && #[trigger] is_export_at(s, j),
        Fault::DupDecl(n) => dup_decl(s, n),
        Fault::ExportNotStruct(n) => exports(s, n) && (builtin_of(n) is Some || is_enum(decl_map(s), n)),
        Fault::ExportMissing(n) => exports(s, n) && builtin_of(n) is None && !decl_map(s).contains_key(n),
        f => bad(decl_map(s), f),
    }
}
/// the message a fault is reported with
pub open spec fn text(f: Fault) -> Name {
    match f {
        Fault::NoExport => "Schema has no export"@,
        Fault::MultiExport => "Schema has more than one export"@,
        Fault::DupDecl(n) => "Schema has duplicate declaration: "@ + n,
        Fault::EmptyEnum(n) => "Enum '"@ + n + "' must have at least one variant"@,
        Fault::TooManyVariants(n, k) => "Enum '"@ + n + "' has too many variants ("@ + dec(k) + "/32)"@,
        Fault::DupVariant(v, n) => "Duplicate variant '"@ + v + "' on enum '"@ + n + "'"@,
        Fault::DupField(v, n) => "Duplicate field '"@ + v + "' on struct '"@ + n + "'"@,
        Fault::OptionalArray(v, n) => "Field '"@ + v + "' in struct '"@ + n + "' cannot be optional and array at once"@,
        Fault::MissingType(t) => "Declaration for type '"@ + t + "' does not exist"@,
        Fault::Cycle(n) => "Found a cycle between two or more top level definitions in type '"@ + n + "'"@,
        Fault::ExportNotStruct(n) => "Attempted to export '"@ + n + "', which is not a struct"@,
        Fault::ExportMissing(n) => "Export '"@ + n + "' could not be resolved"@,
    }
}
/// m reports a fault the schema really has
pub open spec fn reports(s: Seq<ast::Node>, m: Name) -> bool { exists|f: Fault| #[trigger] faulty(s, f) && m == text(f) }

pub open spec fn reports_decl(d: Decls, m: Name) -> bool { exists|f: Fault| #[trigger] bad(d, f) && m == text(f) }

// ===================== what a resolved type means ============================
pub open spec fn repr_for(n: int) -> EnumRepr {
    if n <= 8 { EnumRepr::U8 } else if n <= 16 { EnumRepr::U16 } else { EnumRepr::U32 }
}
pub open spec fn variants_match(v: Seq<&str>, r: Seq<EnumVariant>) -> bool {
    r.len() == v.len() && forall|i: int| 0 <= i < v.len() ==> (#[trigger] r[i]).name@ == v[i]@ && r[i].value == i
}
pub open spec fn enum_ok(v: Seq<&str>) -> bool {
    0 < v.len() <= 32 && forall|i: int, j: int| !#[trigger] dup_var_at(v, i, j)
}
pub open spec fn enum_match(v: Seq<&str>, e: Enum) -> bool { e.repr == repr_for(v.len() as int) && variants_match(v, e.variants@) }

/// t is the type named n, with every name in it replaced by what it stands for
pub open spec fn tree_ok(d: Decls, n: Name, t: ResolvedType) -> bool
    decreases t,
{
    match t {
        ResolvedType::Builtin(b) => builtin_of(n) == Some(b) && !d.contains_key(n),
        ResolvedType::Enum(e) => builtin_of(n) is None && is_enum(d, n) && enum_match(vars(d[n]), e),
        ResolvedType::Struct(s) => {
            &&& builtin_of(n) is None && is_struct(d, n)
            &&& s.fields@.len() == flds(d[n]).len()
            &&& forall|i: int| 0 <= i < s.fields@.len() ==> field_ok(d, flds(d[n])[i], #[trigger] s.fields@[i])
        }
    }
}
pub open spec fn field_ok(d: Decls, u: (&str, ast::Unresolved), f: StructField) -> bool
    decreases f,
{
    &&& f.name@ == u.0@
    &&& f.array == u.1.1
    &&& f.optional == u.1.2
    &&& (*f.r#type.0).0@ == u.1.0@
    &&& tree_ok(d, (*f.r#type.0).0@, (*f.r#type.0).1)
}
pub open spec fn opt_free(v: Seq<(&str, ast::Unresolved)>) -> bool { forall|i: int| !#[trigger] opt_arr_at(v, i) }
pub open spec fn entry_ok(d: Decls, n: Name, p: Ptr<(&str, ResolvedType)>) -> bool {
    &&& p.val().0@ == n
    &&& tree_ok(d, n, p.val().1)
    &&& (is_struct(d, n) ==> opt_free(flds(d[n])))
}
pub open spec fn cache_ok(d: Decls, c: Map<Name, Ptr<(&str, ResolvedType)>>) -> bool {
    forall|n: Name| #[trigger] c.contains_key(n) ==> entry_ok(d, n, c[n])
}
pub open spec fn builtins_in(c: Map<Name, Ptr<(&str, ResolvedType)>>) -> bool {
    forall|n: Name| builtin_of(n) is Some ==> #[trigger] c.contains_key(n)
}
pub open spec fn builtins_map(c: Map<Name, Ptr<(&str, ResolvedType)>>) -> bool {
    &&& forall|n: Name| #[trigger] c.contains_key(n) <==> builtin_of(n) is Some
    &&& forall|n: Name| #[trigger] c.contains_key(n) ==> c[n].val().0@ == n && c[n].val().1 == ResolvedType::Builtin(builtin_of(n)->0)
}
pub open spec fn decls_ok(d: Decls) -> bool { forall|n: Name| #[trigger] d.contains_key(n) ==> builtin_of(n) is None }
/// what the first pass checks about a declaration
pub open spec fn first_ok(t: ast::Type) -> bool {
    match t {
        ast::Type::Enum(e) => enum_ok(e.0@),
        ast::Type::Struct(s) => forall|i: int, j: int| !#[trigger] dup_fld_at(s.0@, i, j),
    }
}
pub open spec fn unres_ok<'a>(d: Decls<'a>, u: Map<Name, ast::Type<'a>>) -> bool {
    forall|n: Name| #[trigger] u.contains_key(n) ==> is_struct(d, n) && d[n] == u[n]
}
pub open spec fn grows<V>(a: Map<Name, V>, b: Map<Name, V>) -> bool { forall|n: Name| #[trigger] a.contains_key(n) ==> b.contains_key(n) }
pub open spec fn all_first_ok(d: Decls) -> bool { forall|n: Name| #[trigger] d.contains_key(n) ==> first_ok(d[n]) }
pub open spec fn all_in<V>(d: Decls, c: Map<Name, V>) -> bool { forall|n: Name| #[trigger] d.contains_key(n) ==> c.contains_key(n) }
/// (fixes the type of a set the code leaves to inference)
pub open spec fn names_in<'a>(s: HashSet<&'a str>) -> Set<Name> { s@ }
/// everything v uses is in s
pub open spec fn closed(d: Decls, v: Name, s: Set<Name>) -> bool { forall|m: Name| #[trigger] reach(d, v, m) ==> s.contains(m) }
/// n or something n uses
pub open spec fn used_by(d: Decls, n: Name, m: Name) -> bool { m == n || reach(d, n, m) }

// ===================== lemmas ================================================
pub proof fn lemma_decl_map(s: Seq<ast::Node>)
    ensures
        forall|n: Name| #[trigger] decl_map(s).contains_key(n) ==> exists|i: int| #[trigger] decl_name_at(s, i, n) && s[i]->Decl_1 == decl_map(s)[n],
        forall|i: int, n: Name| #[trigger] decl_name_at(s, i, n) ==> decl_map(s).contains_key(n),
        no_dup_decls(s) ==> forall|i: int, n: Name| #[trigger] decl_name_at(s, i, n) ==> s[i]->Decl_1 == decl_map(s)[n],
    decreases s.len(),
{
    if s.len() > 0 {
        let p = s.drop_last();
        lemma_decl_map(p);
        assert forall|i: int, n: Name| decl_name_at(p, i, n) implies decl_name_at(s, i, n) by { }
        assert forall|n: Name| #[trigger] decl_map(s).contains_key(n) implies exists|i: int| #[trigger] decl_name_at(s, i, n) && s[i]->Decl_1 == decl_map(s)[n] by {
            if s.last() is Decl && s.last()->Decl_0@ == n {
                assert(decl_name_at(s, s.len() - 1, n));
            } else {
                let i = choose|i: int| #[trigger] decl_name_at(p, i, n) && p[i]->Decl_1 == decl_map(p)[n];
                assert(decl_name_at(s, i, n));
            }
        }
        assert forall|i: int, n: Name| #[trigger] decl_name_at(s, i, n) implies decl_map(s).contains_key(n) by {
            if i < s.len() - 1 { assert(decl_name_at(p, i, n)); }
        }
        if no_dup_decls(s) {
            assert forall|i: int, j: int, n: Name| !(i < j && #[trigger] decl_name_at(p, i, n) && #[trigger] decl_name_at(p, j, n)) by {
                if i < j && decl_name_at(p, i, n) && decl_name_at(p, j, n) {
                    assert(decl_name_at(s, i, n) && decl_name_at(s, j, n));
                }
            }
            assert forall|i: int, n: Name| #[trigger] decl_name_at(s, i, n) implies s[i]->Decl_1 == decl_map(s)[n] by {
                if i < s.len() - 1 {
                    assert(decl_name_at(p, i, n));
                    if s.last() is Decl && s.last()->Decl_0@ == n { assert(decl_name_at(s, s.len() - 1, n)); assert(false); }
                }
            }
        }
    }
}
pub broadcast proof fn lemma_map_of<'a, V>(a: Seq<(&'a str, V)>)
    ensures
        #![trigger map_of(a)]
        forall|i: int| 0 <= i < a.len() ==> map_of(a).contains_key((#[trigger] a[i]).0@),
        forall|n: Name| #[trigger] map_of(a).contains_key(n) ==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == n && map_of(a)[n] == a[i].1
            && forall|j: int| i < j < a.len() ==> (#[trigger] a[j]).0@ != n,
    decreases a.len(),
{
    if a.len() > 0 {
        let p = a.drop_last();
        lemma_map_of(p);
        assert forall|i: int| 0 <= i < a.len() implies map_of(a).contains_key((#[trigger] a[i]).0@) by {
            if i < a.len() - 1 { assert(p[i] == a[i]); }
        }
        assert forall|n: Name| #[trigger] map_of(a).contains_key(n) implies exists|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == n && map_of(a)[n] == a[i].1
            && forall|j: int| i < j < a.len() ==> (#[trigger] a[j]).0@ != n by
        {
            if a.last().0@ == n {
                assert(a[a.len() - 1].0@ == n);
            } else {
                let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i]).0@ == n && map_of(p)[n] == p[i].1
                    && forall|j: int| i < j < p.len() ==> (#[trigger] p[j]).0@ != n;
                assert(a[i] == p[i]);
                assert forall|j: int| i < j < a.len() implies (#[trigger] a[j]).0@ != n by { if j < p.len() { assert(p[j] == a[j]); } }
            }
        }
    }
}
pub broadcast proof fn lemma_set_of<'a>(a: Seq<&'a str>)
    ensures
        #![trigger set_of(a)]
        forall|n: Name| #[trigger] set_of(a).contains(n) <==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == n,
    decreases a.len(),
{
    if a.len() > 0 {
        let p = a.drop_last();
        lemma_set_of(p);
        assert(set_of(a) == set_of(p).insert(a.last()@));
        assert forall|n: Name| #[trigger] set_of(a).contains(n) <==> exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == n by {
            if set_of(a).contains(n) {
                if a.last()@ == n { assert(a[a.len() - 1]@ == n); } else {
                    let i = choose|i: int| 0 <= i < p.len() && (#[trigger] p[i])@ == n;
                    assert(a[i]@ == n);
                }
            } else if exists|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == n {
                let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i])@ == n;
                if i < p.len() { assert(p[i]@ == n); }
            }
        }
    }
}
pub proof fn lemma_builtin_names()
    ensures
        builtin_of("uint8"@) == Some(Builtin::Uint8),
        builtin_of("uint16"@) == Some(Builtin::Uint16),
        builtin_of("uint32"@) == Some(Builtin::Uint32),
        builtin_of("int8"@) == Some(Builtin::Int8),
        builtin_of("int16"@) == Some(Builtin::Int16),
        builtin_of("int32"@) == Some(Builtin::Int32),
        builtin_of("float"@) == Some(Builtin::Float),
        builtin_of("string"@) == Some(Builtin::String),
{
    reveal_strlit("uint8"); reveal_strlit("uint16"); reveal_strlit("uint32");
    reveal_strlit("int8"); reveal_strlit("int16"); reveal_strlit("int32");
    reveal_strlit("float"); reveal_strlit("string");
    assert("uint8"@[4] == '8');
    assert("int8"@[0] == 'i');
    assert("float"@[0] == 'f');
    assert("uint16"@[4] == '1'); assert("uint32"@[4] == '3'); assert("uint16"@[0] == 'u'); assert("uint32"@[0] == 'u');
    assert("int16"@[0] == 'i'); assert("int32"@[0] == 'i'); assert("int16"@[3] == '1'); assert("int32"@[3] == '3');
    assert("string"@[0] == 's');
    assert("uint8"@[0] == 'u');
}
pub broadcast proof fn lemma_union<'a, V>(a: Seq<(&'a str, V)>, b: Seq<(&'a str, V)>, m: Map<Name, V>, w: Map<Name, V>)
    requires #[trigger] enumerates(a, m), #[trigger] enumerates(b, w),
    ensures
        #[trigger] map_of(a + b) == map_of(a + b),
        forall|n: Name| #[trigger] map_of(a + b).contains_key(n) <==> m.contains_key(n) || w.contains_key(n),
        forall|n: Name| #[trigger] map_of(a + b).contains_key(n) ==> map_of(a + b)[n] == (if w.contains_key(n) { w[n] } else { m[n] }),
{
    let c = a + b;
    lemma_map_of(c);
    assert forall|n: Name| (m.contains_key(n) || w.contains_key(n)) implies #[trigger] map_of(c).contains_key(n) by {
        if m.contains_key(n) {
            let i = choose|i: int| 0 <= i < a.len() && (#[trigger] a[i]).0@ == n;
            assert(c[i] == a[i]);
        } else {
            let i = choose|i: int| 0 <= i < b.len() && (#[trigger] b[i]).0@ == n;
            assert(c[a.len() + i] == b[i]);
        }
    }
    assert forall|n: Name| #[trigger] map_of(c).contains_key(n) implies (m.contains_key(n) || w.contains_key(n)) && map_of(c)[n] == (if w.contains_key(n) { w[n] } else { m[n] }) by {
        let i = choose|i: int| 0 <= i < c.len() && (#[trigger] c[i]).0@ == n && map_of(c)[n] == c[i].1 && forall|j: int| i < j < c.len() ==> (#[trigger] c[j]).0@ != n;
        if i < a.len() {
            assert(c[i] == a[i]);
            if w.contains_key(n) {
                let k = choose|k: int| 0 <= k < b.len() && (#[trigger] b[k]).0@ == n;
                assert(c[a.len() + k] == b[k]);
            }
        } else { assert(c[i] == b[i - a.len()]); }
    }
}
pub proof fn lemma_reach_step(d: Decls, a: Name, b: Name)
    requires edge(d, a, b),
    ensures reach(d, a, b),
{
    let p = seq![a, b];
    assert(walk_to(d, p, a, b));
}
pub proof fn lemma_reach_snoc(d: Decls, a: Name, b: Name, c: Name)
    requires reach(d, a, b), edge(d, b, c),
    ensures reach(d, a, c),
{
    let p = choose|p: Seq<Name>| #[trigger] walk_to(d, p, a, b);
    let q = p.push(c);
    assert forall|i: int| 0 <= i < q.len() - 1 implies edge(d, #[trigger] q[i], q[i + 1]) by {
        if i < p.len() - 1 { assert(q[i] == p[i] && q[i + 1] == p[i + 1]); }
    }
    assert(walk_to(d, q, a, c));
}
pub proof fn lemma_reach_cons(d: Decls, a: Name, b: Name, c: Name)
    requires edge(d, a, b), used_by(d, b, c),
    ensures reach(d, a, c),
{
    if c == b { lemma_reach_step(d, a, b); } else {
        let p = choose|p: Seq<Name>| #[trigger] walk_to(d, p, b, c);
        let q = seq![a] + p;
        assert forall|i: int| 0 <= i < q.len() - 1 implies edge(d, #[trigger] q[i], q[i + 1]) by {
            if i > 0 { assert(q[i] == p[i - 1] && q[i + 1] == p[i]); assert(edge(d, p[i - 1], p[i - 1 + 1])); } else { assert(q[0] == a && q[1] == p[0]); }
        }
        assert(walk_to(d, q, a, c));
    }
}
pub proof fn lemma_reach_uncons(d: Decls, a: Name, c: Name) -> (b: Name)
    requires reach(d, a, c),
    ensures edge(d, a, b), used_by(d, b, c),
{
    let p = choose|p: Seq<Name>| #[trigger] walk_to(d, p, a, c);
    let b = p[1];
    assert(edge(d, p[0], p[1]));
    if p.len() > 2 {
        let q = p.subrange(1, p.len() as int);
        assert forall|i: int| 0 <= i < q.len() - 1 implies edge(d, #[trigger] q[i], q[i + 1]) by {
            assert(q[i] == p[i + 1] && q[i + 1] == p[i + 1 + 1]);
        }
        assert(walk_to(d, q, b, c));
    }
    b
}
pub proof fn lemma_reach_trans(d: Decls, a: Name, b: Name, c: Name)
    requires reach(d, a, b), reach(d, b, c),
    ensures reach(d, a, c),
{
    let p = choose|p: Seq<Name>| #[trigger] walk_to(d, p, a, b);
    let q = choose|q: Seq<Name>| #[trigger] walk_to(d, q, b, c);
    let r = p + q.subrange(1, q.len() as int);
    assert forall|i: int| 0 <= i < r.len() - 1 implies edge(d, #[trigger] r[i], r[i + 1]) by {
        if i < p.len() - 1 { assert(r[i] == p[i] && r[i + 1] == p[i + 1]); }
        else { let j = i - (p.len() - 1); assert(r[i] == q[j] && r[i + 1] == q[j + 1]); }
    }
    assert(walk_to(d, r, a, c));
}

pub open spec fn fty<'a>(f: StructField<'a>) -> ResolvedType<'a> { (*f.r#type.0).1 }
// -- a resolved type is a finite tree, so no type can use itself
pub open spec fn height(t: ResolvedType) -> nat
    decreases t,
{
    match t { ResolvedType::Struct(s) => 1 + heights(s.fields@), _ => 0 }
}
pub open spec fn heights(f: Seq<StructField>) -> nat
    decreases f,
{
    if f.len() == 0 { 0 } else {
        let a = heights(f.drop_last());
        let b = height((*f.last().r#type.0).1);
        if a >= b { a } else { b }
    }
}
pub proof fn lemma_heights(f: Seq<StructField>, i: int)
    requires 0 <= i < f.len(),
    ensures height((*f[i].r#type.0).1) <= heights(f),
    decreases f.len(),
{
    if i < f.len() - 1 { lemma_heights(f.drop_last(), i); }
}
pub proof fn lemma_same_height(d: Decls, n: Name, t: ResolvedType, u: ResolvedType)
    requires tree_ok(d, n, t), tree_ok(d, n, u),
    ensures height(t) == height(u),
    decreases t,
{
    if let ResolvedType::Struct(s) = t {
        let r = u->Struct_0;
        assert forall|i: int| 0 <= i < s.fields@.len() implies height((*(#[trigger] s.fields@[i]).r#type.0).1) == height((*r.fields@[i].r#type.0).1) by {
            assert(field_ok(d, flds(d[n])[i], s.fields@[i]));
            assert(field_ok(d, flds(d[n])[i], r.fields@[i]));
            lemma_same_height(d, flds(d[n])[i].1.0@, (*s.fields@[i].r#type.0).1, (*r.fields@[i].r#type.0).1);
        }
        lemma_same_heights(s.fields@, r.fields@);
    }
}
pub proof fn lemma_same_heights(f: Seq<StructField>, g: Seq<StructField>)
    requires f.len() == g.len(), forall|i: int| 0 <= i < f.len() ==> height((*(#[trigger] f[i]).r#type.0).1) == height((*g[i].r#type.0).1),
    ensures heights(f) == heights(g),
    decreases f.len(),
{
    if f.len() > 0 {
        assert forall|i: int| 0 <= i < f.drop_last().len() implies height((*(#[trigger] f.drop_last()[i]).r#type.0).1) == height((*g.drop_last()[i].r#type.0).1) by { assert(f.drop_last()[i] == f[i]); }
        lemma_same_heights(f.drop_last(), g.drop_last());
        assert(height((*f[f.len() - 1].r#type.0).1) == height((*g[f.len() - 1].r#type.0).1));
    }
}
/// the subtree at the end of a walk is lower
pub proof fn lemma_descend<'a>(d: Decls<'a>, p: Seq<Name>, a: Name, b: Name, t: ResolvedType<'a>) -> (u: ResolvedType<'a>)
    requires walk_to(d, p, a, b), tree_ok(d, a, t),
    ensures tree_ok(d, b, u), height(u) < height(t),
    decreases p.len(),
{
    if p.len() == 2 {
        assert(edge(d, p[0], p[1]));
        lemma_child(d, a, b, t)
    } else {
        let q = p.drop_last();
        let m = p[p.len() - 2];
        assert forall|i: int| 0 <= i < q.len() - 1 implies edge(d, #[trigger] q[i], q[i + 1]) by { assert(q[i] == p[i] && q[i + 1] == p[i + 1]); }
        assert(walk_to(d, q, a, m));
        let v = lemma_descend(d, q, a, m, t);
        assert(edge(d, p[p.len() - 2], p[p.len() - 2 + 1]));
        lemma_child(d, m, b, v)
    }
}
pub proof fn lemma_child<'a>(d: Decls<'a>, a: Name, b: Name, t: ResolvedType<'a>) -> (u: ResolvedType<'a>)
    requires edge(d, a, b), tree_ok(d, a, t),
    ensures tree_ok(d, b, u), height(u) < height(t),
{
    let j = choose|j: int| #[trigger] field_ty_at(d[a], j, b);
    let s = t->Struct_0;
    assert(t is Struct);
    assert(field_ok(d, flds(d[a])[j], s.fields@[j]));
    lemma_heights(s.fields@, j);
    fty(s.fields@[j])
}
pub proof fn lemma_acyclic(d: Decls, n: Name, t: ResolvedType)
    requires tree_ok(d, n, t),
    ensures !reach(d, n, n),
{
    if reach(d, n, n) {
        let p = choose|p: Seq<Name>| #[trigger] walk_to(d, p, n, n);
        let u = lemma_descend(d, p, n, n, t);
        lemma_same_height(d, n, t, u);
    }
}
/// everything used by a resolved type is declared or built in
pub proof fn lemma_used_resolved<'a>(d: Decls<'a>, n: Name, m: Name, t: ResolvedType<'a>) -> (u: ResolvedType<'a>)
    requires tree_ok(d, n, t), used_by(d, n, m),
    ensures tree_ok(d, m, u), m != n ==> height(u) < height(t),
{
    if m == n { t } else {
        let p = choose|p: Seq<Name>| #[trigger] walk_to(d, p, n, m);
        lemma_descend(d, p, n, m, t)
    }
}

// ===================== contracts ==============================================
/// once every declaration is resolved and the first pass found nothing, the declarations obey every rule
pub broadcast proof fn lemma_no_faults(d: Decls, c: Map<Name, Ptr<(&str, ResolvedType)>>)
    requires decls_ok(d), #[trigger] cache_ok(d, c), #[trigger] all_in(d, c), all_first_ok(d),
    ensures forall|f: Fault| !#[trigger] bad(d, f),
{
    assert forall|f: Fault| !#[trigger] bad(d, f) by {
        if bad(d, f) {
            match f {
                Fault::OptionalArray(v, n) => {
                    assert(entry_ok(d, n, c[n]));
                    let i = choose|i: int| #[trigger] opt_arr_at(flds(d[n]), i);
                    assert(!opt_arr_at(flds(d[n]), i));
                }
                Fault::MissingType(t) => {
                    let n = choose|n: Name| #[trigger] edge(d, n, t);
                    assert(entry_ok(d, n, c[n]));
                    lemma_child(d, n, t, c[n].val().1);
                }
                Fault::Cycle(n) => {
                    let b = lemma_reach_uncons(d, n, n);
                    assert(entry_ok(d, n, c[n]));
                    lemma_acyclic(d, n, c[n].val().1);
                }
                _ => { }
            }
        }
    }
}
//@fn check::get_export -> r
//@prop C01 C02 C03
//@spec
    ensures
        r matches Ok(e) ==> !faulty($1@, Fault::NoExport), // #C01
        r matches Ok(e) ==> !faulty($1@, Fault::MultiExport), // #C01
        r matches Ok(e) ==> exports($1@, e@), // #C06
        r matches Err(m) ==> (faulty($1@, Fault::NoExport) && m@ == text(Fault::NoExport)) || (faulty($1@, Fault::MultiExport) && m@ == text(Fault::MultiExport)), // #C02 #C03
//@loop 1
        oname(${let:None}) matches Some(e) ==> exists|i: int| 0 <= i < ${k1} && #[trigger] is_export_at($1@, i) && $1@[i]->Export_0@ == e,
        oname(${let:None}) matches Some(e) ==> forall|i: int, j: int| 0 <= i < j < ${k1} ==> !(#[trigger] is_export_at($1@, i) && #[trigger] is_export_at($1@, j)),
        oname(${let:None}) is None ==> forall|i: int| 0 <= i < ${k1} ==> !#[trigger] is_export_at($1@, i),
//@loopstart 1
        assert(is_export_at($1@, ${k1} - 1) == (*${it1}@[${k1} - 1] is Export));

//@fn check::collect_types -> r
//@prop C01 C02 C03
//@spec
    ensures
        r matches Ok(m) ==> m@ == decl_map($1@) && no_dup_decls($1@), // #C01
        r matches Ok(m) ==> forall|n: Name| !#[trigger] faulty($1@, Fault::DupDecl(n)), // #C01
        r matches Err(m) ==> exists|n: Name| #[trigger] faulty($1@, Fault::DupDecl(n)) && m@ == text(Fault::DupDecl(n)), // #C02 #C03
//@loop 1
        ${let:HashMap::new()}@ == decl_map($1@.take(${k1} as int)),
        no_dup_decls($1@.take(${k1} as int)),
//@loopstart 1
        proof {
            let s0 = $1@.take(${k1} - 1);
            let s1 = $1@.take(${k1} as int);
            assert(s1.drop_last() =~= s0);
            assert(s1.last() == $1@[${k1} - 1]);
            lemma_decl_map(s0);
            assert forall|i: int, n: Name| #[trigger] decl_name_at(s1, i, n) implies i == ${k1} - 1 || decl_name_at(s0, i, n) by { }
            assert forall|i: int, n: Name| #[trigger] decl_name_at(s0, i, n) implies decl_name_at($1@, i, n) by { }
            if $1@[${k1} - 1] is Decl {
                let n = $1@[${k1} - 1]->Decl_0@;
                assert(decl_name_at($1@, ${k1} - 1, n));
                if decl_map(s0).contains_key(n) {
                    let i = choose|i: int| #[trigger] decl_name_at(s0, i, n) && s0[i]->Decl_1 == decl_map(s0)[n];
                    assert(decl_name_at($1@, i, n));
                    let j: int = ${k1} - 1;
                    assert(i < j && decl_name_at($1@, i, n) && decl_name_at($1@, j, n));
                    assert(dup_decl($1@, n));
                    assert(faulty($1@, Fault::DupDecl(n)));
                }
            }
        }
//@exit
        proof { assert($1@.take($1@.len() as int) =~= $1@); }

//@fn check::get_builtins -> r
//@prop C01 C02 C04
//@spec
    ensures
        builtins_map(r@),
//@entry
        broadcast use lemma_map_of;
        proof { lemma_builtin_names(); }

//@fn check::resolve_struct_field -> r
//@prop C01 C02 C03 C04
//@spec
    ensures
        r matches Ok(Some(f)) ==> $3@.contains_key($2.0@) && !($2.1 && $2.2), // #C01
        r matches Ok(Some(f)) ==> f.name == $1 && f.r#type == $3@[$2.0@] && f.array == $2.1 && f.optional == $2.2, // #C04
        r matches Ok(None) ==> !$3@.contains_key($2.0@), // #C01 #C02
        r matches Err(m) ==> $2.1 && $2.2 && m@ == text(Fault::OptionalArray($1@, $4@)), // #C02 #C03

//@fn check::resolve_enum -> r
//@prop C01 C02 C03 C05
//@spec
    ensures
        r matches Ok(x) ==> enum_ok($2.0@), // #C01
        r matches Ok(x) ==> x.0 == repr_for($2.0@.len() as int), // #C05
        r matches Ok(x) ==> variants_match($2.0@, x.1@), // #C05
        r matches Err(m) ==> ($2.0@.len() == 0 && m@ == text(Fault::EmptyEnum($1@)))
            || ($2.0@.len() > 32 && m@ == text(Fault::TooManyVariants($1@, $2.0@.len() as int)))
            || (exists|v: Name| #[trigger] dup_variant($2.0@, v) && m@ == text(Fault::DupVariant(v, $1@))), // #C02 #C03
//@loop 1
        ?${let:0usize} == ${k1},
        forall|n: Name| #[trigger] ${let:HashSet::new()|.v_collect()}@.contains(n) <==> exists|i: int| 0 <= i < ${k1} && (#[trigger] $2.0@[i])@ == n,
        forall|i: int, j: int| j < ${k1} ==> !#[trigger] dup_var_at($2.0@, i, j),
        variants_match($2.0@.take(${k1} as int), ${let:Vec::with_capacity}@),
//@loopstart 1
        let ghost __s0 = ${let:HashSet::new()|.v_collect()}@;
        assert($2.0@.take(${k1} as int).drop_last() =~= $2.0@.take(${k1} - 1));
        assert forall|i: int| #[trigger] dup_var_at($2.0@, i, ${k1} - 1) implies __s0.contains($2.0@[${k1} - 1]@) by { }
        proof {
            if __s0.contains($2.0@[${k1} - 1]@) {
                let i = choose|i: int| 0 <= i < ${k1} - 1 && (#[trigger] $2.0@[i])@ == $2.0@[${k1} - 1]@;
                assert(dup_var_at($2.0@, i, ${k1} - 1));
                assert(dup_variant($2.0@, $2.0@[${k1} - 1]@));
            }
        }
//@exit
        assert($2.0@.take($2.0@.len() as int) =~= $2.0@);

//@fn check::resolve_one_first_pass -> r
//@prop C01 C02 C03 C04
//@ghost Ghost(d): Ghost<Decls<'a>>
//@spec
    requires
        decls_ok(d), builtins_map($3@), d.contains_key($1@), d[$1@] == $2,
    ensures
        r matches Err(m) ==> reports_decl(d, m@), // #C02 #C03
        r is Ok ==> first_ok($2), // #C01
        r is Ok ==> (($2 is Struct && final($4)@ == old($4)@ && final($5)@ == old($5)@)
            || (final($4)@.contains_key($1@) && entry_ok(d, $1@, final($4)@[$1@]) && final($4)@ == old($4)@.insert($1@, final($4)@[$1@]) && final($5)@ == old($5)@.remove($1@))), // #C02 #C04
//@loop 1
        forall|n: Name| #[trigger] ${let:HashSet::new()|.v_collect()}@.contains(n) <==> exists|i: int| 0 <= i < ${k1} && (#[trigger] flds($2)[i]).0@ == n,
        forall|i: int, j: int| j < ${k1} ==> !#[trigger] dup_fld_at(flds($2), i, j),
        ${let:Vec::new()}@.len() <= ${k1},
        ${let:Vec::new()}@.len() == ${k1} ==> forall|i: int| 0 <= i < ${k1} ==> field_ok(d, flds($2)[i], #[trigger] ${let:Vec::new()}@[i]),
        ${let:Vec::new()}@.len() == ${k1} ==> forall|i: int| 0 <= i < ${k1} ==> !#[trigger] opt_arr_at(flds($2), i),
//@loopstart 1
        let ghost __s0 = ${let:HashSet::new()|.v_collect()}@;
        proof {
            let j = ${k1} - 1;
            assert(flds($2)[j] == *${it1}@[j]);
            if __s0.contains(flds($2)[j].0@) {
                let i = choose|i: int| 0 <= i < j && (#[trigger] flds($2)[i]).0@ == flds($2)[j].0@;
                assert(dup_fld_at(flds($2), i, j));
                assert(dup_field(flds($2), flds($2)[j].0@));
                assert(bad(d, Fault::DupField(flds($2)[j].0@, $1@)));
            }
            if flds($2)[j].1.1 && flds($2)[j].1.2 {
                assert(opt_arr_at(flds($2), j));
                assert(opt_array(flds($2), flds($2)[j].0@));
                assert(bad(d, Fault::OptionalArray(flds($2)[j].0@, $1@)));
            }
        }
//@entry
        proof {
            if $2 is Enum {
                let e = $2->Enum_0;
                assert(e.0@ == vars(d[$1@]));
                assert(forall|v: Name| #[trigger] dup_variant(e.0@, v) ==> bad(d, Fault::DupVariant(v, $1@)));
                assert(e.0@.len() == 0 ==> bad(d, Fault::EmptyEnum($1@)));
                assert(e.0@.len() > 32 ==> bad(d, Fault::TooManyVariants($1@, e.0@.len() as int)));
            }
        }

//@fn check::resolve_first_pass -> r
//@prop C01 C02 C03 C04
//@ghost Ghost(d): Ghost<Decls<'a>>
//@call resolve_one_first_pass Ghost(d)
//@spec
    requires
        d == decl_map($1@), no_dup_decls($1@), decls_ok(d), builtins_map($2@),
        old($3)@ == Map::<Name, Ptr<(&'a str, ResolvedType<'a>)>>::empty(), old($4)@ == d,
    ensures
        r matches Err(m) ==> reports_decl(d, m@), // #C02 #C03
        r is Ok ==> all_first_ok(d), // #C01
        r is Ok ==> cache_ok(d, final($3)@) && unres_ok(d, final($4)@), // #C02 #C04
        r is Ok ==> forall|n: Name| #[trigger] final($3)@.contains_key(n) ==> d.contains_key(n),
        r is Ok ==> forall|n: Name| #[trigger] d.contains_key(n) ==> final($3)@.contains_key(n) || final($4)@.contains_key(n), // #C02
//@entry
        proof { lemma_decl_map($1@); }
//@loop 1
        ${it1}@ == $1@,
        cache_ok(d, $3@),
        forall|n: Name| #[trigger] $3@.contains_key(n) ==> d.contains_key(n),
        forall|n: Name| #[trigger] $4@.contains_key(n) ==> d.contains_key(n) && d[n] == $4@[n],
        forall|n: Name| #[trigger] d.contains_key(n) ==> $3@.contains_key(n) || $4@.contains_key(n),
        forall|n: Name| #[trigger] d.contains_key(n) && $3@.contains_key(n) ==> !$4@.contains_key(n),
        forall|i: int, n: Name| i < ${k1} && #[trigger] decl_name_at($1@, i, n) ==> first_ok(d[n]) && (d[n] is Enum ==> $3@.contains_key(n)),
//@loopstart 1
        proof { if $1@[${k1} - 1] is Decl { assert(decl_name_at($1@, ${k1} - 1, $1@[${k1} - 1]->Decl_0@)); } }
//@exit
        proof {
            assert forall|n: Name| #[trigger] d.contains_key(n) implies first_ok(d[n]) && (d[n] is Enum ==> $3@.contains_key(n)) by {
                let i = choose|i: int| #[trigger] decl_name_at($1@, i, n) && $1@[i]->Decl_1 == decl_map($1@)[n];
            }
        }

//@fn check::resolve_one_second_pass -> r
//@prop C01 C02 C03 C04
//@ghost Ghost(d): Ghost<Decls<'a>>
//@call resolve_one_second_pass Ghost(d)
//@spec
    requires
        decls_ok(d), d.contains_key($1@), d[$1@] == $2, $2 is Struct,
        cache_ok(d, old($3)@), builtins_in(old($3)@), unres_ok(d, old($5)@),
        forall|n: Name| #[trigger] d.contains_key(n) ==> old($3)@.contains_key(n) || old($5)@.contains_key(n) || old($4)@.contains(n) || n == $1@,
        forall|n: Name| #[trigger] old($4)@.contains(n) && !old($3)@.contains_key(n) ==> reach(d, n, $1@),
    ensures
        r matches Err(m) ==> reports_decl(d, m@), // #C02 #C03
        r is Ok ==> cache_ok(d, final($3)@), // #C01 #C04
        r is Ok ==> builtins_in(final($3)@),
        r is Ok ==> forall|n: Name| #[trigger] old($4)@.contains(n) ==> final($4)@.contains(n),
        r is Ok ==> final($3)@.contains_key($1@) && grows(old($3)@, final($3)@), // #C01 #C02
        r is Ok ==> unres_ok(d, final($5)@) && grows(final($5)@, old($5)@),
        r is Ok ==> forall|n: Name| #[trigger] d.contains_key(n) ==> final($3)@.contains_key(n) || final($5)@.contains_key(n) || final($4)@.contains(n),
        r is Ok ==> forall|n: Name| #[trigger] final($4)@.contains(n) && !final($3)@.contains_key(n) ==> old($4)@.contains(n) && !old($3)@.contains_key(n),
    decreases old($5)@.dom().len(),
//@entry
        proof {
            if old($4)@.contains($1@) && !old($3)@.contains_key($1@) { assert(bad(d, Fault::Cycle($1@))); }
        }
//@loop 1
        cache_ok(d, $3@), builtins_in($3@), unres_ok(d, $5@),
        grows(old($3)@, $3@), grows($5@, old($5)@),
        $4@.contains($1@),
        forall|n: Name| #[trigger] old($4)@.contains(n) ==> $4@.contains(n),
        forall|n: Name| #[trigger] d.contains_key(n) ==> $3@.contains_key(n) || $5@.contains_key(n) || $4@.contains(n),
        forall|n: Name| #[trigger] $4@.contains(n) && !$3@.contains_key(n) ==> n == $1@ || (old($4)@.contains(n) && !old($3)@.contains_key(n)),
        forall|j: int| 0 <= j < ${k1} ==> $3@.contains_key((#[trigger] flds($2)[j]).1.0@),
//@loopstart 1
        let ghost __u0 = $5@;
        proof {
            let j = ${k1} - 1;
            let t = flds($2)[j].1.0@;
            assert(flds($2)[j] == *${it1}@[j]);
            assert(field_ty_at(d[$1@], j, t));
            assert(edge(d, $1@, t));
            lemma_reach_step(d, $1@, t);
            assert forall|n: Name| #[trigger] $4@.contains(n) && !$3@.contains_key(n) implies reach(d, n, t) by {
                if n != $1@ { lemma_reach_snoc(d, n, $1@, t); }
            }
            if $4@.contains(t) && !$3@.contains_key(t) { assert(bad(d, Fault::Cycle(t))); }
            if !d.contains_key(t) && builtin_of(t) is None { assert(missing(d, t)); assert(bad(d, Fault::MissingType(t))); }
            assert($5@.dom().subset_of(old($5)@.dom())) by { assert(forall|n: Name| $5@.dom().contains(n) ==> $5@.contains_key(n)); }
            assert($5@.dom().remove(t) =~= $5@.remove(t).dom());
            vstd::set_lib::lemma_len_subset($5@.dom(), old($5)@.dom());
        }
//@loop 2
        ${let:Vec::new()}@.len() == ${k2},
        forall|i: int| 0 <= i < ${k2} ==> field_ok(d, flds($2)[i], #[trigger] ${let:Vec::new()}@[i]),
        forall|i: int| 0 <= i < ${k2} ==> !#[trigger] opt_arr_at(flds($2), i),
//@loopstart 2
        proof {
            let j = ${k2} - 1;
            assert($3@.contains_key(flds($2)[j].1.0@));
            if flds($2)[j].1.1 && flds($2)[j].1.2 {
                assert(opt_arr_at(flds($2), j));
                assert(opt_array(flds($2), flds($2)[j].0@));
                assert(bad(d, Fault::OptionalArray(flds($2)[j].0@, $1@)));
            }
        }

//@fn check::resolve_second_pass -> r
//@prop C01 C02 C03 C04
//@ghost Ghost(d): Ghost<Decls<'a>>
//@call resolve_one_second_pass Ghost(d)
//@spec
    requires
        decls_ok(d), cache_ok(d, old($1)@), builtins_in(old($1)@), unres_ok(d, $2@),
        forall|n: Name| #[trigger] d.contains_key(n) ==> old($1)@.contains_key(n) || $2@.contains_key(n),
    ensures
        r matches Err(m) ==> reports_decl(d, m@), // #C02 #C03
        r is Ok ==> cache_ok(d, final($1)@) && builtins_in(final($1)@), // #C01 #C04
        r is Ok ==> all_in(d, final($1)@), // #C01 #C02
//@entry
        let ghost __u = $2@;
//@loop 1
        enumerates(${it1}@, __u),
        cache_ok(d, $1@), builtins_in($1@), unres_ok(d, $2@),
        grows(old($1)@, $1@),
        forall|n: Name| #[trigger] d.contains_key(n) ==> $1@.contains_key(n) || $2@.contains_key(n) || ${let:HashSet::new()|.v_collect()}@.contains(n),
        forall|n: Name| #[trigger] ${let:HashSet::new()|.v_collect()}@.contains(n) ==> $1@.contains_key(n),
        forall|j: int| 0 <= j < ${k1} ==> $1@.contains_key((#[trigger] ${it1}@[j]).0@),

//@fn check::ResolvedType::get_struct_variant -> r
//@prop C04 C06
//@spec
    ensures r == (match *$1 { ResolvedType::Struct(s) => Some(s), _ => None }),

//@fn check::collect_used_types
//@prop C06
//@ghost Ghost(d): Ghost<Decls<'a>>
//@call collect_used_types Ghost(d)
//@spec
    requires
        tree_ok(d, $2.0@, $2.1),
        forall|v: Name| #[trigger] old($1)@.contains(v) ==> closed(d, v, old($1)@) || reach(d, v, $2.0@),
    ensures
        forall|m: Name| #[trigger] final($1)@.contains(m) <==> old($1)@.contains(m) || used_by(d, $2.0@, m), // #C06
    decreases $2.1,
//@entry
        let ghost __n = $2.0@;
        let ghost __fs = if $2.1 is Struct { $2.1->Struct_0.fields@ } else { Seq::empty() };
        proof {
            lemma_acyclic(d, __n, $2.1);
            if !($2.1 is Struct) {
                assert forall|m: Name| !reach(d, __n, m) by {
                    if reach(d, __n, m) { let b = lemma_reach_uncons(d, __n, m); }
                }
            }
        }
//@loop 1
        forall|m: Name| #[trigger] $1@.contains(m) <==> old($1)@.contains(m) || m == __n || exists|j: int| 0 <= j < ${k1} && used_by(d, (*(#[trigger] __fs[j]).r#type.0).0@, m),
//@loopstart 1
        let ghost __v0 = $1@;
        proof {
            let i = ${k1} - 1;
            assert(__fs[i] == *${it1}@[i]);
            assert(field_ok(d, flds(d[__n])[i], __fs[i]));
            let c = (*__fs[i].r#type.0).0@;
            assert(field_ty_at(d[__n], i, c));
            assert(edge(d, __n, c));
            lemma_reach_step(d, __n, c);
            // everything already visited is closed or an ancestor of c
            assert forall|v: Name| #[trigger] __v0.contains(v) implies closed(d, v, __v0) || reach(d, v, c) by {
                if v == __n {
                } else if old($1)@.contains(v) {
                    if reach(d, v, __n) { lemma_reach_snoc(d, v, __n, c); }
                } else {
                    let j = choose|j: int| 0 <= j < i && used_by(d, (*(#[trigger] __fs[j]).r#type.0).0@, v);
                    let cj = (*__fs[j].r#type.0).0@;
                    assert forall|m: Name| #[trigger] reach(d, v, m) implies __v0.contains(m) by {
                        if v != cj { lemma_reach_trans(d, cj, v, m); }
                        assert(used_by(d, (*__fs[j].r#type.0).0@, m));
                    }
                }
            }
            // a child that was already visited cannot be an ancestor
            if __v0.contains(c) {
                lemma_acyclic(d, c, fty(__fs[i]));
                assert(closed(d, c, __v0));
                assert forall|m: Name| #[trigger] used_by(d, c, m) implies __v0.contains(m) by { }
            }
        }
//@exit
        proof {
            assert forall|m: Name| #[trigger] $1@.contains(m) <==> old($1)@.contains(m) || used_by(d, __n, m) by {
                if reach(d, __n, m) {
                    let b = lemma_reach_uncons(d, __n, m);
                    let j = choose|j: int| #[trigger] field_ty_at(d[__n], j, b);
                    assert(field_ok(d, flds(d[__n])[j], __fs[j]));
                    assert(used_by(d, (*__fs[j].r#type.0).0@, m));
                }
                if $2.1 is Struct && $1@.contains(m) && !old($1)@.contains(m) && m != __n {
                    let j = choose|j: int| 0 <= j < __fs.len() && used_by(d, (*(#[trigger] __fs[j]).r#type.0).0@, m);
                    assert(field_ok(d, flds(d[__n])[j], __fs[j]));
                    assert(field_ty_at(d[__n], j, (*__fs[j].r#type.0).0@));
                    lemma_reach_cons(d, __n, (*__fs[j].r#type.0).0@, m);
                }
            }
        }

//@fn check::remove_unused
//@prop C06
//@call v_retain_keys Ghost(|n: Name| $1@.contains(n))
//@spec
    ensures
        forall|n: Name| #[trigger] final($2)@.contains_key(n) <==> old($2)@.contains_key(n) && $1@.contains(n), // #C06
        forall|n: Name| #[trigger] final($2)@.contains_key(n) ==> final($2)@[n] == old($2)@[n], // #C04
//@closure 1
|$p1: &&'a str| -> (b: bool) ensures b == $1@.contains($p1@)

//@fn check::resolve_export -> r
//@prop C01 C03 C06
//@ghost Ghost(d): Ghost<Decls<'a>>
//@call collect_used_types Ghost(d)
//@spec
    requires
        decls_ok(d), cache_ok(d, old($2)@), builtins_in(old($2)@),
        all_in(d, old($2)@),
    ensures
        r matches Ok(x) ==> is_struct(d, $1@), // #C01
        r matches Ok(x) ==> x.name == $1 && tree_ok(d, $1@, ResolvedType::Struct(x.r#struct)), // #C04
        r matches Ok(x) ==> forall|n: Name| #[trigger] final($2)@.contains_key(n) <==> used_by(d, $1@, n), // #C06
        r matches Ok(x) ==> forall|n: Name| #[trigger] final($2)@.contains_key(n) ==> old($2)@.contains_key(n) && final($2)@[n] == old($2)@[n], // #C04
        r matches Err(m) ==> (old($2)@.contains_key($1@) && !is_struct(d, $1@) && m@ == text(Fault::ExportNotStruct($1@)))
            || (!old($2)@.contains_key($1@) && m@ == text(Fault::ExportMissing($1@))), // #C02 #C03
//@entry
        broadcast use lemma_set_of;
        let ghost __fs = if old($2)@.contains_key($1@) && old($2)@[$1@].val().1 is Struct { old($2)@[$1@].val().1->Struct_0.fields@ } else { Seq::empty() };
//@loop 1
        forall|m: Name| #[trigger] names_in(${let:.v_collect()|HashSet::new()}).contains(m) <==> m == $1@ || exists|j: int| 0 <= j < ${k1} && used_by(d, (*(#[trigger] __fs[j]).r#type.0).0@, m),
//@loopstart 1
        proof {
            let i = ${k1} - 1;
            let __v0 = names_in(${let:.v_collect()|HashSet::new()});
            assert(__fs[i] == *${it1}@[i]);
            assert(field_ok(d, flds(d[$1@])[i], __fs[i]));
            let c = (*__fs[i].r#type.0).0@;
            assert(field_ty_at(d[$1@], i, c));
            assert(edge(d, $1@, c));
            lemma_reach_step(d, $1@, c);
            assert forall|v: Name| #[trigger] __v0.contains(v) implies closed(d, v, __v0) || reach(d, v, c) by {
                if v != $1@ {
                    let j = choose|j: int| 0 <= j < i && used_by(d, (*(#[trigger] __fs[j]).r#type.0).0@, v);
                    let cj = (*__fs[j].r#type.0).0@;
                    assert forall|m: Name| #[trigger] reach(d, v, m) implies __v0.contains(m) by {
                        if v != cj { lemma_reach_trans(d, cj, v, m); }
                        assert(used_by(d, (*__fs[j].r#type.0).0@, m));
                    }
                }
            }
        }
//@loopafter 1
        proof {
            let __v1 = names_in(${let:.v_collect()|HashSet::new()});
            assert forall|m: Name| #[trigger] __v1.contains(m) <==> used_by(d, $1@, m) by {
                if reach(d, $1@, m) {
                    let b = lemma_reach_uncons(d, $1@, m);
                    let j = choose|j: int| #[trigger] field_ty_at(d[$1@], j, b);
                    assert(field_ok(d, flds(d[$1@])[j], __fs[j]));
                    assert(used_by(d, (*__fs[j].r#type.0).0@, m));
                }
                if __v1.contains(m) && m != $1@ {
                    let j = choose|j: int| 0 <= j < __fs.len() && used_by(d, (*(#[trigger] __fs[j]).r#type.0).0@, m);
                    assert(field_ok(d, flds(d[$1@])[j], __fs[j]));
                    assert(field_ty_at(d[$1@], j, (*__fs[j].r#type.0).0@));
                    lemma_reach_cons(d, $1@, (*__fs[j].r#type.0).0@, m);
                }
            }
            assert forall|m: Name| #[trigger] used_by(d, $1@, m) implies old($2)@.contains_key(m) by {
                let u = lemma_used_resolved(d, $1@, m, old($2)@[$1@].val().1);
            }
        }

//@fn check::type_check -> r
//@prop C01 C02 C03 C04 C06
//@call resolve_first_pass Ghost(__d)
//@call resolve_second_pass Ghost(__d)
//@call resolve_export Ghost(__d)
//@spec
    requires
        names_ok($1@),
    ensures
        r is Ok ==> forall|f: Fault| !#[trigger] faulty($1@, f), // #C01
        (forall|f: Fault| !#[trigger] faulty($1@, f)) ==> r is Ok, // #C02
        r matches Err(m) ==> reports($1@, m@), // #C03
        r matches Ok(x) ==> exports($1@, x.export.name@) && tree_ok(decl_map($1@), x.export.name@, ResolvedType::Struct(x.export.r#struct)), // #C04
        r matches Ok(x) ==> forall|n: Name| #[trigger] x.types@.contains_key(n) ==> entry_ok(decl_map($1@), n, x.types@[n]), // #C04
        r matches Ok(x) ==> forall|n: Name| #[trigger] x.types@.contains_key(n) <==> used_by(decl_map($1@), x.export.name@, n), // #C06
//@entry
        broadcast use {lemma_union, lemma_no_faults};
        let ghost __d = decl_map($1@);
        proof {
            lemma_decl_map($1@);
            assert(decls_ok(__d));
            assert forall|m: Name| #[trigger] reports_decl(__d, m) implies reports($1@, m) by {
                let f = choose|f: Fault| #[trigger] bad(__d, f) && m == text(f);
                assert(faulty($1@, f));
            }
            assert forall|n: Name| exports($1@, n) && (builtin_of(n) is Some || is_enum(__d, n)) implies reports($1@, #[trigger] text(Fault::ExportNotStruct(n))) by {
                assert(faulty($1@, Fault::ExportNotStruct(n)));
            }
            assert forall|n: Name| exports($1@, n) && builtin_of(n) is None && !__d.contains_key(n) implies reports($1@, #[trigger] text(Fault::ExportMissing(n))) by {
                assert(faulty($1@, Fault::ExportMissing(n)));
            }
        }
