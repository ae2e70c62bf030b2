//@raw ts.use
use crate::model::*;
use crate::check::ResolvedType;
use crate::gen_ctx::*;
//@raw ts
/// derived
impl TypeScript {
    #[verifier::external_body]
    pub fn default() -> (r: TypeScript) { unimplemented!() }
}
broadcast use {crate::lits::tokens, crate::prelude::strings, crate::model::locals};
//@fn ts::gen_write_impl_builtin
//@prop C07 C08 C10
    requires path(*old($1)).len() > 0, $3@ == prim_name(*$2),
    ensures
        same_place(*old($1), *final($1)),
        final($1).declared@ == old($1).declared@,
        w_text(old($1).out@, final($1).out@, old($1).indentation@, old($1).declared@, final($1).declared@, path(*old($1)), What::Mod(ResolvedType::Builtin(*$2), false, false)),
//@entry
    proof { lemma_wt_builtin($1.out@, $1.indentation@, $1.declared@, path(*$1), *$2); }
//@fn ts::gen_write_impl_enum
//@prop C07 C08 C10
    requires path(*old($1)).len() > 0,
    ensures
        same_place(*old($1), *final($1)),
        final($1).declared@ == old($1).declared@,
        w_text(old($1).out@, final($1).out@, old($1).indentation@, old($1).declared@, final($1).declared@, path(*old($1)), What::Mod(ResolvedType::Enum(*$2), false, false)),
//@entry
    proof { lemma_wt_enum($1.out@, $1.indentation@, $1.declared@, path(*$1), *$2); }
//@fn ts::gen_write_impl_struct
//@attr #[verifier::rlimit(400)]
//@attr #[verifier::spinoff_prover]
//@spec
//@prop C07 C08 C10
    requires path(*old($1)).len() > 0, known(old($1).declared@, path(*old($1))[0]), wf_struct(*$2),
    ensures
        same_place(*old($1), *final($1)),
        w_text(old($1).out@, final($1).out@, old($1).indentation@, old($1).declared@, final($1).declared@, path(*old($1)), What::Mod(ResolvedType::Struct(*$2), false, false)),
    decreases *$2,
//@entry
    broadcast use crate::model::w_texts;
    proof { lemma_wt_none($1.out@, $1.indentation@, $1.declared@, path(*$1), *$2); }
//@loop 1
        same_place(*old($1), *$1),
        w_text(old($1).out@, $1.out@, old($1).indentation@, old($1).declared@, $1.declared@, path(*old($1)), What::Fields(*$2, ${k1} as nat)),
//@loopstart 1
    let ghost __e = *${it1}@[${k1} - 1];
    proof { assert(wf_field(__e)); }
    let ghost __c = *$1;
//@loopend 1
    proof {
        assert($1.stack@ == __c.stack@);
        assert($1.indentation@ == __c.indentation@);
        if __e.array { assert(w_text(__c.out@, $1.out@, __c.indentation@, __c.declared@, $1.declared@, path(__c).push(__e.name@), What::Mod(crate::check::fty(__e), __e.array, __e.optional))); } else { assert(w_text(__c.out@, $1.out@, __c.indentation@, __c.declared@, $1.declared@, path(__c).push(__e.name@), What::Mod(crate::check::fty(__e), __e.array, __e.optional))); }
    }
//@exit
    proof { lemma_wt_struct(old($1).out@, $1.out@, old($1).indentation@, old($1).declared@, $1.declared@, path(*old($1)), *$2); }
//@fn ts::gen_read_impl_builtin
//@prop C08 C09 C10
    requires path(*old($1)).len() > 0, known(old($1).declared@, path(*old($1))[0]), $3@ == prim_name(*$2),
    ensures
        same_place(*old($1), *final($1)),
        r_text(old($1).out@, final($1).out@, old($1).indentation@, old($1).declared@, final($1).declared@, path(*old($1)), What::Mod(ResolvedType::Builtin(*$2), false, false)),
//@entry
    proof { lemma_rt_builtin($1.out@, $1.indentation@, $1.declared@, path(*$1), *$2); }
//@fn ts::gen_read_impl_enum
//@prop C05 C08 C09 C10
    requires path(*old($1)).len() > 0, known(old($1).declared@, path(*old($1))[0]), wf_enum(*$2),
    ensures
        same_place(*old($1), *final($1)),
        r_text(old($1).out@, final($1).out@, old($1).indentation@, old($1).declared@, final($1).declared@, path(*old($1)), What::Mod(ResolvedType::Enum(*$2), false, false)),
//@entry
    broadcast use crate::model::b_shift;
    proof { lemma_rt_enum($1.out@, $1.indentation@, $1.declared@, path(*$1), *$2); }
//@fn ts::gen_read_impl_struct
//@attr #[verifier::rlimit(400)]
//@attr #[verifier::spinoff_prover]
//@spec
//@prop C08 C09 C10
    requires
        known(old($1).declared@, path(*old($1))[0]), wf_struct(*$2),
        $4 ==> path(*old($1)).len() >= 2,
        !$4 ==> path(*old($1)).len() == 1,
    ensures
        same_place(*old($1), *final($1)),
        r_text(old($1).out@, final($1).out@, old($1).indentation@, old($1).declared@, final($1).declared@, path(*old($1)), if $4 { What::Mod(ResolvedType::Struct(*$2), false, false) } else { What::Fields(*$2, $2.fields@.len()) }),
    decreases *$2,
//@entry
    broadcast use crate::model::r_texts;
    let ghost mut __b: Name = $1.out@;
//@loop 1
        $4 == (${let:v_swap|None} is Some),
        *final($1.out) == *final(old($1).out),
        $1.indentation@ == old($1).indentation@,
        !$4 ==> $1.stack@ == old($1).stack@ && r_text(old($1).out@, $1.out@, old($1).indentation@, old($1).declared@, $1.declared@, path(*old($1)), What::Fields(*$2, ${k1} as nat)),
        $4 ==> ${let:v_swap|None}->0@ == old($1).stack@ && path(*$1) == seq![${let:v_join("_")}@] && fresh(old($1).declared@, ${let:v_join("_")}@) && opened(old($1).declared@)
            && r_text(let_any(old($1).out@, old($1).indentation@, ${let:v_join("_")}@), $1.out@, old($1).indentation@, old($1).declared@.insert(${let:v_join("_")}@), $1.declared@, seq![${let:v_join("_")}@], What::Fields(*$2, ${k1} as nat)),
//@loopstart 1
    let ghost __e = *${it1}@[${k1} - 1];
    proof { assert(wf_field(__e)); }
    let ghost __c = *$1;
//@loopend 1
    proof {
        assert($1.stack@ == __c.stack@);
        assert($1.indentation@ == __c.indentation@);
        if __e.array { assert(r_text(__c.out@, $1.out@, __c.indentation@, __c.declared@, $1.declared@, path(__c).push(__e.name@), What::Mod(crate::check::fty(__e), __e.array, __e.optional))); } else { assert(r_text(__c.out@, $1.out@, __c.indentation@, __c.declared@, $1.declared@, path(__c).push(__e.name@), What::Mod(crate::check::fty(__e), __e.array, __e.optional))); }
    }
//@loopafter 1
    proof { __b = $1.out@; }
//@exit
    proof { if $4 { lemma_rt_struct(old($1).out@, __b, old($1).indentation@, old($1).declared@, old($1).declared@.insert(${let:v_join("_")}@), $1.declared@, path(*old($1)), ${let:v_join("_")}@, *$2, $2.fields@.len()); } }
//@fn ts::field_ctor_type -> r
//@prop C06
    ensures r@ == ctor_type($1.0@, $1.1, $2@, $3, $4),
//@entry
    broadcast use crate::model::marks;
//@fn ts::TypeScript::gen_common
    ensures final($2)@ == emit!(old($2)@, "import {{ Reader, Writer }} from \"packet\";\n"),
//@fn ts::gen_struct_decl
//@prop C06
    ensures same_place(*old($1), *final($1)), final($1).declared@ == old($1).declared@,
        final($1).out@ == struct_decl(old($1).out@, old($1).indentation@, $3@, *$2),
//@entry
    broadcast use crate::model::marks;
//@loop 1
        $1.indentation@ == old($1).indentation@ + "    "@, $1.stack@ == old($1).stack@, *final($1.out) == *final(old($1).out), $1.declared@ == old($1).declared@,
        $1.out@ == members(emit!(old($1).out@, "{old($1).indentation@}export interface {$3@} {{\n"), old($1).indentation@ + "    "@, *$2, ${k1} as nat),
//@fn ts::gen_enum_decl
//@prop C05 C06
    ensures same_place(*old($1), *final($1)), final($1).declared@ == old($1).declared@,
        final($1).out@ == enum_decl(old($1).out@, old($1).indentation@, $3@, *$2),
//@entry
    broadcast use crate::model::marks;
//@loop 1
        $1.indentation@ == old($1).indentation@ + "    "@, $1.stack@ == old($1).stack@, *final($1.out) == *final(old($1).out), $1.declared@ == old($1).declared@,
        $1.out@ == variants(emit!(old($1).out@, "{old($1).indentation@}export const enum {$3@} {{\n"), old($1).indentation@ + "    "@, *$2, ${k1} as nat),
//@fn ts::TypeScript::gen_decls
//@prop C06
    ensures decls_text(old($4)@, final($4)@, $2@, $3@),
//@entry
    proof { reveal(decls_text); }
    let ghost __f = *final($4);
//@loop 1
        enumerates_ref(${it1}@, $2@),
        ${let:GenCtx::new}.indentation@ == none() + "    "@, *final(${let:GenCtx::new}.out) == __f,
        ${let:GenCtx::new}.out@ == decls(emit!(old($4)@, "{none()}export namespace {$3@} {{\n"), none() + "    "@, ${it1}@, $3@, ${k1} as nat),
//@fn ts::TypeScript::gen_impl
//@attr #[verifier::rlimit(300)]
//@attr #[verifier::spinoff_prover]
//@spec
//@prop C06 C07 C08 C09 C10
    requires wf_struct($2.r#struct),
    ensures class_text(old($3)@, final($3)@, $2.name@, $2.r#struct),
//@entry
    let ghost __f = *final($3);
    let ghost __a = $3@;
    proof { lemma_roots(); }
//@loop 1
        ${let:GenCtx::new}.indentation@ == none() + "    "@ + "    "@, *final(${let:GenCtx::new}.out) == __f, ${let:GenCtx::new}.stack@ == Seq::<String>::empty(), ${let:GenCtx::new}.declared@ == Set::<Name>::empty().insert($2.name@),
        ${let:GenCtx::new}.out@ == params(emit!(old($3)@, "{none()}export class {$2.name@} {{\n{(none() + TAB)}constructor(\n"), none() + "    "@ + "    "@, $2.r#struct, $2.name@, ${k1} as nat),
//@before gen_read_impl_struct 1
    let ghost __h = ${let:GenCtx::new}.out@;
    proof { assert(path(${let:GenCtx::new}) == seq!["output"@]); }
//@after gen_read_impl_struct 1
    let ghost __r = ${let:GenCtx::new}.out@;
    let ghost __d1 = ${let:GenCtx::new}.declared@;
//@before gen_write_impl_struct 1
    let ghost __w0 = ${let:GenCtx::new}.out@;
    proof { assert(path(${let:GenCtx::new}) == seq!["this"@]); }
//@after gen_write_impl_struct 1
    let ghost __w = ${let:GenCtx::new}.out@;
//@exit
    proof { lemma_class(__a, ${let:GenCtx::new}.out@, none(), none() + "    "@, none() + "    "@ + "    "@, $2.name@, $2.r#struct, __d1, ${let:GenCtx::new}.declared@, __h, __r, __w0, __w); }
