//@raw gen_ctx.use
use crate::model::*;
//@raw gen_ctx
/// what a function that writes text leaves alone
#[verifier::prophetic]
pub open spec fn same_place(a: GenCtx, b: GenCtx) -> bool {
    &&& b.indentation@ == a.indentation@
    &&& b.stack@ == a.stack@
    &&& *final(b.out) == *final(a.out)
}
pub open spec fn path(c: GenCtx) -> Path { names(c.stack@) }
proof fn lemma_longer(d: Set<Name>, n: int)
    requires exists|x: Name| #[trigger] d.contains(x) && x.len() == n,
    ensures d.filter(|x: Name| x.len() >= n + 1).len() < d.filter(|x: Name| x.len() >= n).len(),
{
    let (a, b) = (d.filter(|x: Name| x.len() >= n + 1), d.filter(|x: Name| x.len() >= n));
    let w = choose|x: Name| #[trigger] d.contains(x) && x.len() == n;
    assert(a.subset_of(b.remove(w)));
    vstd::set_lib::lemma_len_subset(a, b.remove(w));
}
//@fn gen_ctx::GenCtx::new -> r
    ensures
        r.indentation@ == Seq::<char>::empty(), r.stack@ == Seq::<String>::empty(), r.declared@ == Set::<Name>::empty(),
        r.out@ == old(out)@, *final(r.out) == *final(out),
//@fn gen_ctx::GenCtx::declare -> r
//@prop C10
    ensures
        local($2@) ==> fresh(old(self).declared@, r@),
        !old(self).declared@.contains($2@) ==> r@ == $2@,
        final(self).declared@ == old(self).declared@.insert(r@),
        opened(old(self).declared@),
        same_place(*old(self), *final(self)),
        final(self).out@ == old(self).out@,
//@entry
    let ghost __n = $2@;
    let ghost __d = self.declared@;
//@loop 1
    invariant local(__n) ==> local(${of2}@), ${of2}@ == __n || __d.contains(__n), self.declared@ == __d,
        same_place(*old(self), *self), self.out@ == old(self).out@,
    decreases __d.filter(|x: Name| x.len() >= ${of2}@.len()).len(),
//@loopstart 1
    proof { if __d.contains(${of2}@) { lemma_longer(__d, ${of2}@.len() as int); } if local(${of2}@) { let ghost i = choose|i: int| 0 <= i < ${of2}@.len() && ${of2}@[i] == '_'; assert(${of2}@.push('_')[i] == '_'); } reveal_strlit("_"); assert(${of2}@ + "_"@ =~= ${of2}@.push('_')); assert(cat(cat(Seq::<char>::empty(), ${of2}@), "_"@) =~= ${of2}@.push('_')); }
