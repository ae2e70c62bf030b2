//@raw gen.use
use crate::model::*;
//@raw gen
broadcast use crate::lits::tokens;
/// the package version, set by cargo
#[verifier::external_body]
pub exec const VERSION: Option<&'static str>
    ensures VERSION matches Some(v) ==> !v@.contains('\n'),
{ None }
pub mod chrono {
use vstd::prelude::*;
pub struct Utc;
pub struct DateTime;
impl Utc {
    #[verifier::external_body]
    pub fn now() -> (r: DateTime) { unimplemented!() }
}
impl DateTime {
    #[verifier::external_body]
    pub fn to_rfc2822(&self) -> (r: String) ensures !r@.contains('\n') { unimplemented!() }
}
}
//@fn gen::generate -> r
//@prop C05 C06 C07 C08 C09 C10
    requires wf_struct($1.export.r#struct),
    ensures module_text(r@, $1.types@, $1.export.name@, $1.export.r#struct),
//@entry
    proof { reveal_strlit("???"); }
