//! Cases the generator may refuse (`*` stands for any text); any other refusal is a violation.
use vcore::fam::Case;
use vcore::report::glob;
const MAY: &[&str] = &[
    // documented or announced limits of the generated code
    "Max/*scalar*", "Min/*scalar*",
    "Selu/alpha=*", "Selu/gamma=*", "Selu/both*",
    "Pow/i64/d?/scalar_*",
    "Slice/runtime/noaxes/*", "Reshape/*/runtime/1to[]", "MatMul/i64*", "GRU/*/clip*", "Conv3d/pads=*", "Conv3d/auto=SAME*", "Conv3d/dil", "IsInf/f32/const/scalar",
    // a one-element constant of a type for which there is no native literal
    "Cast/const/bf16_*", "Cast/const/i16_*", "Cast/const/u32_*", "Cast/const/u64_*", "Cast/*_bf16/scalar", "Cast/*_i16/scalar", "Cast/*_u32/scalar", "Cast/*_u64/scalar",
    "*/bf16/const/scalar", "*/i16/const/scalar", "*/u32/const/scalar", "*/u64/const/scalar", "Constant/value/*/scalar",
];
/// Cases that compile to calls whose behaviour in the tensor library is not known here.
const UNKNOWN: &[&str] = &["DeformConv/*/p=[[]0,1,1,0]/*"];
fn matches(p: &str, name: &str) -> bool { if p.contains('?') { ["c", "d"].iter().any(|x| glob(&p.replace('?', x), name)) } else { glob(&p.replace("[[]", "["), name) } }
pub fn may(c: &Case) -> bool { c.may_refuse || MAY.iter().any(|p| matches(p, &c.name)) }
pub fn unknown(c: &Case) -> bool { UNKNOWN.iter().any(|p| matches(p, &c.name)) }
