//! The harness' own extension: effectful and linear operations with a known
//! reference meaning.
use hugr_core::extension::{Extension, ExtensionId, TypeDefBound, SignatureFunc};
use hugr_core::ops::{ExtensionOp, OpName};
use hugr_core::std_extensions::arithmetic::int_types::int_type;
use hugr_core::types::type_param::{TypeArg, TypeParam};
use hugr_core::types::{CustomType, PolyFuncType, PolyFuncTypeRV, Signature, Type, TypeBound, TypeName, FuncValueType, TypeRV};
use std::sync::{Arc, LazyLock};

pub const EXT_ID: ExtensionId = ExtensionId::new_unchecked("verif.fx");
pub static EXT: LazyLock<Arc<Extension>> = LazyLock::new(|| make(semver::Version::new(0, 1, 0)));

pub fn make(version: semver::Version) -> Arc<Extension> {
    Extension::new_arc(EXT_ID, version, |e, r| {
        e.add_type(TypeName::new_inline("tok"), vec![], "linear token".into(), TypeDefBound::any(), r).unwrap();
        e.add_type(TypeName::new_inline("boxed"), vec![TypeParam::from(TypeBound::Linear)], "box".into(), TypeDefBound::from_params(vec![0]), r).unwrap();
        let tok: Type = CustomType::new("tok", vec![], EXT_ID, TypeBound::Linear, r).into();
        let i = int_type(5);
        let nat = TypeParam::max_nat_type();
        // emits an event; output is a function of (id, input)
        e.add_op(OpName::new_inline("fx"), "effect".into(), PolyFuncType::new([nat.clone()], Signature::new(vec![i.clone()], vec![i.clone()])), r).unwrap();
        // pure, unknown to the constant folder
        e.add_op(OpName::new_inline("mix"), "pure".into(), PolyFuncType::new([nat.clone()], Signature::new(vec![i.clone(), i.clone()], vec![i.clone()])), r).unwrap();
        e.add_op(OpName::new_inline("tnew"), "new token".into(), PolyFuncType::new([nat.clone()], Signature::new(vec![], vec![tok.clone()])), r).unwrap();
        e.add_op(OpName::new_inline("tuse"), "use token".into(), PolyFuncType::new([nat.clone()], Signature::new(vec![tok.clone(), i.clone()], vec![tok.clone(), i.clone()])), r).unwrap();
        e.add_op(OpName::new_inline("tfree"), "free token".into(), PolyFuncType::new([nat.clone()], Signature::new(vec![tok.clone()], vec![])), r).unwrap();
        // row-polymorphic identity
        e.add_op(OpName::new_inline("rowid"), "row identity".into(), PolyFuncTypeRV::new(
            [TypeParam::new_list_type(TypeBound::Linear)],
            FuncValueType::new(vec![TypeRV::new_row_var_use(0, TypeBound::Linear)], vec![TypeRV::new_row_var_use(0, TypeBound::Linear)])), r).unwrap();
        // string/nat/tuple/list-of-type args: exercised by serialization checks
        e.add_op(OpName::new_inline("args"), "many args".into(), PolyFuncType::new(
            [TypeParam::StringType, TypeParam::new_list_type(TypeParam::max_nat_type()), TypeParam::new_tuple_type(vec![TypeParam::StringType, TypeBound::Copyable.into()]), TypeParam::BytesType, TypeParam::FloatType],
            Signature::new(vec![i.clone()], vec![i.clone()])), r).unwrap();
        let tv = Type::new_var_use(0, TypeBound::Linear);
        let bx: Type = CustomType::new("boxed", vec![tv.clone().into()], EXT_ID, TypeBound::Linear, r).into();
        let _ = SignatureFunc::from(PolyFuncTypeRV::new([TypeParam::from(TypeBound::Linear)], FuncValueType::new(vec![tv.clone()], vec![tv.clone()])));
        e.add_op(OpName::new_inline("box"), "box".into(), PolyFuncType::new([TypeParam::from(TypeBound::Linear)], Signature::new(vec![tv.clone()], vec![bx.clone()])), r).unwrap();
        e.add_op(OpName::new_inline("unbox"), "unbox".into(), PolyFuncType::new([TypeParam::from(TypeBound::Linear)], Signature::new(vec![bx], vec![tv])), r).unwrap();
    })
}
pub fn tok() -> Type { EXT.get_type("tok").unwrap().instantiate([]).unwrap().into() }
pub fn op(name: &str, args: impl Into<Vec<TypeArg>>) -> ExtensionOp {
    ExtensionOp::new(EXT.get_op(name).unwrap().clone(), args).unwrap()
}
pub fn op1(name: &str, id: u64) -> ExtensionOp { op(name, vec![TypeArg::from(id)]) }

/// Replacement types and operations: `do` behaves as the operation written in its first argument.
pub const RT_ID: ExtensionId = ExtensionId::new_unchecked("verif.rt");
pub static RT: LazyLock<Arc<Extension>> = LazyLock::new(|| Extension::new_arc(RT_ID, semver::Version::new(0, 1, 0), |e, r| {
    e.add_type(TypeName::new_inline("C"), vec![TypeParam::StringType], "".into(), TypeDefBound::copyable(), r).unwrap();
    e.add_type(TypeName::new_inline("L"), vec![TypeParam::StringType], "".into(), TypeDefBound::any(), r).unwrap();
    let l: Type = CustomType::new("L", vec![TypeArg::new_var_use(0, TypeParam::StringType)], RT_ID, TypeBound::Linear, r).into();
    e.add_op(OpName::new_inline("copy"), "".into(), PolyFuncType::new([TypeParam::StringType], Signature::new(vec![l.clone()], vec![l.clone(), l.clone()])), r).unwrap();
    e.add_op(OpName::new_inline("drop"), "".into(), PolyFuncType::new([TypeParam::StringType], Signature::new(vec![l.clone()], vec![])), r).unwrap();
    let rows = TypeParam::new_list_type(TypeBound::Linear);
    e.add_op(OpName::new_inline("do"), "".into(), PolyFuncTypeRV::new([TypeParam::StringType, rows.clone(), rows], FuncValueType::new(vec![TypeRV::new_row_var_use(1, TypeBound::Linear)], vec![TypeRV::new_row_var_use(2, TypeBound::Linear)])), r).unwrap();
}));
pub fn rt_type(linear: bool, name: &str) -> CustomType { RT.get_type(if linear { "L" } else { "C" }).unwrap().instantiate([TypeArg::String(name.into())]).unwrap() }
pub fn rt_op(name: &str, args: impl Into<Vec<TypeArg>>) -> ExtensionOp { ExtensionOp::new(RT.get_op(name).unwrap().clone(), args).unwrap() }
/// The operation in the terms of other types.
pub fn rt_do(op: &ExtensionOp, ins: &[Type], outs: &[Type]) -> ExtensionOp {
    let s = serde_json::to_string(&(op.extension_id().to_string(), op.unqualified_id().to_string(), op.args())).unwrap();
    let row = |ts: &[Type]| TypeArg::List(ts.iter().map(|t| t.clone().into()).collect());
    rt_op("do", vec![TypeArg::String(s), row(ins), row(outs)])
}
