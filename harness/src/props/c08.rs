//! Constant folding of standard operations against their specified meaning.
use crate::driver::{Obs, Prop};
use crate::interp::*;
use crate::rng::Rng;
use crate::util::*;
use crate::val::*;
use hugr_core::extension::prelude::{ConstError, ConstString, ConstUsize};
use hugr_core::ops::{DataflowOpTrait, ExtensionOp, Value};
use hugr_core::std_extensions::arithmetic::{float_types::{float64_type, ConstF64}, int_types::{int_type, ConstInt}};
use hugr_core::std_extensions::collections::{array::ArrayValue, borrow_array::BArrayValue, list::{list_type, ListValue}, static_array::StaticArrayValue, value_array::VArrayValue};
use hugr_core::types::type_param::{Term, TypeArg, TypeParam};
use hugr_core::types::{Type, TypeBound, TypeEnum, SumType};
use hugr_core::IncomingPort;
use std::rc::Rc;

/// boundary-heavy integers
pub fn rand_int(r: &mut Rng, w: u8) -> u64 {
    let m = mask(w);
    let bits = 1u32 << w;
    let x = match r.below(9) {
        0 => 0, 1 => 1, 2 => m, 3 => m >> 1, 4 => (m >> 1).wrapping_add(1),
        5 => (1u64 << r.below(bits as usize)).wrapping_add(r.below(3) as u64).wrapping_sub(1),
        6 => r.below(70) as u64,
        7 => m.wrapping_sub(r.below(70) as u64),
        _ => r.u64(),
    };
    x & m
}
pub fn rand_float(r: &mut Rng) -> f64 { loop { let f = rand_float_(r); if !f.is_finite() || crate::spice::json_exact(f) { return f; } } }
fn rand_float_(r: &mut Rng) -> f64 {
    match r.below(10) {
        0 => 0.0, 1 => -0.0, 2 => 1.0, 3 => *r.pick(&[f64::MAX, f64::MIN, f64::MIN_POSITIVE, 5e-324, f64::EPSILON]),
        4 => (r.below(9) as f64 - 4.0) / 2.0,
        5 => 2f64.powi(r.below(66) as i32) * if r.bool() { 1.0 } else { -1.0 },
        6 => (2f64.powi(r.below(66) as i32) - *r.pick(&[0.0, 0.5, 1.0, 1024.0, 2048.0])) * if r.bool() { 1.0 } else { -1.0 },
        7 => r.below(1000) as f64 / 8.0 - 60.0,
        _ => loop { let f = f64::from_bits(r.u64()); if f.is_finite() { break f; } },
    }
}
/// A random constant of the given type, when constants of it exist.
pub fn rand_value(r: &mut Rng, t: &Type) -> Option<Value> {
    Some(match t.as_type_enum() {
        TypeEnum::Sum(s) => {
            let n = s.num_variants();
            if n == 0 { return None; }
            let tag = r.below(n);
            let row: Vec<Type> = s.get_variant(tag)?.iter().map(|t| t.clone().try_into_type().ok()).collect::<Option<_>>()?;
            let vals = row.iter().map(|t| rand_value(r, t)).collect::<Option<Vec<_>>>()?;
            Value::sum(tag, vals, s.clone()).ok()?
        }
        TypeEnum::Extension(c) => {
            let ty0 = || c.args().iter().find_map(|a| a.as_runtime());
            match &**c.name() {
                "int" => { let Some(Term::BoundedNat(w)) = c.args().first() else { return None }; let w = *w as u8; if w > 6 { return None; } ConstInt::new_u(w, rand_int(r, w)).unwrap().into() }
                "float64" => ConstF64::new(rand_float(r)).into(),
                "usize" => ConstUsize::new(if r.chance(4, 5) { r.below(6) as u64 } else { r.u64() }).into(),
                "string" => ConstString::new((*r.pick(&["", "a", "two\nlines", "\u{1F600}\"\\", "x\0y"])).to_string()).into(),
                "error" => ConstError::new(r.u64() as u32, "e").into(),
                "List" => { let t = ty0()?; let n = r.below(5); let v = (0..n).map(|_| rand_value(r, &t)).collect::<Option<Vec<_>>>()?; ListValue::new(t, v).into() }
                "array" | "value_array" | "borrow_array" => {
                    let Some(Term::BoundedNat(n)) = c.args().first() else { return None };
                    let t = ty0()?; let v = (0..*n).map(|_| rand_value(r, &t)).collect::<Option<Vec<_>>>()?;
                    match &**c.name() { "array" => ArrayValue::new(t, v).into(), "value_array" => VArrayValue::new(t, v).into(), _ => BArrayValue::new(t, v).into() }
                }
                "static_array" => { let t = ty0()?; let n = r.below(4); let v = (0..n).map(|_| rand_value(r, &t)).collect::<Option<Vec<_>>>()?; StaticArrayValue::try_new("s", t, v).ok()?.into() }
                _ => return None,
            }
        }
        _ => return None,
    })
}
pub fn rand_ctype(r: &mut Rng, depth: usize) -> Type {
    use hugr_core::extension::prelude::*;
    match r.below(if depth == 0 { 6 } else { 9 }) {
        0 => int_type(r.below(7) as u64), 1 => bool_t(), 2 => float64_type(), 3 => usize_t(), 4 => string_type(), 5 => Type::UNIT,
        6 => list_type(rand_ctype(r, depth - 1)),
        7 => Type::new_tuple((0..r.below(4)).map(|_| rand_ctype(r, depth - 1)).collect::<Vec<_>>()),
        _ => { let k = 1 + r.below(3); SumType::new((0..k).map(|_| (0..r.below(3)).map(|_| rand_ctype(r, depth - 1)).collect::<Vec<_>>())).into() }
    }
}
fn rand_arg(r: &mut Rng, p: &TypeParam) -> Option<TypeArg> {
    Some(match p {
        Term::BoundedNatType(b) => { let hi = b.value().map(|x| x.get() - 1).unwrap_or(9); TypeArg::from(if r.chance(9, 10) { r.below(hi.min(9) as usize + 1) as u64 } else { hi }) }
        Term::RuntimeType(_) => rand_ctype(r, 2).into(),
        Term::ListType(t) => { let n = r.below(5); TypeArg::new_list((0..n).map(|_| rand_arg(r, t)).collect::<Option<Vec<_>>>()?) }
        Term::StringType => TypeArg::from("s"),
        _ => return None,
    })
}
fn exts() -> Vec<std::sync::Arc<hugr_core::Extension>> { hugr_core::std_extensions::std_reg().iter().cloned().collect() }

fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 8);
    let prog = Prog::new(hugr_core::Hugr::default());
    let mut es = exts();
    es.sort_by_key(|e| e.name().to_string());
    let mut defs = vec![];
    for e in &es { let mut d: Vec<_> = e.operations().map(|(_, d)| d.clone()).collect(); d.sort_by_key(|d| d.name().to_string()); defs.extend(d); }
    for k in 0..40 {
        let d = if k < 2 { &defs[(idx as usize * 2 + k) % defs.len()] } else { &defs[r.below(defs.len())] };
        let Ok(params) = d.params().map(|p| p.to_vec()) else { continue };
        let Some(args) = params.iter().map(|p| rand_arg(&mut r, p)).collect::<Option<Vec<_>>>() else { continue };
        let Some(Ok(op)) = o.attempt("instantiate", || ExtensionOp::new(d.clone(), args.clone())) else { continue };
        one_op(o, &mut r, &prog, &op);
    }
}
fn one_op(o: &mut Obs, r: &mut Rng, prog: &Rc<Prog>, op: &ExtensionOp) {
    let sig = op.signature().into_owned();
    let name = format!("{}.{}", op.extension_id(), op.unqualified_id());
    let Some(vals) = sig.input().iter().map(|t| rand_value(r, t)).collect::<Option<Vec<_>>>() else { return };
    for v in &vals { if v.validate().is_err() { o.n("input_invalid"); return; } }
    let mut consts: Vec<(IncomingPort, Value)> = vals.iter().cloned().enumerate().map(|(i, v)| (IncomingPort::from(i), v)).collect();
    // the folder is told the ports, so order must not matter, and inputs may be unknown
    if r.bool() { for i in (1..consts.len()).rev() { let j = r.below(i + 1); consts.swap(i, j); } }
    let full = r.chance(3, 4) || consts.is_empty();
    if !full { let k = r.below(consts.len()); consts.truncate(k); }
    let descr = || format!("{name}{:?} on {:?}", op.args().iter().map(|a| a.to_string()).collect::<Vec<_>>(), consts);
    let Some(res) = o.guard(&format!("fold:{name}"), || op.constant_fold(&consts)) else { if o.verbose { eprintln!("{}", descr()); } return };
    o.n("fold_calls");
    let ins: Vec<V> = match vals.iter().map(|v| const_val(prog, v)).collect::<R<Vec<_>>>() { Ok(v) => v, Err(_) => return };
    let Some(outs) = res else { o.n("not_folded"); return };
    o.n("folded");
    o.n(format!("op:{name}"));
    o.saws(&format!("{name}{:?}{:?}{full}", op.args(), ins));
    let want = |ins: Vec<V>| eval_op(op.extension_id(), op.unqualified_id(), op.args(), ins);
    let w = match want(ins.clone()) {
        Ok(w) => w,
        Err(Stop::Panic(m)) => { o.bad(format!("fold:{name}|panicking op folded"), format!("{} would panic ({m}) but folds to {outs:?}", descr())); return }
        Err(_) => { o.n(format!("no_meaning:{name}")); return }
    };
    let mut seen = std::collections::HashSet::new();
    for (p, v) in &outs {
        let i = hugr_core::PortIndex::index(*p);
        if !seen.insert(i) { o.bad(format!("fold:{name}|duplicate output"), descr()); return; }
        let Some(t) = sig.output().get(i) else { o.bad(format!("fold:{name}|no such output"), format!("{}: port {i}", descr())); return };
        if v.get_type() != *t {
            let got = v.get_type();
            let kind = match (got.as_type_enum(), &v) { (TypeEnum::Extension(c), _) => c.name().to_string(), (TypeEnum::Sum(_), Value::Sum(s)) => format!("sum tag {} of {}", s.tag, s.values.len()), _ => "other".into() };
            o.bad(format!("fold:{name}|type|port {i} {kind}"), format!("{} folds port {i} to {} : {got}, the operation gives {t}", descr(), v.name_()));
            continue;
        }
        if let Err(e) = v.validate() { o.bad(format!("fold:{name}|invalid constant"), format!("{}: {e}", descr())); return; }
        let Ok(g) = const_val(prog, v) else { continue };
        let zeros = matches!((&g, &w[i]), (V::F(a), V::F(b)) if f64::from_bits(*a) == 0.0 && f64::from_bits(*b) == 0.0) && name.contains(".fm");
        if g != w[i] && !zeros { o.bad(format!("fold:{name}|value"), format!("{} folds port {i} to {g:?}, its meaning is {:?}", descr(), w[i])); return; }
        o.n("outputs_checked");
    }
    if full && outs.len() != sig.output().len() { o.n("some_outputs_left"); }
    // a result from partial knowledge may not depend on what is unknown
    if !full {
        let known: Vec<usize> = consts.iter().map(|(p, _)| hugr_core::PortIndex::index(*p)).collect();
        for _ in 0..4 {
            let Some(alt) = sig.input().iter().enumerate().map(|(i, t)| if known.contains(&i) { Some(vals[i].clone()) } else { rand_value(r, t) }).collect::<Option<Vec<_>>>() else { continue };
            let Ok(ai) = alt.iter().map(|v| const_val(prog, v)).collect::<R<Vec<_>>>() else { continue };
            match want(ai.clone()) {
                Ok(w2) => for (p, v) in &outs { let i = hugr_core::PortIndex::index(*p); if let Ok(g) = const_val(prog, v) { o.n("partial_checked"); if g != w2[i] { o.bad(format!("fold:{name}|partial"), format!("{} folds to {g:?}, but with inputs {ai:?} the result is {:?}", descr(), w2[i])); return; } } },
                Err(Stop::Panic(m)) => { o.bad(format!("fold:{name}|panicking op folded"), format!("{} folds though {ai:?} panics: {m}", descr())); return }
                Err(_) => {}
            }
        }
    }
    o.note(|| format!("{} -> {outs:?}", descr()));
    let _ = TypeBound::Copyable;
}
pub fn prop() -> Prop {
    Prop { id: "C08", case, rule: "an operation with given arguments and input values was folded to a constant (distinct operation, arguments, inputs)", need: &["outputs_checked", "partial_checked", "op:arithmetic.int.iadd", "op:arithmetic.int.idivmod_s", "op:arithmetic.conversions.trunc_s", "op:collections.list.set", "op:logic.And", "op:arithmetic.float.fadd", "op:prelude.UnpackTuple"], quick_s: 15, thorough_s: 240, min_cases: 200, max_cases: u64::MAX / 2 }
}
