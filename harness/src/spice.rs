//! Additions to generated programs that behaviour-checks do not need: unusual names,
//! arguments, constants and metadata; gaps in node numbers; shuffled children.
use crate::ext;
use crate::gen_::*;
use crate::props::c08::{rand_ctype, rand_float, rand_value};
use crate::rng::Rng;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::constant::{CustomSerialized, Value};
use hugr_core::ops::dataflow::IOTrait;
use hugr_core::ops::*;
use hugr_core::std_extensions::arithmetic::int_types::int_type;
use hugr_core::types::type_param::{Term, TypeArg};
use hugr_core::types::{PolyFuncType, Signature, Type};
use hugr_core::{Hugr, Node, Visibility};

pub fn rand_str(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1 => "plain".into(),
        2 => "a b\tc\n\"q\" \\ \\n \\u{41}".into(),
        3 => "λ→\u{1F600}é\u{301}".into(),
        4 => "\0\u{7f}\u{1}\r".into(),
        5 => "(mod) ; comment #".into(),
        6 => "x.y-z_w/0".into(),
        _ => (0..r.below(12)).map(|_| char::from_u32([r.below(128) as u32, r.below(0xD7FF) as u32, 0x10000 + r.below(0x800) as u32][r.below(3)]).unwrap_or('?')).collect(),
    }
}
/// includes values that JSON cannot express exactly unless written with care
pub fn rand_finite(r: &mut Rng) -> f64 { loop { let f = match r.below(4) { 0 => f64::from_bits(r.u64()), 1 => 0.1 * r.below(1000) as f64, 2 => f64::MIN_POSITIVE / (1 + r.below(1000)) as f64, _ => rand_float(r) }; if f.is_finite() && json_exact(f) { return f; } } }
/// serde_json reads some decimal numbers imprecisely (recorded as a finding of C03)
pub fn json_exact(f: f64) -> bool { serde_json::to_string(&f).ok().and_then(|s| serde_json::from_str::<f64>(&s).ok()).is_some_and(|g| g.to_bits() == f.to_bits()) }
pub fn rand_meta(r: &mut Rng, d: usize) -> serde_json::Value {
    use serde_json::json;
    match r.below(if d == 0 { 7 } else { 10 }) {
        0 => json!(null), 1 => json!(r.bool()), 2 => json!(r.u64() >> r.below(64)), 3 => json!(rand_str(r)), 4 => json!(-((r.u64() >> (1 + r.below(62))) as i64)), 5 => json!(rand_finite(r)), 6 => json!([]),
        7 => serde_json::Value::Array((0..r.below(4)).map(|_| rand_meta(r, d - 1)).collect()),
        _ => serde_json::Value::Object((0..r.below(4)).map(|i| (format!("{}{i}", rand_str(r)), rand_meta(r, d - 1))).collect()),
    }
}
pub fn rand_args(r: &mut Rng) -> Vec<TypeArg> {
    let n = r.below(5);
    vec![
        TypeArg::from(rand_str(r)),
        Term::new_list((0..n).map(|_| TypeArg::from(r.edge_u64()))),
        Term::Tuple(vec![TypeArg::from(rand_str(r)), rand_ctype(r, 2).into()]),
        Term::Bytes((0..r.below(9)).map(|_| r.u64() as u8).collect::<Vec<u8>>().into()),
        Term::Float(rand_finite(r).into()),
    ]
}
fn small_func(r: &mut Rng) -> Value {
    // a function constant: a nested program whose entrypoint is a dataflow graph
    let p = program(r.u64(), &Cfg { size: 6, depth: 1, funcs: 1, effects: false, fnvals: false, decls: false, aliases: false, nonlocal: false, lin: false, cfgs: false, ..Cfg::default() });
    Value::function(p.hugr).unwrap_or_else(|_| Value::unit())
}
#[derive(Clone, Copy)]
pub struct Spice { pub fn_consts: bool, pub names: bool, pub shuffle: bool, pub meta: bool, pub args: bool, pub gaps: bool, pub opaque_consts: bool }
pub const ALL: Spice = Spice { fn_consts: true, names: true, shuffle: true, meta: true, args: true, gaps: true, opaque_consts: true };
pub fn spice(r: &mut Rng, h: &mut Hugr, s: Spice) {
    let m = h.module_root();
    let i5 = int_type(5);
    let mut gone = vec![];
    let name = if s.names { format!("odd.{}", rand_str(r)) } else { "odd".into() };
    let tv = PolyFuncType::new([hugr_core::types::TypeBound::Linear.into()], Signature::new_endo(vec![Type::new_var_use(0, hugr_core::types::TypeBound::Linear)]));
    if r.bool() {
        let f = h.add_node_with_parent(m, FuncDefn::new_vis(name.clone(), Signature::new_endo(vec![i5.clone()]), if r.bool() { Visibility::Private } else { Visibility::Public }));
        if s.gaps { for _ in 0..r.below(4) { gone.push(h.add_node_with_parent(f, Const::new(Value::true_val()))); } }
        let inp = h.add_node_with_parent(f, Input::new(vec![i5.clone()]));
        let out = h.add_node_with_parent(f, Output::new(vec![i5.clone()]));
        let mut cur = (inp, 0usize);
        for _ in 0..r.range(1, 4) {
            match r.below(5) {
                0 | 1 if s.args => { let n = h.add_node_with_parent(f, ext::op("args", rand_args(r))); h.connect(cur.0, cur.1, n, 0); cur = (n, 0); }
                2 => {
                    let t = i5.clone();
                    let n = h.add_node_with_parent(f, ext::op("box", vec![t.clone().into()])); let u = h.add_node_with_parent(f, ext::op("unbox", vec![t.into()]));
                    h.connect(cur.0, cur.1, n, 0); h.connect(n, 0, u, 0); cur = (u, 0);
                }
                3 => {
                    let k = r.below(3);
                    let tys: Vec<Type> = (0..=k).map(|i| if i == 0 { i5.clone() } else { rand_ctype(r, 1) }).collect();
                    let n = h.add_node_with_parent(f, ext::op("rowid", vec![Term::new_list(tys.iter().map(|t| TypeArg::from(t.clone())))]));
                    h.connect(cur.0, cur.1, n, 0);
                    let mut ok = true;
                    for (i, t) in tys.iter().enumerate().skip(1) { if let Some(v) = rand_value(r, t) { let c = h.add_node_with_parent(f, Const::new(v)); let l = h.add_node_with_parent(f, LoadConstant { datatype: t.clone() }); h.connect(c, 0, l, 0); h.connect(l, 0, n, i); } else { ok = false; } }
                    if ok { cur = (n, 0); } else { h.remove_node(n); }
                }
                _ => {
                    let v = match r.below(4) {
                        0 if s.fn_consts => small_func(r),
                        1 if s.opaque_consts => { let t: hugr_core::types::CustomType = ext::EXT.get_type("boxed").unwrap().instantiate([i5.clone().into()]).unwrap(); if t.bound() == hugr_core::types::TypeBound::Copyable { CustomSerialized::new(t, rand_meta(r, 2)).into() } else { Value::unit() } }
                        _ => { let t = rand_ctype(r, 2); rand_value(r, &t).unwrap_or(Value::true_val()) }
                    };
                    let t = v.get_type();
                    let p = if r.bool() { f } else { m };
                    let c = h.add_node_with_parent(p, Const::new(v));
                    let l = h.add_node_with_parent(f, LoadConstant { datatype: t });
                    h.connect(c, 0, l, 0);
                    if r.bool() { h.add_other_edge(l, out); }
                }
            }
        }
        h.connect(cur.0, cur.1, out, 0);
        // a polymorphic function with a linear variable
        if r.bool() {
            let g = h.add_node_with_parent(m, FuncDefn::new_vis(format!("{name}.p"), tv, Visibility::Private));
            let i = h.add_node_with_parent(g, Input::new(vec![Type::new_var_use(0, hugr_core::types::TypeBound::Linear)]));
            let o = h.add_node_with_parent(g, Output::new(vec![Type::new_var_use(0, hugr_core::types::TypeBound::Linear)]));
            let a: TypeArg = Type::new_var_use(0, hugr_core::types::TypeBound::Linear).into();
            let b = h.add_node_with_parent(g, ext::op("box", vec![a.clone()])); let u = h.add_node_with_parent(g, ext::op("unbox", vec![a]));
            h.connect(i, 0, b, 0); h.connect(b, 0, u, 0); h.connect(u, 0, o, 0);
        }
    }
    if s.gaps { for _ in 0..r.below(3) { gone.push(h.add_node_with_parent(m, Const::new(Value::unit()))); } }
    for n in gone { if r.chance(3, 4) || h.get_parent(n) != Some(m) { h.remove_node(n); } }
    if s.shuffle {
        // children that need not come first may come in any order
        for n in h.nodes().collect::<Vec<Node>>() {
            let first = match h.get_optype(n) { OpType::Module(_) => 0, OpType::Conditional(_) => continue, OpType::DFG(_) | OpType::CFG(_) | OpType::FuncDefn(_) | OpType::Case(_) | OpType::DataflowBlock(_) | OpType::TailLoop(_) => 2, _ => continue };
            let k: Vec<Node> = h.children(n).skip(first).filter(|c| *c != h.entrypoint()).collect();
            if k.len() < 2 || r.chance(2, 3) { continue; }
            for _ in 0..r.below(4) { let (a, b) = (*r.pick(&k), *r.pick(&k)); if a != b { if r.bool() { h.move_before_sibling(a, b); } else { h.move_after_sibling(a, b); } } }
        }
    }
    if s.meta { for n in h.nodes().collect::<Vec<Node>>() { if r.chance(1, 10) { let k = match r.below(3) { 0 => rand_str(r), 1 => "name".into(), _ => "k".into() }; let v = rand_meta(r, 2); h.set_metadata(n, k, v); } } }
}
/// an entrypoint anywhere it is allowed
pub fn any_entry(r: &mut Rng, h: &mut Hugr, main: Node) {
    let e = match r.below(4) { 0 => main, 1 => h.module_root(), _ => {
        let c: Vec<Node> = h.nodes().filter(|n| matches!(h.get_optype(*n), OpType::DFG(_) | OpType::CFG(_) | OpType::Conditional(_) | OpType::TailLoop(_) | OpType::DataflowBlock(_) | OpType::Case(_) | OpType::FuncDefn(_))).collect();
        r.pick_opt(&c).copied().unwrap_or(main) } };
    h.set_entrypoint(e);
}
pub fn registry() -> hugr_core::extension::ExtensionRegistry { let mut r = hugr_core::std_extensions::STD_REG.clone(); r.register(ext::EXT.clone()).ok(); r }
