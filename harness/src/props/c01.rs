//! Validation accepts exactly the programs the specification allows.
use crate::driver::{Obs, Prop};
use crate::ext;
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::util::*;
use hugr_core::extension::prelude::{bool_t, qb_t, string_type, usize_t, Noop};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::hugr::views::HugrView;
use hugr_core::PortIndex;
use hugr_core::ops::constant::{Sum, Value};
use hugr_core::ops::dataflow::{DataflowOpTrait, IOTrait};
use hugr_core::ops::*;
use hugr_core::std_extensions::arithmetic::{float_types::float64_type, int_types::int_type};
use hugr_core::std_extensions::collections::{array, list};
use hugr_core::types::type_param::{Term, TypeArg, TypeParam};
use hugr_core::types::{CustomType, EdgeKind, PolyFuncType, Signature, SumType, Type, TypeBound, TypeEnum, TypeRow};
use hugr_core::{Direction, Hugr, Node, Port, Visibility};
use std::collections::{HashMap, HashSet};

type R = Result<(), String>;
fn no<T>(s: impl Into<String>) -> Result<T, String> { Err(s.into()) }

// ---- types -----------------------------------------------------------------
fn copyable_enum(t: &TypeEnum<hugr_core::types::NoRV>) -> bool {
    match t {
        TypeEnum::Extension(c) => c.bound() == TypeBound::Copyable,
        TypeEnum::Alias(a) => a.bound == TypeBound::Copyable,
        TypeEnum::Function(_) => true,
        TypeEnum::Variable(_, b) => *b == TypeBound::Copyable,
        TypeEnum::RowVar(_) => false,
        TypeEnum::Sum(SumType::Unit { .. }) => true,
        TypeEnum::Sum(s) => s.variants().all(|row| row.iter().all(|t| copyable_rv(t))),
        _ => false,
    }
}
fn copyable_rv(t: &hugr_core::types::TypeRV) -> bool {
    match t.as_type_enum() {
        TypeEnum::Extension(c) => c.bound() == TypeBound::Copyable,
        TypeEnum::Alias(a) => a.bound == TypeBound::Copyable,
        TypeEnum::Function(_) => true,
        TypeEnum::Variable(_, b) => *b == TypeBound::Copyable,
        TypeEnum::RowVar(v) => v.1 == TypeBound::Copyable,
        TypeEnum::Sum(SumType::Unit { .. }) => true,
        TypeEnum::Sum(s) => s.variants().all(|row| row.iter().all(copyable_rv)),
        _ => false,
    }
}
pub fn copyable(t: &Type) -> bool { copyable_enum(t.as_type_enum()) }
fn bparam(b: TypeBound) -> TypeParam { TypeParam::RuntimeType(b) }
/// the variable is declared, with exactly this parameter
fn var(idx: usize, decl: &TypeParam, ps: &[TypeParam]) -> R {
    match ps.get(idx) { None => no("variable not declared"), Some(p) if p == decl => Ok(()), Some(_) => no("variable declared differently") }
}
pub fn type_ok(t: &Type, ps: &[TypeParam]) -> R { rv_ok(&t.clone().into(), ps) }
fn rv_ok(t: &hugr_core::types::TypeRV, ps: &[TypeParam]) -> R {
    match t.as_type_enum() {
        TypeEnum::Alias(_) | TypeEnum::Sum(SumType::Unit { .. }) => Ok(()),
        TypeEnum::Sum(s) => s.variants().try_for_each(|row| row.iter().try_for_each(|t| rv_ok(t, ps))),
        TypeEnum::Function(f) => f.input().iter().chain(f.output().iter()).try_for_each(|t| rv_ok(t, ps)),
        TypeEnum::Variable(i, b) => var(*i, &bparam(*b), ps),
        TypeEnum::RowVar(v) => var(v.0, &TypeParam::new_list_type(v.1), ps),
        TypeEnum::Extension(c) => custom_ok(c, ps),
        _ => no("?"),
    }
}
/// (parameters, bound) of the types the harness uses; the bound may follow a parameter
fn typedef(c: &CustomType) -> Option<(Vec<TypeParam>, Result<TypeBound, usize>)> {
    use TypeBound::*;
    let any = || bparam(Linear);
    Some(match (&**c.extension(), c.name().as_str()) {
        ("verif.fx", "tok") | ("prelude", "qubit") => (vec![], Ok(Linear)),
        ("verif.fx", "boxed") => (vec![any()], Err(0)),
        ("prelude", "usize" | "string" | "error") => (vec![], Ok(Copyable)),
        ("arithmetic.int.types", "int") => (vec![TypeParam::bounded_nat_type(7.try_into().unwrap())], Ok(Copyable)),
        ("arithmetic.float.types", "float64") => (vec![], Ok(Copyable)),
        ("collections.array" | "collections.borrow_arr", "array" | "borrow_array") => (vec![TypeParam::max_nat_type(), any()], Ok(Linear)),
        ("collections.value_array", "value_array") => (vec![TypeParam::max_nat_type(), any()], Err(1)),
        ("collections.list", "List") => (vec![any()], Err(0)),
        ("collections.static_array", "static_array") => (vec![bparam(Copyable)], Ok(Copyable)),
        _ => return None,
    })
}
fn custom_ok(c: &CustomType, ps: &[TypeParam]) -> R {
    let Some((params, bound)) = typedef(c) else { return no("?") };
    c.args().iter().try_for_each(|a| term_ok(a, ps))?;
    fits_all(c.args(), &params)?;
    let want = match bound { Ok(b) => b, Err(i) => match &c.args()[i] { Term::Runtime(t) => if copyable(t) { TypeBound::Copyable } else { TypeBound::Linear }, _ => return no("?") } };
    if want == c.bound() { Ok(()) } else { no("wrong bound of a custom type") }
}
pub fn term_ok(t: &Term, ps: &[TypeParam]) -> R {
    match t {
        Term::Runtime(ty) => type_ok(ty, ps),
        Term::List(v) | Term::ListConcat(v) | Term::Tuple(v) | Term::TupleConcat(v) => v.iter().try_for_each(|x| term_ok(x, ps)),
        Term::BoundedNat(_) | Term::String(_) | Term::Bytes(_) | Term::Float(_) => Ok(()),
        Term::Variable(v) => match ps.get(v.index()) {
            None => no("variable not declared"),
            Some(p) if Term::new_var_use(v.index(), p.clone()) == *t => Ok(()),
            Some(_) => no("variable declared differently"),
        },
        Term::ListType(x) | Term::TupleType(x) => term_ok(x, ps),
        Term::ConstType(t) => type_ok(t, ps),
        _ => Ok(()),
    }
}
fn sup(a: &TypeParam, b: &TypeParam, ) -> bool {
    match (a, b) {
        (Term::RuntimeType(x), Term::RuntimeType(y)) => *x == TypeBound::Linear || x == y,
        (Term::BoundedNatType(x), Term::BoundedNatType(y)) => match (x.value(), y.value()) { (None, _) => true, (Some(_), None) => false, (Some(x), Some(y)) => x >= y },
        (Term::ListType(x), Term::ListType(y)) => sup(x, y),
        (Term::TupleType(x), Term::TupleType(y)) => match (&**x, &**y) { (Term::List(x), Term::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| sup(a, b)), _ => false },
        (a, b) => a == b,
    }
}

fn fits_all(a: &[Term], p: &[TypeParam]) -> R { if a.len() != p.len() { return no("wrong number of type arguments"); } a.iter().zip(p).try_for_each(|(a, p)| fits(a, p)) }
fn fits(a: &Term, p: &TypeParam) -> R {
    match (a, p) {
        (Term::Variable(v), _) => {
            // the declaration the use was made with; that it is the real one is checked by term_ok
            let cands: Vec<TypeParam> = params_pool().into_iter().filter(|c| Term::new_var_use(v.index(), c.clone()) == *a).collect();
            match cands.first() { None => no("?"), Some(d) => if sup(p, d) { Ok(()) } else { no("argument does not fit") } }
        }
        (Term::Runtime(t), Term::RuntimeType(b)) => if *b == TypeBound::Linear || copyable(t) { Ok(()) } else { no("argument does not fit") },
        (Term::List(v), Term::ListType(e)) => v.iter().try_for_each(|x| match (x, &**e) {
            // a row variable may stand among the types of a list
            (Term::Variable(_), Term::RuntimeType(b)) if [TypeBound::Copyable, TypeBound::Linear].iter().any(|vb| is_row_var(x, *vb) && (*b == TypeBound::Linear || b == vb)) => Ok(()),
            _ => fits(x, e),
        }),
        (Term::ListConcat(v), Term::ListType(_)) => v.iter().try_for_each(|x| fits(x, p)),
        (Term::BoundedNat(n), Term::BoundedNatType(b)) => if b.value().is_none_or(|m| *n < m.get()) { Ok(()) } else { no("argument does not fit") },
        (Term::String(_), Term::StringType) | (Term::Bytes(_), Term::BytesType) | (Term::Float(_), Term::FloatType) => Ok(()),
        (Term::Tuple(v), Term::TupleType(e)) => match &**e { Term::List(e) => fits_all(v, e), _ => no("?") },
        (Term::TupleConcat(_), Term::TupleType(_)) => no("?"),
        _ => no("argument does not fit"),
    }
}
fn is_row_var(x: &Term, b: TypeBound) -> bool { match x { Term::Variable(v) => Term::new_var_use(v.index(), TypeParam::new_list_type(b)) == *x, _ => false } }
fn params_pool() -> Vec<TypeParam> {
    let mut v = vec![bparam(TypeBound::Copyable), bparam(TypeBound::Linear), TypeParam::max_nat_type(), TypeParam::bounded_nat_type(7.try_into().unwrap()), TypeParam::bounded_nat_type(3.try_into().unwrap()), TypeParam::StringType, TypeParam::BytesType, TypeParam::FloatType];
    v.extend(v.clone().into_iter().map(TypeParam::new_list_type));
    v.push(TypeParam::new_tuple_type(vec![TypeParam::StringType, bparam(TypeBound::Copyable)]));
    v
}
fn const_ok(v: &Value) -> R {
    match v {
        Value::Sum(s) => {
            let Some(row) = s.sum_type.get_variant(s.tag) else { return no("constant: no such variant") };
            if row.len() != s.values.len() { return no("constant: wrong number of values"); }
            for (t, x) in row.iter().zip(&s.values) { const_ok(x)?; let xt: hugr_core::types::TypeRV = x.get_type().into(); if &xt != t { return no("constant: wrong type"); } }
            Ok(())
        }
        Value::Extension { e } => if crate::driver::quiet_catch(|| e.value().validate()).is_ok_and(|r| r.is_ok()) { Ok(()) } else { no("constant: bad extension value") },
        Value::Function { .. } => no("?"),
    }
}
// ---- ports -------------------------------------------------------------------
#[derive(Clone, Debug, PartialEq)]
pub enum K { V(Type), C(Type), F(PolyFuncType), Order, Cf }
impl K { fn from(k: &EdgeKind) -> K { match k { EdgeKind::Value(t) => K::V(t.clone()), EdgeKind::Const(t) => K::C(t.clone()), EdgeKind::Function(f) => K::F(f.clone()), EdgeKind::StateOrder => K::Order, _ => K::Cf } } }
/// The ports of an operation; None if the operation is not one we know.
pub fn kinds(op: &OpType) -> Option<(Vec<K>, Vec<K>)> {
    let vs = |r: &TypeRow| r.iter().map(|t| K::V(t.clone())).collect::<Vec<_>>();
    let df = |i: &TypeRow, o: &TypeRow, s: Option<K>| { let mut a = vs(i); a.extend(s); a.push(K::Order); let mut b = vs(o); b.push(K::Order); (a, b) };
    let cat = |a: &TypeRow, b: &TypeRow| TypeRow::from(a.iter().chain(b.iter()).cloned().collect::<Vec<_>>());
    Some(match op {
        OpType::Module(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) | OpType::Case(_) => (vec![], vec![]),
        OpType::FuncDefn(f) => (vec![], vec![K::F(f.signature().clone())]),
        OpType::FuncDecl(f) => (vec![], vec![K::F(f.signature().clone())]),
        OpType::Const(c) => (vec![], vec![K::C(c.value().get_type())]),
        OpType::Input(i) => { let mut o = vs(&i.types); o.push(K::Order); (vec![], o) }
        OpType::Output(i) => { let mut o = vs(&i.types); o.push(K::Order); (o, vec![]) }
        OpType::Call(c) => df(&c.instantiation.input, &c.instantiation.output, Some(K::F(c.func_sig.clone()))),
        OpType::CallIndirect(c) => df(&cat(&vec![Type::new_function(c.signature.clone())].into(), &c.signature.input), &c.signature.output, None),
        OpType::LoadConstant(l) => df(&TypeRow::new(), &vec![l.datatype.clone()].into(), Some(K::C(l.datatype.clone()))),
        OpType::LoadFunction(l) => df(&TypeRow::new(), &vec![Type::new_function(l.instantiation.clone())].into(), Some(K::F(l.func_sig.clone()))),
        OpType::DFG(d) => df(&d.signature.input, &d.signature.output, None),
        OpType::ExtensionOp(e) => { let s = e.signature(); df(&s.input, &s.output, None) }
        OpType::OpaqueOp(e) => { let s = DataflowOpTrait::signature(e); df(&s.input, &s.output, None) }
        OpType::Tag(t) => df(t.variants.get(t.tag)?, &vec![Type::from(SumType::new(t.variants.clone()))].into(), None),
        OpType::DataflowBlock(b) => (vec![K::Cf], vec![K::Cf; b.sum_rows.len()]),
        OpType::ExitBlock(_) => (vec![K::Cf], vec![]),
        OpType::TailLoop(l) => df(&cat(&l.just_inputs, &l.rest), &cat(&l.just_outputs, &l.rest), None),
        OpType::CFG(c) => df(&c.signature.input, &c.signature.output, None),
        OpType::Conditional(c) => df(&cat(&vec![Type::from(SumType::new(c.sum_rows.clone()))].into(), &c.other_inputs), &c.outputs, None),
        _ => return None,
    })
}
#[derive(Clone, Copy, PartialEq)]
enum Region { Module, Dataflow, Cfg, Cond, None }
fn region(op: &OpType) -> Region { match op { OpType::Module(_) => Region::Module, OpType::FuncDefn(_) | OpType::DFG(_) | OpType::Case(_) | OpType::TailLoop(_) | OpType::DataflowBlock(_) => Region::Dataflow, OpType::CFG(_) => Region::Cfg, OpType::Conditional(_) => Region::Cond, _ => Region::None } }
fn allowed(r: Region, op: &OpType) -> bool {
    match r {
        Region::Module => matches!(op, OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) | OpType::Const(_)),
        Region::Dataflow => matches!(op, OpType::Input(_) | OpType::Output(_) | OpType::Const(_) | OpType::Call(_) | OpType::CallIndirect(_) | OpType::LoadConstant(_) | OpType::LoadFunction(_) | OpType::DFG(_) | OpType::ExtensionOp(_) | OpType::OpaqueOp(_) | OpType::Tag(_) | OpType::TailLoop(_) | OpType::CFG(_) | OpType::Conditional(_)),
        Region::Cfg => matches!(op, OpType::DataflowBlock(_) | OpType::ExitBlock(_) | OpType::Const(_)),
        Region::Cond => matches!(op, OpType::Case(_)),
        Region::None => false,
    }
}
fn io(op: &OpType) -> Option<(TypeRow, TypeRow)> {
    let cat = |a: &TypeRow, b: &TypeRow| TypeRow::from(a.iter().chain(b.iter()).cloned().collect::<Vec<_>>());
    let with = |s: Vec<TypeRow>, rest: &TypeRow| cat(&vec![Type::from(SumType::new(s))].into(), rest);
    Some(match op {
        OpType::FuncDefn(f) => (f.signature().body().input.clone(), f.signature().body().output.clone()),
        OpType::DFG(d) => (d.signature.input.clone(), d.signature.output.clone()),
        OpType::Case(c) => (c.signature.input.clone(), c.signature.output.clone()),
        OpType::TailLoop(l) => (cat(&l.just_inputs, &l.rest), with(vec![l.just_inputs.clone(), l.just_outputs.clone()], &l.rest)),
        OpType::DataflowBlock(b) => (b.inputs.clone(), with(b.sum_rows.clone(), &b.other_outputs)),
        _ => return None,
    })
}
// ---- the specification -----------------------------------------------------------
/// Err("?") = not decided here.
pub fn spec(h: &Hugr) -> R {
    let root = h.module_root();
    for n in h.nodes() {
        let op = h.get_optype(n);
        if matches!(op, OpType::OpaqueOp(_)) { return no("opaque operation"); }
        let Some((ki, ko)) = kinds(op) else { return no("?") };
        if h.num_inputs(n) != ki.len() || h.num_outputs(n) != ko.len() { return no("number of ports"); }
        if n != root {
            let Some(p) = h.get_parent(n) else { return no("no parent") };
            if !allowed(region(h.get_optype(p)), op) { return no("parent does not allow this child"); }
        } else if h.get_parent(n).is_some() || !matches!(op, OpType::Module(_)) { return no("root"); }
        if n == h.entrypoint() && region(op) == Region::None { return no("entrypoint is not a container"); }
        let ch: Vec<Node> = h.children(n).collect();
        match region(op) {
            Region::None => if !ch.is_empty() { return no("leaf with children"); },
            Region::Module => {}
            Region::Dataflow => {
                let (i, o) = io(op).unwrap();
                if ch.is_empty() { return no("empty container"); }
                match h.get_optype(ch[0]) { OpType::Input(x) => if x.types != i { return no("input row"); }, _ => return no("first child") }
                match ch.get(1).map(|c| h.get_optype(*c)) { Some(OpType::Output(x)) => if x.types != o { return no("output row"); }, _ => return no("second child") }
                if ch[2..].iter().any(|c| matches!(h.get_optype(*c), OpType::Input(_) | OpType::Output(_))) { return no("inner input or output"); }
                if cyclic(h, &ch) { return no("cycle"); }
            }
            Region::Cond => {
                let OpType::Conditional(c) = op else { unreachable!() };
                if ch.is_empty() { return no("empty container"); }
                if ch.len() != c.sum_rows.len() { return no("number of cases"); }
                for (row, k) in c.sum_rows.iter().zip(&ch) {
                    let OpType::Case(k) = h.get_optype(*k) else { return no("case") };
                    if !k.signature.input.iter().eq(row.iter().chain(c.other_inputs.iter())) || k.signature.output != c.outputs { return no("case row"); }
                }
            }
            Region::Cfg => {
                let OpType::CFG(c) = op else { unreachable!() };
                if ch.is_empty() { return no("empty container"); }
                match h.get_optype(ch[0]) { OpType::DataflowBlock(b) => if b.inputs != c.signature.input { return no("entry row"); }, _ => return no("first child") }
                match ch.get(1).map(|c| h.get_optype(*c)) { Some(OpType::ExitBlock(b)) => if b.cfg_outputs != c.signature.output { return no("exit row"); }, _ => return no("second child") }
                if ch[2..].iter().any(|c| matches!(h.get_optype(*c), OpType::ExitBlock(_))) { return no("inner exit"); }
            }
        }
        if let OpType::Const(c) = op { const_ok(c.value())?; }
        // edges
        for (i, k) in ki.iter().enumerate() {
            let p = Port::new(Direction::Incoming, i);
            let c = h.linked_ports(n, p).count();
            match k { K::V(_) | K::C(_) | K::F(_) if c != 1 => return no(format!("incoming {} port with {} sources", kname(k), c.min(2))), _ => {} }
            for (m, q) in h.linked_ports(n, p) { if q.direction() != Direction::Outgoing || !h.contains_node(m) { return no("bad link"); } }
        }
        let ps = scope(h, n);
        for (i, k) in ko.iter().enumerate() {
            let p = Port::new(Direction::Outgoing, i);
            let links: Vec<_> = h.linked_ports(n, p).collect();
            match k {
                K::V(t) => { type_ok(t, &ps)?; if !copyable(t) && links.len() != 1 { return no(format!("linear output with {} uses", links.len().min(2))); } }
                K::C(t) => type_ok(t, &[])?,
                K::F(f) => { f.body().input.iter().chain(f.body().output.iter()).try_for_each(|t| type_ok(t, f.params()))?; }
                K::Cf => if links.len() != 1 { return no(format!("control flow output with {} targets", links.len().min(2))); },
                K::Order => {}
            }
            for (m, q) in links {
                let Some((mi, _)) = kinds(h.get_optype(m)) else { return no("?") };
                if mi.get(q.index()) != Some(k) { return no("kinds of the ends of an edge differ"); }
                edge(h, n, k, m)?;
                if *k == K::Cf {
                    let OpType::DataflowBlock(b) = op else { return no("?") };
                    let want: TypeRow = b.sum_rows[i].iter().chain(b.other_outputs.iter()).cloned().collect::<Vec<_>>().into();
                    let got = match h.get_optype(m) { OpType::DataflowBlock(x) => &x.inputs, OpType::ExitBlock(x) => &x.cfg_outputs, _ => return no("?") };
                    if *got != want { return no("row of a control flow edge"); }
                }
            }
        }
        // type arguments
        match op {
            OpType::ExtensionOp(e) => {
                for a in e.args() { term_ok(a, &ps)?; }
                if let Ok(pf) = crate::props::c01::declared(e) { fits_all(e.args(), &pf)?; }
            }
            OpType::Call(c) => inst_ok(&c.func_sig, &c.type_args, &c.instantiation, &ps)?,
            OpType::LoadFunction(c) => inst_ok(&c.func_sig, &c.type_args, &c.instantiation, &ps)?,
            _ => {}
        }
    }
    // names
    let mut pubs: HashMap<String, (PolyFuncType, bool)> = HashMap::new();
    for c in h.children(root) {
        let (name, sig, def) = match h.get_optype(c) {
            OpType::FuncDefn(f) if *f.visibility() == Visibility::Public => (f.func_name().clone(), f.signature().clone(), true),
            OpType::FuncDecl(f) if *f.visibility() == Visibility::Public => (f.func_name().clone(), f.signature().clone(), false),
            _ => continue,
        };
        if let Some((s, d)) = pubs.get(&name) { if *d || def || *s != sig { return no("two public functions with one name"); } } else { pubs.insert(name, (sig, def)); }
    }
    Ok(())
}
fn declared(e: &ExtensionOp) -> Result<Vec<TypeParam>, ()> { use hugr_core::extension::SignatureFunc; match e.def().signature_func() { SignatureFunc::PolyFuncType(p) => Ok(p.params().to_vec()), _ => Err(()) } }
fn inst_ok(f: &PolyFuncType, args: &[TypeArg], inst: &Signature, ps: &[TypeParam]) -> R {
    f.body().input.iter().chain(f.body().output.iter()).try_for_each(|t| type_ok(t, f.params()))?;
    fits_all(args, f.params())?;
    args.iter().try_for_each(|a| term_ok(a, ps).map_err(|e| format!("type argument of a call: {e}")))?;
    match crate::driver::quiet_catch(|| f.instantiate(args)) { Ok(Ok(s)) if s == *inst => Ok(()), _ => no("instantiation of a call") }
}
fn kname(k: &K) -> &'static str { match k { K::V(_) => "value", K::C(_) => "constant", K::F(_) => "function", K::Order => "order", K::Cf => "control flow" } }
fn scope(h: &Hugr, n: Node) -> Vec<TypeParam> { let mut m = n; while let Some(p) = h.get_parent(m) { if let OpType::FuncDefn(f) = h.get_optype(p) { return f.signature().params().to_vec(); } m = p; } vec![] }
fn cyclic(h: &Hugr, ch: &[Node]) -> bool {
    let set: HashSet<Node> = ch.iter().copied().collect();
    let mut deg: HashMap<Node, usize> = ch.iter().map(|c| (*c, 0)).collect();
    let succ = |n: Node| -> Vec<Node> { h.node_outputs(n).flat_map(|p| h.linked_inputs(n, p).map(|x| x.0).collect::<Vec<_>>()).filter(|m| set.contains(m)).collect() };
    for c in ch { for m in succ(*c) { *deg.get_mut(&m).unwrap() += 1; } }
    let mut q: Vec<Node> = ch.iter().copied().filter(|c| deg[c] == 0).collect();
    let mut k = 0;
    while let Some(n) = q.pop() { k += 1; for m in succ(n) { let d = deg.get_mut(&m).unwrap(); *d -= 1; if *d == 0 { q.push(m); } } }
    k != ch.len()
}
fn edge(h: &Hugr, a: Node, k: &K, b: Node) -> R {
    let (pa, pb) = (h.get_parent(a), h.get_parent(b));
    if pa == pb { return Ok(()); }
    let Some(pa) = pa else { return no("?") };
    match k { K::C(_) | K::F(_) => {} K::V(t) if copyable(t) => {} _ => return no(format!("{} edge between regions", kname(k))) }
    // the ancestor of b that is a sibling of a
    let mut m = b;
    let mut path = vec![b];
    while let Some(p) = h.get_parent(m) { path.push(p); m = p; }
    let stat = !matches!(k, K::V(_));
    if let Some(i) = path.iter().position(|x| *x == pa) {
        if i == 0 { return no("edge between unrelated regions"); }
        let anc = path[i - 1];
        if stat { return Ok(()); }
        let Some(op) = h.get_optype(a).other_output_port() else { return no("no order edge to the container") };
        return if h.linked_inputs(a, op).any(|(x, q)| x == anc && matches!(h.get_optype(x).port_kind(q), Some(EdgeKind::StateOrder))) { Ok(()) } else { no("no order edge to the container") };
    }
    if stat { return no("static edge from an unrelated region"); }
    let Some(ppa) = h.get_parent(pa) else { return no("edge between unrelated regions") };
    let Some(i) = path.iter().position(|x| *x == ppa) else { return no("edge between unrelated regions") };
    if !matches!(h.get_optype(ppa), OpType::CFG(_)) { return no("edge between unrelated regions"); }
    if i == 0 { return no("edge between unrelated regions"); }
    let target = path[i - 1];
    // is there a path from the entry to the target that avoids the source block?
    let entry = h.children(ppa).next().unwrap();
    let reach = |avoid: Option<Node>| { let mut seen = HashSet::new(); let mut q = vec![entry]; while let Some(x) = q.pop() { if Some(x) == avoid || !seen.insert(x) { continue; } q.extend(h.output_neighbours(x).filter(|y| h.get_parent(*y) == Some(ppa))); } seen };
    if !reach(None).contains(&target) { return no("?"); }
    if reach(Some(pa)).contains(&target) { no("source block does not dominate") } else { Ok(()) }
}
// ---- mutations -------------------------------------------------------------------
fn any_type(r: &mut Rng) -> Type {
    match r.below(9) { 0 => bool_t(), 1 => qb_t(), 2 => usize_t(), 3 => int_type(5), 4 => float64_type(), 5 => ext::tok(), 6 => Type::new_tuple(vec![any_type_c(r), any_type_c(r)]), 7 => Type::new_function(Signature::new(vec![bool_t()], vec![usize_t()])), _ => string_type() }
}
fn any_type_c(r: &mut Rng) -> Type { match r.below(3) { 0 => bool_t(), 1 => usize_t(), _ => int_type(5) } }
fn tweak(r: &mut Rng, row: &TypeRow) -> TypeRow {
    let mut v: Vec<Type> = row.iter().cloned().collect();
    match r.below(5) {
        0 if v.len() > 1 => { let (i, j) = (r.below(v.len()), r.below(v.len())); v.swap(i, j); }
        1 if !v.is_empty() => { v.pop(); }
        2 => v.push(any_type(r)),
        _ if !v.is_empty() => { let i = r.below(v.len()); v[i] = any_type(r); }
        _ => v.push(any_type(r)),
    }
    v.into()
}
fn tweak_sig(r: &mut Rng, s: &Signature) -> Signature { if r.bool() { Signature::new(tweak(r, &s.input), s.output.clone()) } else { Signature::new(s.input.clone(), tweak(r, &s.output)) } }
fn tweak_rows(r: &mut Rng, v: &[TypeRow]) -> Vec<TypeRow> {
    let mut v = v.to_vec();
    match r.below(4) { 0 => { v.pop(); } 1 => v.push(TypeRow::new()), 2 if v.len() > 1 => { let (i, j) = (r.below(v.len()), r.below(v.len())); v.swap(i, j); } _ if !v.is_empty() => { let i = r.below(v.len()); v[i] = tweak(r, &v[i]); } _ => {} }
    v
}
fn bad_value(r: &mut Rng, v: &Value) -> Value {
    match v {
        Value::Sum(s) if r.chance(2, 3) => {
            let mut s: Sum = s.clone();
            match r.below(3) { 0 => s.tag += 1, 1 => { if s.values.pop().is_none() { s.values.push(Value::unit()); } } _ => if !s.values.is_empty() { let i = r.below(s.values.len()); s.values[i] = bad_value(r, &s.values[i]); } }
            Value::Sum(s)
        }
        _ => Value::true_val(),
    }
}
fn tweak_op(r: &mut Rng, op: &OpType) -> Option<OpType> {
    Some(match op.clone() {
        OpType::FuncDefn(f) => { let s = f.signature(); let ps = match r.below(3) { 0 => params(r), _ => s.params().to_vec() }; let body = if r.bool() { tweak_sig(r, s.body()) } else { s.body().clone() }; FuncDefn::new_vis(f.func_name().clone(), PolyFuncType::new(ps, body), f.visibility().clone()).into() }
        OpType::FuncDecl(f) => { let s = f.signature(); FuncDecl::new(f.func_name().clone(), PolyFuncType::new(s.params().to_vec(), tweak_sig(r, s.body()))).into() }
        OpType::DFG(mut d) => { d.signature = tweak_sig(r, &d.signature); d.into() }
        OpType::Case(mut d) => { d.signature = tweak_sig(r, &d.signature); d.into() }
        OpType::CFG(mut d) => { d.signature = tweak_sig(r, &d.signature); d.into() }
        OpType::CallIndirect(mut d) => { d.signature = tweak_sig(r, &d.signature); d.into() }
        OpType::Input(d) => Input::new(tweak(r, &d.types)).into(),
        OpType::Output(d) => Output::new(tweak(r, &d.types)).into(),
        OpType::TailLoop(mut l) => { match r.below(3) { 0 => l.just_inputs = tweak(r, &l.just_inputs), 1 => l.just_outputs = tweak(r, &l.just_outputs), _ => l.rest = tweak(r, &l.rest) }; l.into() }
        OpType::Conditional(mut l) => { match r.below(3) { 0 => l.sum_rows = tweak_rows(r, &l.sum_rows), 1 => l.other_inputs = tweak(r, &l.other_inputs), _ => l.outputs = tweak(r, &l.outputs) }; l.into() }
        OpType::DataflowBlock(mut l) => { match r.below(3) { 0 => l.sum_rows = tweak_rows(r, &l.sum_rows), 1 => l.inputs = tweak(r, &l.inputs), _ => l.other_outputs = tweak(r, &l.other_outputs) }; l.into() }
        OpType::ExitBlock(mut l) => { l.cfg_outputs = tweak(r, &l.cfg_outputs); l.into() }
        OpType::LoadConstant(_) => LoadConstant { datatype: any_type(r) }.into(),
        OpType::Const(c) => Const::new(if r.bool() { bad_value(r, c.value()) } else { crate::props::c08::rand_ctype(r, 2); Value::false_val() }).into(),
        OpType::Call(mut c) => { match r.below(3) { 0 => c.instantiation = tweak_sig(r, &c.instantiation), 1 => c.type_args = mangle(r, &c.type_args), _ => c.func_sig = PolyFuncType::new(c.func_sig.params().to_vec(), tweak_sig(r, c.func_sig.body())) }; c.into() }
        OpType::LoadFunction(mut c) => { match r.below(3) { 0 => c.instantiation = tweak_sig(r, &c.instantiation), 1 => c.type_args = mangle(r, &c.type_args), _ => c.func_sig = PolyFuncType::new(c.func_sig.params().to_vec(), tweak_sig(r, c.func_sig.body())) }; c.into() }
        OpType::Tag(mut t) => { if r.bool() { t.variants.push(tweak(r, &TypeRow::new())); } else { t.tag = 0; } t.into() }
        OpType::ExtensionOp(_) => if r.bool() { Noop::new(any_type(r)).into() } else { Tag::new(0, vec![tweak(r, &TypeRow::new())]).into() },
        _ => return None,
    })
}
fn mangle(r: &mut Rng, a: &[TypeArg]) -> Vec<TypeArg> {
    let mut v = a.to_vec();
    match r.below(4) { 0 => { v.pop(); } 1 => v.push(any_type(r).into()), _ if !v.is_empty() => { let i = r.below(v.len()); v[i] = arg(r, 2); } _ => {} }
    v
}
fn fix_ports(h: &mut Hugr, n: Node) {
    let op = h.get_optype(n).clone();
    let Some((a, b)) = kinds(&op) else { return };
    h.set_num_ports(n, a.len(), b.len());
}
fn pick<T: Copy>(r: &mut Rng, v: &[T]) -> Option<T> { if v.is_empty() { None } else { Some(v[r.below(v.len())]) } }
fn insert(r: &mut Rng, h: &mut Hugr, op: OpType, parent: Node) { match r.below(3) { 0 => { h.add_node_with_parent(parent, op); } _ => { let c: Vec<Node> = h.children(parent).collect(); match pick(r, &c) { Some(c) => { if r.bool() { h.add_node_before(c, op); } else { h.add_node_after(c, op); } } None => { h.add_node_with_parent(parent, op); } } } } }
fn mutate(r: &mut Rng, h: &mut Hugr) -> Option<&'static str> {
    let nodes: Vec<Node> = h.nodes().collect();
    let inner: Vec<Node> = nodes.iter().copied().filter(|n| *n != h.module_root()).collect();
    let n = pick(r, &inner)?;
    let vins = |h: &Hugr, n: Node| -> Vec<usize> { kinds(h.get_optype(n)).map(|k| k.0.iter().enumerate().filter(|(i, k)| matches!(k, K::V(_) | K::C(_) | K::F(_)) && *i < h.num_inputs(n)).map(|x| x.0).collect()).unwrap_or_default() };
    Some(match r.below(22) {
        // another source of the same type
        0..=3 => {
            let c: Vec<(Node, usize)> = inner.iter().flat_map(|n| vins(h, *n).into_iter().map(move |i| (*n, i))).collect();
            let (m, i) = pick(r, &c)?;
            let k = kinds(h.get_optype(m))?.0[i].clone();
            let near = r.below(3);
            let mut srcs: Vec<(Node, usize)> = vec![];
            for s in &inner { if near == 0 && h.get_parent(*s) != h.get_parent(m) { continue; } if let Some((_, o)) = kinds(h.get_optype(*s)) { for (j, x) in o.iter().enumerate() { if *x == k && j < h.num_outputs(*s) { srcs.push((*s, j)); } } } }
            let (s, j) = pick(r, &srcs)?;
            let lin = matches!(&k, K::V(t) if !copyable(t));
            let old = h.single_linked_output(m, i);
            if r.chance(6, 7) { h.disconnect(m, hugr_core::IncomingPort::from(i)); }
            if lin { // swap with the present user
                let user = h.linked_inputs(s, j).next(); if let (Some((u, p)), Some((om, op))) = (user, old) { h.disconnect(u, p); h.connect(om, op, u, p); }
            }
            h.connect(s, j, m, i);
            if near == 2 { // add the order edge an outside use requires
                let mut a = m; while let Some(p) = h.get_parent(a) { if Some(p) == h.get_parent(s) { break; } a = p; }
                if h.get_parent(a) == h.get_parent(s) && a != m && a != s && order_ports(h, s, a) { h.add_other_edge(s, a); }
            }
            "source"
        }
        4 => { let m = if r.bool() { pick(r, &inner)? } else { let c: Vec<Node> = h.children(h.get_parent(n)?).collect(); pick(r, &c)? }; if order_ports(h, n, m) { h.add_other_edge(n, m); "order+" } else { return None } }
        5 => { let c: Vec<Node> = inner.iter().copied().filter(|n| h.get_optype(*n).other_output_port().is_some_and(|p| h.linked_inputs(*n, p).next().is_some())).collect(); let m = pick(r, &c)?; let p = h.get_optype(m).other_output_port()?; let l: Vec<_> = h.linked_inputs(m, p).collect(); let (t, q) = pick(r, &l)?; h.disconnect(m, p); for (x, y) in l.iter().filter(|e| **e != (t, q)) { h.connect(m, p, *x, *y); } "order-" }
        6 => { let p = Port::new(if r.bool() { Direction::Incoming } else { Direction::Outgoing }, r.below(4)); if h.node_ports(n, p.direction()).any(|q| q == p) { h.disconnect(n, p); "cut" } else { return None } }
        7 => { let c: Vec<Node> = inner.iter().copied().filter(|n| matches!(h.get_optype(*n), OpType::DataflowBlock(_))).collect(); let b = pick(r, &c)?; let k = h.num_outputs(b); if k == 0 { return None; } let i = r.below(k); let sib: Vec<Node> = if r.chance(4, 5) { h.children(h.get_parent(b)?).filter(|x| h.num_inputs(*x) == 1).collect() } else { inner.iter().copied().filter(|x| matches!(h.get_optype(*x), OpType::DataflowBlock(_) | OpType::ExitBlock(_))).collect() }; let t = pick(r, &sib)?; if r.chance(6, 7) { h.disconnect(b, hugr_core::OutgoingPort::from(i)); } h.connect(b, i, t, 0); "flow" }
        8 => { let sib: Vec<Node> = h.children(h.get_parent(n)?).collect(); let m = pick(r, &sib)?; if m == n { return None; } if r.bool() { h.move_before_sibling(n, m); } else { h.move_after_sibling(n, m); } "reorder" }
        9 => { let m = pick(r, &nodes)?; let mut a = Some(m); while let Some(x) = a { if x == n { return None; } a = h.get_parent(x); } h.set_parent(n, m); "reparent" }
        10 => { let c: Vec<Node> = h.children(h.module_root()).filter(|n| matches!(h.get_optype(*n), OpType::FuncDefn(_) | OpType::FuncDecl(_))).collect(); let (a, b) = (pick(r, &c)?, pick(r, &c)?); let name = match h.get_optype(a) { OpType::FuncDefn(f) => f.func_name().clone(), OpType::FuncDecl(f) => f.func_name().clone(), _ => return None }; if let OpType::FuncDefn(f) = h.optype_mut(b) { *f.func_name_mut() = name; } else if let OpType::FuncDecl(f) = h.optype_mut(b) { *f.func_name_mut() = name; } "name" }
        11 => { let c: Vec<Node> = h.children(h.module_root()).filter(|n| matches!(h.get_optype(*n), OpType::FuncDecl(_))).collect(); let Some(a) = pick(r, &c) else { let root = h.module_root(); h.add_node_with_parent(root, FuncDecl::new("dd", Signature::new_endo(vec![bool_t()]))); return Some("decl") }; let op = h.get_optype(a).clone(); let root = h.module_root(); h.add_node_with_parent(root, op); "decl" }
        12 => { let m = pick(r, &nodes)?; h.set_entrypoint(m); "entry" }
        13 => { h.remove_node(n); if h.entrypoint() == n { return None; } "remove" }
        14 => { let m = pick(r, &inner)?; let (a, b) = (h.num_outputs(n), h.num_inputs(m)); if a == 0 || b == 0 { return None; } let (i, j) = (r.below(a), r.below(b)); h.connect(n, i, m, j); "link" }
        15 => { let ops: Vec<OpType> = vec![Const::new(Value::true_val()).into(), Input::new(vec![]).into(), Output::new(vec![]).into(), ExitBlock { cfg_outputs: vec![].into() }.into(), DFG { signature: Signature::new_endo(vec![]) }.into(), FuncDefn::new("zz", Signature::new_endo(vec![])).into(), Tag::new(0, vec![TypeRow::new()]).into(), Case { signature: Signature::new_endo(vec![]) }.into(), LoadConstant { datatype: bool_t() }.into(), Module::new().into()]; let op = ops[r.below(ops.len())].clone(); let m = pick(r, &nodes)?; let near = r.chance(1, 3); insert(r, h, op, m); if near { // join the new node to a sibling
                let c: Vec<Node> = h.children(m).collect(); let (a, b) = (pick(r, &c)?, pick(r, &c)?); let (x, y) = (h.num_outputs(a), h.num_inputs(b)); if x > 0 && y > 0 { let (x, y) = (r.below(x), r.below(y)); h.connect(a, x, b, y); } } "insert" }
        16 => { let a = h.num_inputs(n); let b = h.num_outputs(n); match r.below(3) { 0 => h.set_num_ports(n, a + 1, b), 1 => h.set_num_ports(n, a, b + 1), _ => { if a == 0 { return None; } h.set_num_ports(n, a - 1, b) } } "ports" }
        17 => { // duplicate an order or value edge
            let l: Vec<_> = h.node_outputs(n).flat_map(|p| h.linked_inputs(n, p).map(move |(m, q)| (p, m, q)).collect::<Vec<_>>()).collect(); let (p, m, q) = pick(r, &l)?; h.connect(n, p, m, q); "again" }
        _ => { let c: Vec<Node> = inner.iter().copied().filter(|x| r.chance(1, 3) || h.get_optype(*x).is_container()).collect(); let n = pick(r, &c)?; let op = tweak_op(r, h.get_optype(n))?; h.replace_op(n, op); if r.bool() { fix_ports(h, n); } "op" }
    })
}
fn order_ports(h: &Hugr, a: Node, b: Node) -> bool {
    let k = |n: Node, d: Direction| h.get_optype(n).other_port(d).filter(|p| h.node_ports(n, d).any(|q| q == *p));
    a != b && k(a, Direction::Outgoing).is_some() && k(b, Direction::Incoming).is_some()
}
// ---- types in scope -----------------------------------------------------------------
fn params(r: &mut Rng) -> Vec<TypeParam> { let p = params_pool(); (0..r.below(4)).map(|_| if r.bool() { p[r.below(4)].clone() } else { p[r.below(p.len())].clone() }).collect() }
fn wild(r: &mut Rng, d: usize) -> Type {
    let b = |r: &mut Rng| if r.bool() { TypeBound::Copyable } else { TypeBound::Linear };
    match r.below(if d == 0 { 3 } else { 9 }) {
        0 | 1 => any_type(r),
        2 => { let bb = b(r); Type::new_var_use(r.below(3), bb) }
        3 => { let rows: Vec<TypeRow> = (0..r.below(3)).map(|_| (0..r.below(3)).map(|_| wild(r, d - 1)).collect::<Vec<_>>().into()).collect(); Type::new_sum(rows) }
        4 => { use hugr_core::types::{FuncValueType, TypeRV}; let row = |r: &mut Rng| -> Vec<TypeRV> { (0..r.below(3)).map(|_| if r.chance(1, 3) { let bb = b(r); TypeRV::new_row_var_use(r.below(3), bb) } else { wild(r, d - 1).into() }).collect() }; let f = FuncValueType::new(row(r), row(r)); Type::new_function(f) }
        5 => Type::new_tuple(vec![wild(r, d - 1)]),
        _ => { // a custom type with arbitrary arguments
            let (x, name): (_, &str) = match r.below(8) { 0 => (ext::EXT.clone(), "boxed"), 1 => (ext::EXT.clone(), "tok"), 2 => (hugr_core::std_extensions::arithmetic::int_types::EXTENSION.clone(), "int"), 3 => (array::EXTENSION.clone(), "array"), 4 => (hugr_core::std_extensions::collections::value_array::EXTENSION.clone(), "value_array"), 5 => (list::EXTENSION.clone(), "List"), 6 => (hugr_core::std_extensions::collections::borrow_array::EXTENSION.clone(), "borrow_array"), _ => (hugr_core::std_extensions::collections::static_array::EXTENSION.clone(), "static_array") };
            let def = x.get_type(name).unwrap();
            let args: Vec<TypeArg> = if r.chance(3, 4) { def.params().iter().map(|p| good_arg(r, p, d - 1)).collect() } else { (0..r.below(3)).map(|_| arg(r, d - 1)).collect() };
            let guess = { let c = CustomType::new(name, args.clone(), x.name().clone(), TypeBound::Linear, &std::sync::Arc::downgrade(&x)); match typedef(&c) { Some((p, Err(i))) if args.len() == p.len() => match &args[i] { Term::Runtime(t) if copyable(t) => TypeBound::Copyable, _ => TypeBound::Linear }, Some((_, Ok(b))) => b, _ => TypeBound::Linear } };
            let bound = if r.chance(1, 8) { b(r) } else { guess };
            CustomType::new(name, args, x.name().clone(), bound, &std::sync::Arc::downgrade(&x)).into()
        }
    }
}
fn good_arg(r: &mut Rng, p: &TypeParam, d: usize) -> TypeArg {
    if r.chance(1, 6) && !matches!(p, Term::RuntimeType(_)) { return Term::new_var_use(r.below(3), p.clone()); }
    match p { Term::RuntimeType(_) => wild(r, d).into(), Term::BoundedNatType(_) => TypeArg::from(r.below(8) as u64), Term::StringType => "s".into(), Term::ListType(e) => Term::new_list((0..r.below(3)).map(|_| good_arg(r, e, d)).collect::<Vec<_>>()), _ => arg(r, d) }
}
pub fn arg(r: &mut Rng, d: usize) -> TypeArg {
    let pool = params_pool();
    match r.below(7) {
        0 | 1 => wild(r, d).into(),
        2 => TypeArg::from(*r.pick(&[0u64, 2, 3, 5, 6, 7, 8, 100])),
        3 => "x".into(),
        4 => { let p = pool[r.below(pool.len())].clone(); Term::new_var_use(r.below(3), p) }
        5 => Term::new_list((0..r.below(3)).map(|_| arg(r, d.saturating_sub(1))).collect::<Vec<_>>()),
        _ => Term::Float((r.below(10) as f64).into()),
    }
}
fn tiny(r: &mut Rng) -> Option<(Hugr, &'static str)> {
    let ps = params(r);
    let mut h = Hugr::new();
    let root = h.module_root();
    let mk = |h: &mut Hugr, row: TypeRow, out: TypeRow| { let f = h.add_node_with_parent(root, FuncDefn::new("f", PolyFuncType::new(ps.clone(), Signature::new(row.clone(), out.clone())))); let i = h.add_node_with_parent(f, Input::new(row)); let o = h.add_node_with_parent(f, Output::new(out)); (f, i, o) };
    match r.below(5) {
        0 | 1 => { let t = wild(r, 3); let row: TypeRow = vec![t].into(); let (_, i, o) = mk(&mut h, row.clone(), row); h.connect(i, 0, o, 0); Some((h, "type")) }
        2 => { let t = wild(r, 3); let row: TypeRow = vec![t.clone()].into(); let (f, i, o) = mk(&mut h, row.clone(), row); let n = h.add_node_with_parent(f, Noop::new(t)); h.connect(i, 0, n, 0); h.connect(n, 0, o, 0); Some((h, "op")) }
        3 => { // an operation whose arguments need not occur in its signature
            let a: Vec<TypeArg> = match r.below(2) { 0 => vec![if r.bool() { TypeArg::from(3u64) } else { Term::new_var_use(r.below(3), TypeParam::max_nat_type()) }], _ => vec![arg(r, 1)] };
            let op = hugr_core::ops::ExtensionOp::new(ext::EXT.get_op("fx")?.clone(), a).ok()?;
            let row: TypeRow = vec![int_type(5)].into(); let (f, i, o) = mk(&mut h, row.clone(), row); let n = h.add_node_with_parent(f, op); h.connect(i, 0, n, 0); h.connect(n, 0, o, 0); Some((h, "op args")) }
        _ => { // calls and loads of a polymorphic function
            let qs = params(r);
            let body: TypeRow = match r.below(3) { 0 => vec![bool_t()].into(), _ => { let c: Vec<Type> = qs.iter().enumerate().filter_map(|(i, p)| match p { Term::RuntimeType(b) => Some(Type::new_var_use(i, *b)), _ => None }).collect(); c.into() } };
            let sig = PolyFuncType::new(qs.clone(), Signature::new_endo(body));
            let args: Vec<TypeArg> = qs.iter().map(|p| if r.chance(1, 6) { arg(r, 2) } else { good_arg(r, p, 2) }).collect();
            let d = h.add_node_with_parent(root, FuncDecl::new("g", sig.clone()));
            if r.bool() {
                let c = crate::driver::quiet_catch(|| Call::try_new(sig.clone(), args.clone())).ok()?.ok()?;
                let row = c.instantiation.input.clone();
                let (f, i, o) = mk(&mut h, row.clone(), row.clone()); let n = h.add_node_with_parent(f, c);
                for k in 0..row.len() { h.connect(i, k, n, k); h.connect(n, k, o, k); }
                h.connect(d, 0, n, row.len());
                Some((h, "call"))
            } else {
                let c = crate::driver::quiet_catch(|| LoadFunction::try_new(sig.clone(), args.clone())).ok()?.ok()?;
                let t = Type::new_function(c.instantiation.clone());
                let (f, _, o) = mk(&mut h, TypeRow::new(), vec![t].into()); let n = h.add_node_with_parent(f, c);
                h.connect(n, 0, o, 0); h.connect(d, 0, n, 0);
                Some((h, "load"))
            }
        }
    }
}
fn judge(o: &mut Obs, h: &Hugr, how: &str) -> Option<bool> {
    let want = spec(h);
    if want.as_ref().is_err_and(|e| e == "?") { o.n("undecided"); return None; }
    let got = o.guard("validate", || h.validate())?;
    match (&want, &got) {
        (Ok(()), Ok(())) => { o.n("accepted"); o.n(format!("accepted:{how}")); Some(true) }
        (Err(e), Err(_)) => { o.n("refused"); o.n(format!("rule:{e}")); Some(false) }
        (Ok(()), Err(e)) => { o.bad(format!("refused valid|{}", short(&format!("{e:?}"))), format!("after {how}: a valid program is refused: {e}")); if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("{}", outline(h)); } None }
        (Err(e), Ok(())) => { o.bad(format!("accepted invalid|{e}"), format!("after {how}: an invalid program is accepted: {e}")); if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("{}", outline(h)); } None }
    }
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 1);
    for _ in 0..40 {
        let Some((h, how)) = crate::driver::quiet_catch(|| tiny(&mut r)).ok().flatten() else { o.n("tiny_aborted"); continue };
        if let Some(x) = judge(o, &h, how) { o.saws(&format!("{how} {x} {}", outline(&h))); }
    }
    let cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[8, 20, 60]) } else { *r.pick(&[6, 14, 40]) }, dead_blocks: r.bool(), ..Cfg::default() }.vary(&mut r));
    let p = crate::gen_::program(crate::rng::mix(&[seed, idx, 77]), &cfg);
    o.n("programs");
    o.add("nodes", p.hugr.num_nodes() as u64);
    if judge(o, &p.hugr, "generation").is_none() { return; }
    o.saws(&outline(&p.hugr));
    // port kinds agree
    for n in p.hugr.nodes() { let op = p.hugr.get_optype(n); if let Some((a, b)) = kinds(op) { for (d, v) in [(Direction::Incoming, a), (Direction::Outgoing, b)] { for (i, k) in v.iter().enumerate() { o.n("port_kinds"); if op.port_kind(Port::new(d, i)).map(|x| K::from(&x)).as_ref() != Some(k) { o.bad("port_kind", format!("{} port {i}: {:?}", describe(op), op.port_kind(Port::new(d, i)))); return; } } } } }
    for _ in 0..if o.thorough { 60 } else { 30 } {
        let mut h = p.hugr.clone();
        let k = 1 + r.below(3);
        let mut how = String::new();
        for _ in 0..k { match crate::driver::quiet_catch(|| mutate(&mut r, &mut h)) { Ok(Some(m)) => { how = m.to_string(); } Ok(None) => {} Err(_) => { o.n("mutation_aborted"); how.clear(); break; } } }
        if how.is_empty() { continue; }
        o.n("mutants");
        match judge(o, &h, &how) { Some(x) => o.saws(&format!("{how}{x}{}", outline(&h))), None => if !o.viol.is_empty() && !o.verbose { return; } }
    }
    o.note(|| format!("program of {} nodes and its mutants", p.hugr.num_nodes()));
}
pub fn prop() -> Prop {
    Prop { id: "C01", case, rule: "a distinct program (generated, mutated, or built around an arbitrary type) was judged by the validator and by an independent statement of the rules", need: &["accepted", "refused", "mutants", "rule:cycle", "rule:no order edge to the container", "rule:source block does not dominate", "rule:two public functions with one name", "rule:row of a control flow edge", "rule:case row", "rule:variable not declared", "rule:wrong bound of a custom type", "rule:linear output with 0 uses"], quick_s: 20, thorough_s: 400, min_cases: 60, max_cases: 20000 }
}
