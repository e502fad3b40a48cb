//! Type and operation replacement (C13), and linearization (C14).
use crate::canon;
use crate::driver::{Obs, Prop};
use crate::ext;
use crate::gen_::{opt, tup, Cfg, Ty};
use crate::rng::Rng;
use crate::util::*;
use hugr_core::builder::{inout_sig, DFGBuilder, Dataflow, DataflowHugr};
use hugr_core::extension::SignatureError;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::constant::{CustomSerialized, OpaqueValue};
use hugr_core::ops::dataflow::IOTrait;
use hugr_core::ops::dataflow::DataflowOpTrait;
use hugr_core::ops::{ExtensionOp, FuncDefn, Input, OpTrait, OpType, Output, Value, DFG};
use hugr_core::std_extensions::collections::borrow_array::{borrow_array_type_def, BorrowArray};
use hugr_core::types::{CustomType, EdgeKind, Signature, Term, Transformable, Type, TypeArg, TypeBound, TypeEnum, TypeRV, TypeTransformer};
use hugr_core::{Hugr, Node, PortIndex};
use hugr_passes::replace_types::{handlers, LinearizeError, Linearizer, NodeTemplate, ReplaceTypesError};
use hugr_passes::{lower_ops, replace_many_ops, ComposablePass, MonomorphizePass, ReplaceTypes};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

type Table = BTreeMap<String, (CustomType, CustomType)>;
struct Map<'a>(&'a Table);
impl TypeTransformer for Map<'_> { type Err = SignatureError; fn apply_custom(&self, t: &CustomType) -> Result<Option<Type>, SignatureError> { Ok(self.0.get(&name(t)).map(|x| x.1.clone().into())) } }
fn name(t: &CustomType) -> String { format!("{}.{}[{}]", t.extension(), t.name(), t.args().iter().map(|a| arg(a, &Table::new())).collect::<Vec<_>>().join(",")) }
/// A type in words, with the replacements carried out (bounds left out).
fn words(t: &TypeRV, m: &Table) -> String {
    match t.as_type_enum() {
        TypeEnum::Extension(c) => match m.get(&name(c)) { Some((_, d)) => name(d), None => format!("{}.{}[{}]", c.extension(), c.name(), c.args().iter().map(|a| arg(a, m)).collect::<Vec<_>>().join(",")) },
        TypeEnum::Alias(a) => format!("alias {}", a.name), TypeEnum::Variable(i, _) => format!("#{i}"), TypeEnum::RowVar(v) => format!("..{v:?}"),
        TypeEnum::Function(f) => format!("({}->{})", f.input().iter().map(|t| words(t, m)).collect::<Vec<_>>().join(","), f.output().iter().map(|t| words(t, m)).collect::<Vec<_>>().join(",")),
        TypeEnum::Sum(s) => format!("<{}>", s.variants().map(|r| r.iter().map(|t| words(t, m)).collect::<Vec<_>>().join(",")).collect::<Vec<_>>().join("|")),
    }
}
fn arg(a: &Term, m: &Table) -> String {
    match a {
        Term::Runtime(t) => words(&t.clone().into(), m), Term::List(v) => format!("[{}]", v.iter().map(|a| arg(a, m)).collect::<Vec<_>>().join(",")), Term::Tuple(v) => format!("({})", v.iter().map(|a| arg(a, m)).collect::<Vec<_>>().join(",")), a => format!("{a}"),
    }
}
fn row<'a>(ts: impl IntoIterator<Item = &'a Type>, m: &Table) -> String { ts.into_iter().map(|t| words(&t.clone().into(), m)).collect::<Vec<_>>().join(",") }
fn sig(op: &OpType, m: &Table) -> String {
    match op {
        OpType::FuncDefn(f) => format!("{:?} {}->{}", f.signature().params(), row(f.signature().body().input().iter(), m), row(f.signature().body().output().iter(), m)),
        OpType::FuncDecl(f) => format!("{:?} {}->{}", f.signature().params(), row(f.signature().body().input().iter(), m), row(f.signature().body().output().iter(), m)),
        OpType::DataflowBlock(b) => format!("{} {} {}", row(b.inputs.iter(), m), b.sum_rows.iter().map(|r| row(r.iter(), m)).collect::<Vec<_>>().join("|"), row(b.other_outputs.iter(), m)),
        OpType::Case(c) => format!("{}->{}", row(c.signature.input().iter(), m), row(c.signature.output().iter(), m)),
        OpType::ExitBlock(b) => row(b.cfg_outputs.iter(), m),
        OpType::Const(c) => words(&c.get_type().into(), m),
        OpType::AliasDefn(a) => words(&a.definition.clone().into(), m),
        op => {
            let st = match op.static_input() { Some(EdgeKind::Const(t)) => words(&t.clone().into(), m), Some(EdgeKind::Function(p)) => format!("{:?} {}->{}", p.params(), row(p.body().input().iter(), m), row(p.body().output().iter(), m)), _ => String::new() };
            op.dataflow_signature().map(|s| format!("{}->{} {st}", row(s.input().iter(), m), row(s.output().iter(), m))).unwrap_or_default()
        }
    }
}
fn customs(t: &Type, out: &mut Vec<CustomType>) {
    match t.as_type_enum() {
        TypeEnum::Extension(c) => { out.push(c.clone()); for a in c.args() { if let Term::Runtime(t) = a { customs(t, out); } } }
        TypeEnum::Sum(s) => for r in s.variants() { for t in r.iter() { if let Ok(t) = Type::try_from(t.clone()) { customs(&t, out); } } },
        _ => {}
    }
}
/// Every operation of the program, those of function constants too.
fn all_ops(h: &Hugr, deep: bool, out: &mut Vec<(ExtensionOp, bool)>) {
    fn val(v: &Value, out: &mut Vec<(ExtensionOp, bool)>) { match v { Value::Function { hugr } => all_ops(hugr, true, out), Value::Sum(s) => s.values.iter().for_each(|v| val(v, out)), _ => {} } }
    for n in h.nodes() { match h.get_optype(n) { OpType::ExtensionOp(e) => out.push((e.clone(), deep)), OpType::Const(c) => val(c.value(), out), _ => {} } }
}
fn has_var(s: &str) -> bool { s.contains('#') || s.contains("..") }
fn serialized(c: &OpaqueValue, to: &CustomType) -> Value { CustomSerialized::new(to.clone(), serde_json::to_value(Value::Extension { e: c.clone() }).unwrap()).into() }
fn wrap(op: &ExtensionOp, ins: &[Type], outs: &[Type]) -> Hugr {
    let mut b = DFGBuilder::new(inout_sig(ins.to_vec(), outs.to_vec())).unwrap();
    let w: Vec<_> = b.input_wires().collect();
    let x = b.add_dataflow_op(op.clone(), w).unwrap();
    b.finish_hugr_with_outputs(x.outputs()).unwrap()
}
fn function(h: &mut Hugr, nm: String, op: &ExtensionOp, ins: &[Type], outs: &[Type]) -> Node {
    let f = h.add_node_with_parent(h.module_root(), FuncDefn::new(nm, Signature::new(ins.to_vec(), outs.to_vec())));
    let (i, u) = (h.add_node_with_parent(f, Input::new(ins.to_vec())), h.add_node_with_parent(f, Output::new(outs.to_vec())));
    let n = h.add_node_with_parent(f, op.clone());
    for k in 0..ins.len() { h.connect(i, k, n, k); }
    for k in 0..outs.len() { h.connect(n, k, u, k); }
    f
}
/// All types that an operation mentions.
fn mentions(op: &OpType, s: &mut String) {
    use std::fmt::Write;
    fn val(v: &Value, s: &mut String) {
        let _ = write!(s, "{:?} ", v.get_type());
        match v {
            Value::Function { hugr } => for n in hugr.nodes() { mentions(hugr.get_optype(n), s) },
            Value::Sum(x) => x.values.iter().for_each(|v| val(v, s)),
            v => { use hugr_core::std_extensions::collections::{array::ArrayValue, borrow_array::BArrayValue, list::ListValue, value_array::VArrayValue};
                if let Some(c) = v.get_custom_value::<ListValue>() { c.get_contents().iter().for_each(|v| val(v, s)) } else if let Some(c) = v.get_custom_value::<ArrayValue>() { c.get_contents().iter().for_each(|v| val(v, s)) } else if let Some(c) = v.get_custom_value::<VArrayValue>() { c.get_contents().iter().for_each(|v| val(v, s)) } else if let Some(c) = v.get_custom_value::<BArrayValue>() { c.get_contents().iter().for_each(|v| val(v, s)) } }
        }
    }
    match op { OpType::ExtensionOp(e) => { let _ = write!(s, "{:?} {:?}", e.args(), op.dataflow_signature()); } OpType::Const(c) => val(c.value(), s), op => { let _ = write!(s, "{op:?}"); } }
}
fn to_type(t: &Type, m: &Table) -> Result<Type, SignatureError> { let mut t = t.clone(); t.transform(&Map(m))?; Ok(t) }
/// How many copies and discards a value of this (old) type needs when used this often; none where not possible.
fn needs(t: &Type, k: usize, m: &Table) -> Option<(usize, usize)> {
    if k == 1 || to_type(t, m).ok()?.copyable() { return Some((0, 0)); }
    match t.as_type_enum() {
        TypeEnum::Extension(c) => {
            if m.contains_key(&name(c)) { return Some(if k == 0 { (0, 1) } else { (k - 1, 0) }); }
            if c.name() == "value_array" { if let Some(Term::Runtime(e)) = c.args().get(1) { return needs(e, k, m); } }
            None
        }
        TypeEnum::Sum(s) => { let mut x = (0, 0); for r in s.variants() { for t in r.iter() { let y = needs(&Type::try_from(t.clone()).ok()?, k, m)?; x = (x.0 + y.0, x.1 + y.1); } } Some(x) }
        _ => None,
    }
}
fn count(h: &Hugr) -> (usize, usize) { let mut v = vec![]; all_ops(h, false, &mut v); (v.iter().filter(|(e, _)| e.extension_id() == &ext::RT_ID && e.unqualified_id() == "copy").count(), v.iter().filter(|(e, _)| e.extension_id() == &ext::RT_ID && e.unqualified_id() == "drop").count()) }

fn run(o: &mut Obs, seed: u64, idx: u64, linear: bool) {
    let mut r = rng(seed, idx, if linear { 14 } else { 13 });
    let r = &mut r;
    let k = if linear { "linear" } else { "replace" };
    if linear && r.chance(1, 3) { return copies(o, r); }
    let mut cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[12, 40, 90]) } else { *r.pick(&[8, 20, 45]) }, funcs: r.range(1, 5), ..Cfg::default() }.vary(r));
    if linear { cfg.nonlocal = r.chance(1, 4); }
    if r.bool() { cfg.poly = false; }
    let low = !linear && r.chance(1, 5);
    if low && r.chance(3, 4) { cfg.order = false; cfg.effects = false; cfg.loose = true; }
    let Some(p) = prog(o, seed, idx, &cfg) else { return };
    let (mut h, main) = (p.hugr.clone(), p.main);
    if !cfg.poly { } else if r.bool() || linear { h.set_entrypoint(h.module_root()); if o.guard("mono", || MonomorphizePass.run(&mut h).is_ok()) != Some(true) { return; } let d = hugr_passes::RemoveDeadFuncsPass::default().with_module_entry_points([main]); if d.run(&mut h).is_err() { return; } }
    h.set_entrypoint(h.module_root());
    if linear && o.guard("localize", || hugr_passes::non_local::remove_nonlocal_edges(&mut h).is_ok()) != Some(true) { return; }
    h.set_entrypoint(h.module_root());
    let ins = inputs(&p.ins, r, 2);
    let want = reference(o, &h, main, &ins, 20_000);
    if low { return lowering(o, r, h, main, &want); }
    // which types
    let mut found: Vec<CustomType> = vec![];
    for n in h.nodes() { if let Some(s) = h.get_optype(n).dataflow_signature() { for t in s.input().iter().chain(s.output().iter()) { customs(t, &mut found); } } }
    let mut seen = BTreeMap::new();
    for c in found { let w = words(&Type::from(c.clone()).into(), &Table::new()); if !has_var(&w) && c.extension() != &ext::RT_ID && c.name() != "error" { seen.insert(name(&c), c); } }
    // (instances of polymorphic functions are not told apart)
    let poly = h.children(h.module_root()).any(|n| match h.get_optype(n) { OpType::FuncDefn(f) => !f.signature().params().is_empty(), OpType::FuncDecl(f) => !f.signature().params().is_empty(), _ => false });
    // (the code inserted to copy arrays uses these itself)
    let arrays = seen.values().any(|c| c.name() == "value_array") || ops_mention(&h, "value_array");
    let cand: Vec<&CustomType> = seen.values().filter(|c| (!poly || c.args().is_empty()) && (!linear || c.bound() == TypeBound::Copyable && c.name() != "value_array" && !(arrays && (c.name() == "usize" || name(c).ends_with("int[6]"))))).collect();

    let mut table = Table::new();
    for i in 0..r.range(1, 2) { if let Some(c) = r.pick_opt(&cand) { table.insert(name(c), ((*c).clone(), ext::rt_type(linear && (i == 0 || r.bool()), &format!("{}{i}", c.name())))); } }
    let nothing = table.is_empty() || r.chance(1, 25);
    if nothing { table.clear(); let c = ext::rt_type(false, "none"); table.insert(name(&c), (c.clone(), ext::rt_type(false, "other"))); }
    let mut rt = ReplaceTypes::default();
    rt.replace_consts_parametrized(borrow_array_type_def(), handlers::generic_array_const::<BorrowArray>);
    let mut by_def = BTreeMap::new();
    for (c, d) in table.values() {
        let (d1, c1) = (d.clone(), c.clone());
        match c.extension_ref().upgrade().and_then(|e| e.get_type(c.name()).cloned()) { Some(def) if r.chance(1, 4) && !c.args().is_empty() => { let mut a = c.args().to_vec(); if a.iter_mut().try_for_each(|a| a.transform(&Map(&table)).map(|_| ())).is_err() { o.n("unusable_types"); return; } by_def.entry((def.extension_id().to_string(), def.name().to_string())).or_insert((def, vec![])).1.push((a, d.clone())); o.n("type_by_callback"); } _ => rt.set_replace_type(c.clone(), d.clone().into()) }
        match c1.extension_ref().upgrade().and_then(|e| e.get_type(c1.name()).cloned()) { Some(def) if r.bool() && c1.args().is_empty() => rt.replace_consts_parametrized(&def, move |v, _| Ok(Some(serialized(v, &d1)))), _ => rt.replace_consts(c1, move |v, _| Ok(serialized(v, &d1))) }
        if d.bound() == TypeBound::Linear && rt.linearizer_mut().register_simple(d.clone(), NodeTemplate::SingleOp(ext::rt_op("copy", d.args().to_vec()).into()), NodeTemplate::SingleOp(ext::rt_op("drop", d.args().to_vec()).into())).is_err() { o.bad("linear|register", "copy and discard operations were refused"); return; }
    }
    for (def, v) in by_def.into_values() { rt.set_replace_parametrized_type(&def, move |a| v.iter().find(|x| x.0 == a).map(|x| x.1.clone().into())); }
    // operations whose signature does not follow from their arguments
    let mut ops = vec![];
    all_ops(&h, false, &mut ops);
    let deep: HashSet<String> = ops.iter().filter(|x| x.1).map(|(e, _)| format!("{}{:?}", e.qualified_id(), e.args())).collect();
    let mut done: HashMap<String, String> = HashMap::new();
    let mut refuse = false;
    let mut per_def: BTreeMap<String, Vec<(Vec<TypeArg>, NodeTemplate)>> = BTreeMap::new();
    let mut defs = HashMap::new();
    let mut funcs: BTreeSet<Node> = BTreeSet::new();
    for (e, _) in &ops {
        let key = format!("{}{:?}", e.qualified_id(), e.args());
        if done.contains_key(&key) { continue; }
        let s = e.signature().into_owned();
        let mut args = e.args().to_vec();
        if args.iter_mut().try_for_each(|a| a.transform(&Map(&table)).map(|_| ())).is_err() { refuse = true; continue; }
        if let Ok(e2) = ExtensionOp::new(e.def_arc().clone(), args.clone()) { let op2: OpType = e2.into(); if sig(&op2, &Table::new()) == sig(&e.clone().into(), &table) { done.insert(key, "itself".into()); continue; } }
        if has_var(&sig(&e.clone().into(), &table)) || e.args().iter().any(|a| has_var(&arg(a, &table))) { o.n("variables_in_the_way"); return; }
        let (Ok(ti), Ok(to)) = (s.input().iter().map(|t| to_type(t, &table)).collect::<Result<Vec<_>, _>>(), s.output().iter().map(|t| to_type(t, &table)).collect::<Result<Vec<_>, _>>()) else { refuse = true; continue };
        let old_terms = r.bool();
        let new = if old_terms { ext::rt_do(e, &s.input().iter().cloned().collect::<Vec<_>>(), &s.output().iter().cloned().collect::<Vec<_>>()) } else { ext::rt_do(e, &ti, &to) };
        let what = *r.pick(&["op", "op", "graph", "call"]);
        let t = match what {
            "graph" if old_terms => NodeTemplate::CompoundOp(Box::new(wrap(&new, &s.input().iter().cloned().collect::<Vec<_>>(), &s.output().iter().cloned().collect::<Vec<_>>()))),
            "graph" => NodeTemplate::CompoundOp(Box::new(wrap(&new, &ti, &to))),
            "call" if !deep.contains(&key) => { let f = function(&mut h, format!("_rt{}", done.len()), &ext::rt_do(e, &ti, &to), &ti, &to); funcs.insert(f); NodeTemplate::Call(f, vec![]) }
            _ => NodeTemplate::SingleOp(new.into()),
        };
        o.n(&format!("by_{}", match &t { NodeTemplate::SingleOp(_) => "operation", NodeTemplate::CompoundOp(_) => "graph", NodeTemplate::Call(..) => "call" }));
        if r.chance(1, 4) && args == e.args() { o.n("by_callback"); per_def.entry(e.qualified_id().to_string()).or_default().push((args, t)); defs.insert(e.qualified_id().to_string(), e.def_arc().clone()); } else { rt.set_replace_op(e, t); }
        done.insert(key, "replaced".into());
    }
    for (q, v) in per_def { rt.set_replace_parametrized_op(&defs[&q], move |a, _| Ok(v.iter().find(|x| x.0 == a).map(|x| x.1.clone()))); }
    // which copies are needed
    let mut need = (0, 0);
    let mut possible = true;
    for n in h.nodes() {
        let op = h.get_optype(n);
        let Some(s) = op.dataflow_signature() else { continue };
        for q in s.output_ports() { let t = s.out_port_type(q).unwrap(); if !t.copyable() { continue; } match needs(t, h.linked_inputs(n, q).count(), &table) { Some(x) => need = (need.0 + x.0, need.1 + x.1), None => { possible = false; if o.verbose { eprintln!("not possible: {t}"); } } } }
    }
    for n in h.nodes() {
        let op = h.get_optype(n);
        // functions as values are converted too
        if let OpType::Const(c) = op { let mut v = vec![]; fn fns(v: &Value, out: &mut Vec<Hugr>) { match v { Value::Function { hugr } => out.push((**hugr).clone()), Value::Sum(s) => s.values.iter().for_each(|v| fns(v, out)), _ => {} } } fns(c.value(), &mut v); for g in v { for n in g.nodes() { if let Some(s) = g.get_optype(n).dataflow_signature() { for q in s.output_ports() { let t = s.out_port_type(q).unwrap(); if !t.copyable() { continue; } match needs(t, g.linked_inputs(n, q).count(), &table) { Some(x) => need = (need.0 + x.0, need.1 + x.1), None => possible = false } } } } } }
    }
    let before = h.clone();
    if r.bool() { let mut v: Vec<Node> = h.children(h.module_root()).collect(); r.shuffle(&mut v); rt.set_regions(v); }
    let dump = |h: &Hugr| if o_verbose() { for g in [&before, h] { for n in g.nodes() { if let OpType::Const(c) = g.get_optype(n) { if let Value::Function { hugr } = c.value() { eprintln!("FN {n}\n{}", outline(hugr)); } } } } eprintln!("TABLE {:?}\nBEFORE\n{}\nAFTER\n{}", table.values().map(|(a, b)| (name(a), name(b))).collect::<Vec<_>>(), outline(&before), outline(h)); };
    let Some(res) = o.guard(k, || rt.run(&mut h)) else { return };
    match res {
        Err(e) => {
            let fine = match &e { ReplaceTypesError::SignatureError(_) => refuse || bad_bounds(&before, &table), ReplaceTypesError::LinearizeError(LinearizeError::NeedCopyDiscard(_) | LinearizeError::UnsupportedType(_) | LinearizeError::SignatureError(_)) => !possible || refuse, _ => false };
            if !fine { o.bad(format!("{k}|refused {}", short(&e.to_string())), format!("{} (table {:?})", chain(&e), table.keys().collect::<Vec<_>>())); dump(&h); return; }
            o.n("refused");
            return;
        }
        Ok(ch) => {
            o.n(if ch { "changed" } else { "unchanged" });
            if nothing || !ch { if ch || canon::snapshot(&h) != canon::snapshot(&before) { o.bad(format!("{k}|nothing to do"), format!("a program that has none of the types was changed ({ch})")); } else { o.n("left_alone"); } return; }
        }
    }
    if !possible { o.bad(format!("{k}|accepted"), "values that cannot be copied or discarded were"); dump(&h); return; }
    if !check_valid(o, k, &h) { dump(&h); return; }
    o.saw(canon::shape(&h));
    // nothing is left, and everything has its new type
    for n in h.nodes() {
        let mut s = String::new();
        mentions(h.get_optype(n), &mut s);
        for (c, _) in table.values() { if s.contains(&format!("{c:?}")) { o.bad(format!("{k}|left over in {}", crate::props::c09::optype_name(h.get_optype(n))), format!("{} in {n}", name(c))); dump(&h); return; } }
    }
    for n in before.nodes() {
        let (x, y) = (before.get_optype(n), if h.contains_node(n) { h.get_optype(n) } else { o.bad(format!("{k}|node gone"), format!("{n} {}", describe(before.get_optype(n)))); return });
        if before.get_parent(n) != h.get_parent(n) || canon::meta(&before, n) != canon::meta(&h, n) { o.bad(format!("{k}|node moved"), format!("{n} {}", describe(x))); return; }
        let replaced = matches!(x, OpType::ExtensionOp(e) if done.get(&format!("{}{:?}", e.qualified_id(), e.args())).is_some_and(|d| d == "replaced"));
        let (s, t) = (sig(x, &table), sig(y, &Table::new()));
        if if replaced { !t.starts_with(s.trim_end()) } else { s != t || std::mem::discriminant(x) != std::mem::discriminant(y) } { o.bad(format!("{k}|type of {}", crate::props::c09::optype_name(x)), format!("{n} {}: {t} instead of {s}", describe(x))); dump(&h); return; }
        if replaced { o.n("operations_replaced"); let ok = match y { OpType::ExtensionOp(e) => e.extension_id() == &ext::RT_ID, OpType::DFG(DFG { .. }) | OpType::Call(_) => true, _ => false }; if !ok { o.bad(format!("{k}|operation not replaced"), format!("{n} {} became {}", describe(x), describe(y))); return; } }
        if !linear { for q in before.node_inputs(n) { let l = |h: &Hugr, q: hugr_core::IncomingPort| h.linked_outputs(n, q).map(|(m, p)| (m, p.index())).collect::<Vec<_>>(); let q2 = if replaced && matches!(y, OpType::Call(_)) && q.index() >= h.get_optype(n).value_input_count() { (q.index() + 1).into() } else { q }; if l(&before, q) != l(&h, q2) { o.bad(format!("{k}|links"), format!("port {q} of {n} {}", describe(x))); return; } } }
    }
    o.add("nodes_compared", before.num_nodes() as u64);
    if linear {
        let got = count(&h);
        if got != need { o.bad(format!("{k}|copies"), format!("{} copies and {} discards instead of {} and {}", got.0, got.1, need.0, need.1)); dump(&h); return; }
        o.add("copies", need.0 as u64); o.add("discards", need.1 as u64);
    }
    if !same(o, k, &h, main, &want, |x| x.clone()) { dump(&h); }
    o.note(|| format!("{:?}", table.values().map(|(a, b)| (name(a), name(b))).collect::<Vec<_>>()));
}
fn ops_mention(h: &Hugr, s: &str) -> bool { h.nodes().any(|n| { let mut t = String::new(); mentions(h.get_optype(n), &mut t); t.contains(s) }) }
fn o_verbose() -> bool { std::env::var("HV_DUMP").is_ok() }
/// Does the program use a type parameter for copyable types with one that becomes linear?
fn bad_bounds(h: &Hugr, m: &Table) -> bool {
    struct Bounds<'a>(&'a Table, std::cell::Cell<bool>);
    fn t(ty: &Type, m: &Table) -> bool { to_type(ty, m).is_err() }
    let _ = |b: &Bounds| b.1.get() && b.0.is_empty();
    h.nodes().any(|n| match h.get_optype(n) {
        OpType::Call(c) => c.func_sig.params().iter().zip(&c.type_args).any(|(p, a)| matches!((p, a), (Term::RuntimeType(TypeBound::Copyable), Term::Runtime(t)) if to_type(t, m).is_ok_and(|t| !t.copyable()))),
        OpType::LoadFunction(c) => c.func_sig.params().iter().zip(&c.type_args).any(|(p, a)| matches!((p, a), (Term::RuntimeType(TypeBound::Copyable), Term::Runtime(t)) if to_type(t, m).is_ok_and(|t| !t.copyable()))),
        op => op.dataflow_signature().is_some_and(|s| s.input().iter().chain(s.output().iter()).any(|ty| t(ty, m))),
    })
}
/// Operations replaced by others of the same type.
fn lowering(o: &mut Obs, r: &mut Rng, mut h: Hugr, main: Node, want: &[(Vec<crate::val::V>, crate::interp::Outcome)]) {
    let mut ops = vec![];
    all_ops(&h, false, &mut ops);
    let names: Vec<String> = ops.iter().map(|(e, _)| e.qualified_id().to_string()).collect();
    let Some(pick) = r.pick_opt(&names).cloned() else { return };
    let all = r.bool();
    h.set_entrypoint(if r.bool() { main } else { h.module_root() });
    let before = h.clone();
    let fit = |op: &OpType| match op { OpType::ExtensionOp(e) if e.extension_id() != &ext::RT_ID && (all || e.qualified_id() == pick.as_str()) && !e.args().iter().any(|a| has_var(&arg(a, &Table::new()))) => Some(e.clone()), _ => None };
    let io = |e: &ExtensionOp| { let s = e.signature().into_owned(); (s.input().iter().cloned().collect::<Vec<_>>(), s.output().iter().cloned().collect::<Vec<_>>()) };
    let mut exp: Vec<Node> = before.entry_descendants().filter(|n| fit(before.get_optype(*n)).is_some()).collect();
    let key = if r.bool() { "lower_ops" } else { "replace_many_ops" };
    let got = if key == "lower_ops" {
        match o.guard(key, || lower_ops(&mut h, |op| fit(op).map(|e| { let (i, u) = io(&e); wrap(&ext::rt_do(&e, &i, &u), &i, &u) }))) { None => return, Some(Ok(v)) => v, Some(Err(e)) => { o.bad(format!("{key}|refused {}", short(&e.to_string())), chain(&e)); return } }
    } else {
        match o.guard(key, || replace_many_ops(&mut h, |op| fit(op).map(|e| { let (i, u) = io(&e); ext::rt_do(&e, &i, &u) }))) { None => return, Some(v) => v }
    };
    let mut nodes: Vec<Node> = got.iter().map(|x| x.0).collect();
    nodes.sort(); exp.sort();
    if nodes != exp || got.iter().any(|(n, op)| canon::cmp_op(op, before.get_optype(*n), Default::default()).is_err()) { o.bad(format!("{key}|report"), format!("reports {nodes:?}, expected {exp:?}")); return; }
    for n in h.entry_descendants() { if fit(h.get_optype(n)).is_some() { o.bad(format!("{key}|left over"), format!("{n} {}", describe(h.get_optype(n)))); return; } }
    o.add("lowered", nodes.len() as u64);
    if check_valid(o, key, &h) { same(o, key, &h, main, want, |x| x.clone()); }
}
/// A value of a nested type, used any number of times, by hand.
fn copies(o: &mut Obs, r: &mut Rng) {
    o.n("by_hand");
    let base = Ty::Usize;
    fn ty(r: &mut Rng, d: usize, base: &Ty) -> Ty {
        match r.below(if d == 0 { 2 } else { 6 }) { 0 => base.clone(), 1 => crate::gen_::tbool(), 2 => opt(ty(r, d - 1, base)), 3 => tup((0..r.below(4)).map(|_| ty(r, d - 1, base)).collect()), 4 => Ty::Sum((0..r.range(1, 3)).map(|_| (0..r.below(3)).map(|_| ty(r, d - 1, base)).collect()).collect()), _ => base.clone() }
    }
    let t = ty(r, 3, &base);
    let c = match Type::from(hugr_core::extension::prelude::usize_t()).as_type_enum() { TypeEnum::Extension(c) => c.clone(), _ => return };
    // what it is replaced by: a linear type, or an array of such or of copyable elements
    let elem = ext::rt_type(r.bool(), "e");
    let n = r.below(4) as u64;
    let kind = r.below(4);
    let target: Type = match kind { 0 => ext::rt_type(true, "l").into(), 1 => hugr_core::std_extensions::collections::array::array_type(n, elem.clone().into()), 2 => hugr_core::std_extensions::collections::borrow_array::borrow_array_type(n, elem.clone().into()), _ => hugr_core::std_extensions::collections::value_array::value_array_type(n, elem.clone().into()) };
    let uses = *r.pick(&[0, 0, 1, 2, 2, 3, 4, 5]);
    let tt = t.ty();
    let mut b = DFGBuilder::new(inout_sig(vec![tt.clone(), tt.clone()], vec![tt.clone(); uses + 1])).unwrap();
    let [x, y] = b.input_wires_arr();
    let mut outs = vec![x; uses]; outs.insert(r.below(uses + 1), y);
    let pos = outs.iter().position(|w| *w == y).unwrap();
    let mut h = b.finish_hugr_with_outputs(outs).unwrap();
    let mut rt = ReplaceTypes::default();
    rt.set_replace_type(c.clone(), target.clone());
    for e in [elem.clone(), ext::rt_type(true, "l")] { if e.bound() == TypeBound::Linear { rt.linearizer_mut().register_simple(e.clone(), NodeTemplate::SingleOp(ext::rt_op("copy", e.args().to_vec()).into()), NodeTemplate::SingleOp(ext::rt_op("drop", e.args().to_vec()).into())).unwrap(); } }
    let key = ["copies:plain", "copies:array", "copies:borrow_array", "copies:value_array"][kind];
    let Some(res) = o.guard(key, || rt.run(&mut h)) else { return };
    if let Err(e) = res { o.bad(format!("{key}|refused {}", short(&e.to_string())), chain(&e)); return; }
    if !check_valid(o, key, &h) { return; }
    let mut new = t.ty(); if new.transform(&One(c.clone(), target.clone())).is_err() { return; }
    if new.copyable() { o.n("still_copyable"); }
    // run it
    use crate::val::V;
    fn conv(v: &V, t: &Ty, n: u64, kind: usize) -> V {
        match (v, t) { (V::Usize(_), Ty::Usize) if kind > 0 => V::Arr((0..n).map(|i| match v { V::Usize(x) => Some(V::Usize(x.wrapping_add(i))), _ => None }).collect()), (V::Sum(k, vs), Ty::Sum(rs)) => V::Sum(*k, vs.iter().zip(&rs[*k]).map(|(v, t)| conv(v, t, n, kind)).collect()), (v, _) => v.clone() }
    }
    let (a, b) = (conv(&t.rand_val(r), &t, n, kind), conv(&t.rand_val(r), &t, n, kind));
    let prog = crate::interp::Prog::new(h.clone());
    match crate::interp::outcome(&prog, h.entrypoint(), &[], vec![a.clone(), b.clone()], 20_000) {
        Ok(x) => { let want: Vec<String> = (0..uses + 1).map(|i| format!("{:?}", if i == pos { &b } else { &a })).collect(); let got: Vec<String> = x.vals.iter().map(|v| format!("{v:?}")).collect(); if got != want { o.bad(format!("{key}|values"), format!("{uses} uses of {}: {got:?} instead of {want:?}", t.ty())); if o_verbose() { eprintln!("{}", outline(&h)); } return; } o.n("copies_run"); }
        Err(e) => { o.bad(format!("{key}|run"), format!("{uses} uses of {} by arrays of {n}: {e:?}", t.ty())); if o_verbose() { eprintln!("{}", outline(&h)); } return; }
    }
    // the operation alone
    let lin = rt.get_linearizer();
    let k = if uses == 1 { 2 } else { uses };
    match o.guard(key, || lin.copy_discard_op(&new, k)) { None => {} Some(Ok(_)) if new.copyable() => o.bad(format!("{key}|copyable"), format!("a copy of the copyable {new}")), Some(Err(LinearizeError::CopyableType(_))) if new.copyable() => o.n("copyable_refused"), Some(Err(e)) => o.bad(format!("{key}|template refused"), chain(&e)), Some(Ok(t)) => {
        let mut d = DFGBuilder::new(inout_sig(vec![new.clone()], vec![new.clone(); k])).unwrap();
        let w: Vec<_> = d.input_wires().collect();
        match o.guard(key, || t.add(&mut d, w).map(|x| x.outputs().collect::<Vec<_>>())) { Some(Ok(ws)) => match d.finish_hugr_with_outputs(ws) { Ok(h) => { check_valid(o, key, &h); o.n("templates"); } Err(e) => o.bad(format!("{key}|template"), chain(&e)) }, Some(Err(e)) => o.bad(format!("{key}|template"), chain(&e)), None => {} }
    } }
}
struct One(CustomType, Type);
impl TypeTransformer for One { type Err = SignatureError; fn apply_custom(&self, t: &CustomType) -> Result<Option<Type>, SignatureError> { Ok((*t == self.0).then(|| self.1.clone())) } }
pub fn prop() -> Prop {
    Prop { id: "C13", case: |o, s, i| run(o, s, i, false), rule: "types or operations were replaced in a program (distinct results)", need: &["changed", "left_alone", "by_operation", "by_graph", "by_call", "by_callback", "type_by_callback", "operations_replaced", "nodes_compared", "lowered", "compared_runs"], quick_s: 20, thorough_s: 600, min_cases: 200, max_cases: 20_000 }
}
pub fn prop14() -> Prop {
    Prop { id: "C14", case: |o, s, i| run(o, s, i, true), rule: "copyable types became linear in a program (distinct results)", need: &["changed", "refused", "copies", "discards", "by_hand", "copies_run", "templates", "still_copyable", "copyable_refused", "compared_runs"], quick_s: 20, thorough_s: 600, min_cases: 200, max_cases: 20_000 }
}
