//! Dataflow analysis: everything that happens in an execution is covered by the result, and
//! the values of the analysis form a lattice.
use crate::driver::{quiet_catch, Obs, Prop};
use crate::gen_::Cfg;
use crate::interp::{const_val, eval_op, run_func, Ctx, Prog};
use crate::rng::Rng;
use crate::util::*;
use crate::val::{FuncV, V};
use ascent::lattice::BoundedLattice;
use ascent::Lattice;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::constant::OpaqueValue;
use hugr_core::ops::{ExtensionOp, OpType, Value};
use hugr_core::types::{SumType, Type};
use hugr_core::{IncomingPort, Node, OutgoingPort, Wire};
use hugr_passes::dataflow::*;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::rc::Rc;

// ---- the domain: up to three possible leaf values ----
#[derive(Clone)]
pub struct Dom(Vec<(String, V)>);
impl Dom {
    fn of(v: V) -> Dom { Dom(vec![(format!("{v:?}"), v)]) }
    fn keys(&self) -> Vec<&String> { self.0.iter().map(|x| &x.0).collect() }
}
impl std::fmt::Debug for Dom { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { write!(f, "{{{}}}", self.0.iter().map(|x| x.0.as_str()).collect::<Vec<_>>().join("|")) } }
impl PartialEq for Dom { fn eq(&self, o: &Dom) -> bool { self.keys() == o.keys() } }
impl Eq for Dom {}
impl Hash for Dom { fn hash<H: Hasher>(&self, h: &mut H) { self.keys().hash(h) } }
impl AbstractValue for Dom {
    fn try_join(self, o: Dom) -> Option<(Dom, bool)> {
        let mut v = self.0.clone();
        for x in o.0 { if !v.iter().any(|y| y.0 == x.0) { v.push(x); } }
        if v.len() > 3 { return None; }
        v.sort_by(|a, b| a.0.cmp(&b.0));
        let ch = v.len() != self.0.len();
        Some((Dom(v), ch))
    }
    fn try_meet(self, o: Dom) -> Option<(Dom, bool)> {
        let v: Vec<_> = self.0.iter().filter(|x| o.0.iter().any(|y| y.0 == x.0)).cloned().collect();
        if v.is_empty() { return None; }
        let ch = v.len() != self.0.len();
        Some((Dom(v), ch))
    }
}
type PV = PartialValue<Dom, Node>;

/// the most precise abstract value of a concrete one
fn abs(v: &V, p: Option<&Rc<Prog>>) -> PV {
    match v {
        V::Sum(t, vs) => PV::new_variant(*t, vs.iter().map(|x| abs(x, p))),
        V::Func(f) => match p { Some(p) if Rc::ptr_eq(p, &f.prog) => PV::new_load(f.node, vec![]), _ => PV::Top },
        V::Poison => PV::Top,
        v if v.has_func() => PV::Top,
        v => PV::Value(Dom::of(v.clone())),
    }
}
/// all the concrete values, if they are few
fn conc(p: &PV) -> Option<Vec<V>> {
    Some(match p {
        PV::Value(d) => d.0.iter().map(|x| x.1.clone()).collect(),
        PV::PartialSum(s) => {
            let mut out = vec![];
            let mut tags: Vec<_> = s.0.iter().collect();
            tags.sort_by_key(|x| *x.0);
            for (t, row) in tags { for vs in product(row)? { out.push(V::Sum(*t, vs)); } }
            if out.len() > 12 { return None; }
            out
        }
        _ => return None,
    })
}
fn product(row: &[PV]) -> Option<Vec<Vec<V>>> {
    let mut acc: Vec<Vec<V>> = vec![vec![]];
    for x in row {
        let c = conc(x)?;
        acc = acc.into_iter().flat_map(|a| c.iter().map(move |y| { let mut b = a.clone(); b.push(y.clone()); b }).collect::<Vec<_>>()).collect();
        if acc.len() > 12 { return None; }
    }
    Some(acc)
}
pub fn covered(p: &PV, v: &V, prog: &Rc<Prog>) -> bool {
    match (p, v) {
        (PV::Top, _) => true,
        (PV::Bottom, _) => false,
        (PV::Value(d), v) => { let k = format!("{v:?}"); d.0.iter().any(|x| x.0 == k) }
        (PV::PartialSum(s), V::Sum(t, vs)) => s.0.get(t).is_some_and(|row| row.len() == vs.len() && row.iter().zip(vs).all(|(a, b)| covered(a, b, prog))),
        (PV::LoadedFunction(l), V::Func(f)) => Rc::ptr_eq(prog, &f.prog) && f.node == l.func_node,
        _ => false,
    }
}
struct Cx { prog: Rc<Prog>, panics: bool }
impl ConstLoader<Dom> for Cx {
    type Node = Node;
    fn value_from_opaque(&self, _: ConstLocation<Node>, v: &OpaqueValue) -> Option<Dom> {
        match const_val(&self.prog, &Value::Extension { e: v.clone() }) { Ok(x) if !x.has_func() && !matches!(x, V::Sum(..)) => Some(Dom::of(x)), _ => None }
    }
}
impl DFContext<Dom> for Cx {
    fn interpret_leaf_op(&mut self, _: Node, e: &ExtensionOp, ins: &[PV], outs: &mut [PV]) {
        let name = e.unqualified_id();
        if self.panics && e.extension_id().to_string() == "prelude" && name == "panic" { outs.fill(PV::Bottom); return; }
        let id = e.qualified_id();
        if id == "prelude.Noop" { outs.clone_from_slice(ins); return; }
        let Some(all) = product(ins) else { return };
        let mut res = vec![PV::Bottom; outs.len()];
        for a in all {
            match quiet_catch(|| eval_op(e.extension_id(), name, e.args(), a)) {
                Ok(Ok(vs)) if vs.len() == outs.len() => for (r, v) in res.iter_mut().zip(&vs) { r.join_mut(abs(v, None)); },
                Ok(Err(crate::interp::Stop::Panic(_))) if self.panics => {}
                _ => return,
            }
        }
        outs.clone_from_slice(&res);
    }
}

/// concrete values read back from a result
struct Got(V);
#[derive(Debug)]
struct No;
impl std::fmt::Display for No { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("several values") } }
impl std::error::Error for No {}
thread_local! { static PROG: std::cell::RefCell<Option<Rc<Prog>>> = const { std::cell::RefCell::new(None) }; }
impl AsConcrete<Dom, Node> for Got {
    type ValErr = No;
    type SumErr = No;
    fn from_value(v: Dom) -> Result<Got, No> { if v.0.len() == 1 { Ok(Got(v.0[0].1.clone())) } else { Err(No) } }
    fn from_sum(s: Sum<Got>) -> Result<Got, No> {
        if s.st.get_variant(s.tag).is_none_or(|r| r.len() != s.values.len()) { return Err(No); }
        Ok(Got(V::Sum(s.tag, s.values.into_iter().map(|x| x.0).collect())))
    }
    fn from_func(f: LoadedFunction<Node>) -> Result<Got, LoadedFunction<Node>> { Ok(Got(V::Func(FuncV { prog: PROG.with(|p| p.borrow().clone().unwrap()), node: f.func_node, targs: vec![] }))) }
}

fn inputs_for(r: &mut Rng, ins: &[Vec<V>], n: usize) -> Vec<(IncomingPort, PV)> {
    let mode = r.below(4);
    let mut v = vec![];
    for i in 0..n {
        if mode == 0 || (mode == 1 && r.bool()) { continue; }
        let mut p = PV::Bottom;
        for x in ins { p.join_mut(abs(&x[i], None)); }
        if ins.is_empty() { p = PV::Top; }
        v.push((IncomingPort::from(i), p));
    }
    v
}

fn soundness(o: &mut Obs, r: &mut Rng, seed: u64, idx: u64) {
    let mut cfg = Cfg { fnvals: r.chance(2, 3), const_heavy: r.chance(2, 3), size: 40, ..Cfg::default() }.vary(r);
    if r.bool() { cfg.floats = false; cfg.strs = false; }
    let Some(p) = crate::util::prog(o, seed, idx, &dev_cfg(cfg)) else { return };
    let mut h = p.hugr.clone();
    let main = p.main;
    match r.below(8) { 0..=2 => h.set_entrypoint(main), 3..=5 => { let m = h.module_root(); h.set_entrypoint(m) } _ => crate::spice::any_entry(r, &mut h, main) }
    let ep = h.entrypoint();
    let at_module = ep == h.module_root();
    let nruns = r.range(1, 4);
    let ins = inputs(&p.ins, r, nruns);
    let pr = Prog::new(h.clone());
    PROG.with(|x| *x.borrow_mut() = Some(pr.clone()));
    let mut runs: Vec<(Node, Vec<V>)> = ins.iter().map(|i| (main, i.clone())).collect();
    let key = if at_module { "module" } else if ep == main { "main" } else { "container" };
    let mut cx = Cx { prog: pr.clone(), panics: r.bool() };
    let mut m = Machine::new(&h);
    let mut extra: Vec<(Wire, PV)> = vec![];
    if r.chance(1, 5) {
        let ws: Vec<(Wire, Type)> = h.entry_descendants().flat_map(|n| h.out_value_types(n).map(move |(q, t)| (Wire::new(n, q), t)).collect::<Vec<_>>()).collect();
        for _ in 0..r.range(1, 3) {
            let Some((w, t)) = r.pick_opt(&ws) else { break };
            if format!("{t}").contains("->") { continue; }
            let v = match t.as_type_enum() {
                hugr_core::types::TypeEnum::Sum(SumType::Unit { size }) if *size > 0 => PV::new_variant(r.below(*size as usize), []),
                _ => PV::Top,
            };
            m.prepopulate_wire(*w, v.clone());
            extra.push((*w, v));
        }
        o.add("wires given a value", extra.len() as u64);
    }
    let mut given = vec![];
    if at_module {
        if m.prepopulate_inputs(main, inputs_for(r, &ins, p.ins.len())).is_err() { o.bad("prepopulate_inputs", "refused for a function"); return; }
        for f in &p.funcs {
            if r.chance(1, 3) && f.node != main && h.get_optype(f.node).is_func_defn() {
                let Ok(_) = m.prepopulate_inputs(f.node, []) else { o.bad("prepopulate_inputs", "refused for a function"); return };
                let poly = h.get_optype(f.node).as_func_defn().is_some_and(|d| !d.signature().params().is_empty());
                if !poly { for i in inputs(&f.ins, r, 1) { runs.push((f.node, i)); } }
            }
        }
    } else if ep == main { given = inputs_for(r, &ins, p.ins.len()); }
    let late = ep == main && r.bool();
    let res = o.guard(&format!("{key}:run"), || {
        if late && !given.is_empty() { m.prepopulate_inputs(main, given.clone()).unwrap(); m.run(&mut cx_of(&mut cx), []) } else { m.run(&mut cx_of(&mut cx), given.clone()) }
    });
    let Some(res) = res else { return };
    // functions called through values of which nothing is known are outside of the analysis
    let mute: HashSet<Node> = h.nodes().filter(|n| matches!(h.get_optype(*n), OpType::CallIndirect(_))).filter(|n| {
        h.single_linked_output(*n, IncomingPort::from(0)).and_then(|(s, q)| res.read_out_wire(Wire::new(s, q))).is_none_or(|v| !matches!(v, PV::LoadedFunction(_) | PV::Bottom))
    }).collect();
    let inside: HashSet<Node> = h.entry_descendants().collect();
    let polyf: HashSet<Node> = h.children(h.module_root()).filter(|f| h.get_optype(*f).as_func_defn().is_some_and(|d| !d.signature().params().is_empty())).collect();
    let dump = |what: &str| { if o_verbose() { eprintln!("{what}\n{}", outline(&h)); for n in inside.iter() { for (q, _) in h.out_value_types(*n) { if let Some(v) = res.read_out_wire(Wire::new(*n, q)) { eprintln!("  {n}:{q} = {v:?}"); } } } } };
    for (w, v) in &extra {
        let mut j = res.read_out_wire(*w).unwrap_or(PV::Bottom);
        if j.join_mut(v.clone()) { o.bad(format!("{key}|given value lost"), format!("the value {v:?} given for {w:?} is not in the result")); return; }
    }
    let mut known = 0u64;
    for (f, args) in runs {
        let mut c = Ctx::new(20000);
        c.record = Some(Default::default());
        c.entered = Some(Default::default());
        c.mute = mute.clone();
        let end = run_func(&pr, f, &[], args, &mut c);
        o.n(match &end { Ok(_) => "executions that return", Err(crate::interp::Stop::Panic(_)) => "executions that panic", Err(crate::interp::Stop::Fuel) => "executions cut off", Err(_) => "executions not supported" });
        if let Err(crate::interp::Stop::Broken(m)) = &end { if o.verbose { eprintln!("broken: {m}"); } o.n("broken"); return; }
        // a run that was stopped inside of a muted call has no record
        let (Some(rec), Some(ent)) = (c.record, c.entered) else { continue };
        let mut bad = None;
        for ((n, q), vs) in &rec {
            if !inside.contains(n) || *n == ep && !at_module && ep == h.module_root() { continue; }
            let w = Wire::new(*n, OutgoingPort::from(*q));
            let Some(a) = res.read_out_wire(w) else { bad = Some(("no result", *n, format!("no result for {w:?}, which carries {:?}", vs[0]))); continue };
            match &a { PV::Top => o.n("wires: top"), PV::Bottom => {} PV::Value(_) => { known += 1; o.n("wires: values") } PV::PartialSum(_) => { known += 1; o.n("wires: sums") } PV::LoadedFunction(_) => { known += 1; o.n("wires: functions") } }
            for v in vs { o.n("values compared"); if !covered(&a, v, &pr) { bad = Some(("value", *n, format!("{w:?} carries {v:?}, but the analysis gives {a:?}"))); break; } }
            if let Ok(Got(g)) = res.try_read_wire_concrete::<Got>(w) {
                o.n("concrete values read");
                for v in vs { if !covered(&abs(&g, Some(&pr)), v, &pr) { bad = Some(("concrete", *n, format!("{w:?} carries {v:?}, but the value read is {g:?}"))); } }
            }
        }
        for n in ent.iter().filter(|n| inside.contains(n) && **n != ep) {
            match h.get_optype(*n) {
                OpType::Case(_) => { o.n("cases entered"); if res.case_reachable(*n) != Some(true) { bad = Some(("case_reachable", *n, format!("case {n} is executed, but case_reachable is {:?}", res.case_reachable(*n)))); } }
                OpType::DataflowBlock(_) | OpType::ExitBlock(_) => { o.n("blocks entered"); if res.bb_reachable(*n) != Some(true) { bad = Some(("bb_reachable", *n, format!("block {n} is executed, but bb_reachable is {:?}", res.bb_reachable(*n)))); } }
                _ => {}
            }
        }
        for (n, tag) in c.loops.iter().filter(|(n, _)| inside.contains(n) && ent.contains(n)) {
            let t = res.tail_loop_terminates(*n);
            o.n(if *tag == 0 { "loops that continue" } else { "loops that break" });
            if matches!((tag, t), (_, None) | (0, Some(TailLoopTermination::NeverContinues)) | (1, Some(TailLoopTermination::NeverBreaks))) { bad = Some(("tail_loop_terminates", *n, format!("loop {n} takes tag {tag}, but tail_loop_terminates is {t:?}"))); }
        }
        if let Some((k, n, msg)) = bad {
            dump("PROGRAM");
            let what = crate::props::c09::optype_name(h.get_optype(n));
            let mut a = n; while let Some(x) = h.get_parent(a) { if x == h.module_root() { break } a = x; }
            o.bad(format!("{key}|{k}|{what}{}", if polyf.contains(&a) { " in a polymorphic function" } else { "" }), msg);
            return;
        }
    }
    // what is said about code that was not reached must be consistent too
    for n in h.entry_descendants() {
        let op = h.get_optype(n);
        if n != ep && op.is_case() != res.case_reachable(n).is_some() { o.bad(format!("{key}|case_reachable kind"), format!("{n} {}", describe(op))); return; }
        if n != ep && (op.is_dataflow_block() || op.is_exit_block()) != res.bb_reachable(n).is_some() { o.bad(format!("{key}|bb_reachable kind"), format!("{n} {}", describe(op))); return; }
        if op.is_tail_loop() != quiet_catch(|| res.tail_loop_terminates(n)).is_ok_and(|x| x.is_some()) { o.bad(format!("{key}|tail_loop_terminates kind"), format!("{n} {}", describe(op))); return; }
        if op.is_case() && n != ep && res.case_reachable(n) == Some(false) { o.n("cases ruled out"); }
        if op.is_dataflow_block() && n != ep && res.bb_reachable(n) == Some(false) { o.n("blocks ruled out"); }
        if op.is_tail_loop() { match res.tail_loop_terminates(n) { Some(TailLoopTermination::NeverContinues) => o.n("loops said not to iterate"), Some(TailLoopTermination::NeverBreaks) => o.n("loops said not to end"), _ => {} } }
    }
    if known > 0 { o.saws(&outline(&h)); }
    o.note(|| format!("{key}: program of {} nodes, {known} executed wires with known values", h.num_nodes()));
}
fn o_verbose() -> bool { std::env::var("HV_DUMP").is_ok() }
struct CxRef<'a>(&'a mut Cx);
fn cx_of(c: &mut Cx) -> CxRef<'_> { CxRef(c) }
impl ConstLoader<Dom> for &mut CxRef<'_> {
    type Node = Node;
    fn value_from_opaque(&self, l: ConstLocation<Node>, v: &OpaqueValue) -> Option<Dom> { self.0.value_from_opaque(l, v) }
}
impl DFContext<Dom> for &mut CxRef<'_> {
    fn interpret_leaf_op(&mut self, n: Node, e: &ExtensionOp, ins: &[PV], outs: &mut [PV]) { self.0.interpret_leaf_op(n, e, ins, outs) }
}

// ---- lattice laws ----
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Flat(usize);
impl AbstractValue for Flat {}
#[derive(Clone, Debug)]
enum Shape { Leaf, Ptr, Sum(Vec<Vec<Shape>>) }
fn shape(r: &mut Rng, d: usize) -> Shape {
    match r.below(if d == 0 { 2 } else { 6 }) { 0 => Shape::Leaf, 1 => Shape::Ptr, _ => Shape::Sum((0..r.range(1, 4)).map(|_| (0..r.below(3)).map(|_| shape(r, d - 1)).collect()).collect()) }
}
fn value<A: AbstractValue>(r: &mut Rng, s: &Shape, leaf: &dyn Fn(&mut Rng) -> A) -> PartialValue<A, Node> {
    match r.below(10) { 0 => return PartialValue::Top, 1 => return PartialValue::Bottom, _ => {} }
    match s {
        Shape::Leaf => PartialValue::Value(leaf(r)),
        Shape::Ptr => PartialValue::new_load(Node::from(portgraph::NodeIndex::new(r.below(3))), vec![]),
        Shape::Sum(rows) => {
            let mut tags: Vec<usize> = (0..rows.len()).collect();
            r.shuffle(&mut tags);
            let k = r.range(1, tags.len());
            let mut ps: Option<PartialSum<A, Node>> = None;
            for t in tags.into_iter().take(k) {
                let v = PartialSum::new_variant(t, rows[t].iter().map(|x| value(r, x, leaf)).collect::<Vec<_>>());
                match &mut ps { None => ps = Some(v), Some(p) => { p.try_join_mut(v).unwrap(); } }
            }
            PartialValue::PartialSum(ps.unwrap())
        }
    }
}
fn hash<T: Hash>(x: &T) -> u64 { let mut h = DefaultHasher::new(); x.hash(&mut h); h.finish() }
/// Rebuilds a value, so that nothing depends on the history of its tables.
fn rebuilt<A: AbstractValue>(p: &PartialValue<A, Node>) -> PartialValue<A, Node> {
    match p {
        PartialValue::PartialSum(s) => {
            let mut ks: Vec<_> = s.0.iter().collect();
            ks.sort_by_key(|x| std::cmp::Reverse(*x.0));
            PartialValue::PartialSum(PartialSum(ks.into_iter().map(|(k, row)| (*k, row.iter().map(rebuilt).collect())).collect()))
        }
        p => p.clone(),
    }
}
/// The order of the lattice, worked out independently.
fn below<A: AbstractValue>(a: &PartialValue<A, Node>, b: &PartialValue<A, Node>, leq: &dyn Fn(&A, &A) -> bool) -> bool {
    use PartialValue::*;
    match (a, b) {
        (Bottom, _) | (_, Top) => true,
        (Value(x), Value(y)) => leq(x, y),
        (LoadedFunction(x), LoadedFunction(y)) => x.func_node == y.func_node,
        (PartialSum(x), PartialSum(y)) => x.0.iter().all(|(k, row)| y.0.get(k).is_some_and(|r2| r2.len() == row.len() && row.iter().zip(r2).all(|(p, q)| below(p, q, leq)))),
        _ => false,
    }
}
fn bot<A: AbstractValue>(a: &PartialValue<A, Node>) -> bool {
    match a { PartialValue::Bottom => true, PartialValue::PartialSum(s) => s.0.values().all(|r| r.iter().any(bot)), _ => false }
}
fn laws<A: AbstractValue>(o: &mut Obs, r: &mut Rng, name: &str, leaf: &dyn Fn(&mut Rng) -> A, leq: &dyn Fn(&A, &A) -> bool, flat: bool) {
    let bad = std::cell::RefCell::new(None);
    laws_(o, r, name, leaf, leq, flat, &bad);
    if let Some((k, m)) = bad.into_inner() { o.bad(k, m); }
}
fn laws_<A: AbstractValue>(o: &mut Obs, r: &mut Rng, name: &str, leaf: &dyn Fn(&mut Rng) -> A, leq: &dyn Fn(&A, &A) -> bool, flat: bool, bad: &std::cell::RefCell<Option<(String, String)>>) {
    let d = r.below(4);
    let s = shape(r, d);
    let v: Vec<PartialValue<A, Node>> = (0..3).map(|_| value(r, &s, leaf)).collect();
    let (a, b, c) = (v[0].clone(), v[1].clone(), v[2].clone());
    let join = |x: &PartialValue<A, Node>, y: &PartialValue<A, Node>| { let mut z = x.clone(); let ch = z.join_mut(y.clone()); (z, ch) };
    let meet = |x: &PartialValue<A, Node>, y: &PartialValue<A, Node>| { let mut z = x.clone(); let ch = z.meet_mut(y.clone()); (z, ch) };
    let fail = |law: &str, msg: String| *bad.borrow_mut() = Some((format!("lattice {name}|{law}"), format!("{law}: {msg}; a = {a:?}, b = {b:?}, c = {c:?}")));
    let (j, jc) = join(&a, &b);
    let (m, mc) = meet(&a, &b);
    if jc != (j != a) { return fail("changed flag of join", format!("{jc}, but the join is {j:?}")); }
    if mc != (m != a) { return fail("changed flag of meet", format!("{mc}, but the meet is {m:?}")); }
    if join(&b, &a).0 != j { return fail("join commutes", format!("{j:?} and {:?}", join(&b, &a).0)); }
    if meet(&b, &a).0 != m { return fail("meet commutes", format!("{m:?} and {:?}", meet(&b, &a).0)); }
    if join(&a, &a) != (a.clone(), false) { return fail("join is idempotent", format!("{:?}", join(&a, &a))); }
    if meet(&a, &a) != (a.clone(), false) { return fail("meet is idempotent", format!("{:?}", meet(&a, &a))); }
    let (l, q) = (join(&j, &c).0, join(&a, &join(&b, &c).0).0);
    if l != q { return fail("join is associative", format!("{l:?} and {q:?}")); }
    let (l, q) = (meet(&m, &c).0, meet(&a, &meet(&b, &c).0).0);
    if l != q { return fail("meet is associative", format!("{l:?} and {q:?}")); }
    if meet(&a, &j).0 != a { return fail("absorption", format!("a meet (a join b) = {:?}", meet(&a, &j).0)); }
    if join(&a, &m).0 != a { return fail("absorption", format!("a join (a meet b) = {:?}", join(&a, &m).0)); }
    if !below(&a, &j, leq) || !below(&b, &j, leq) { return fail("join is an upper bound", format!("{j:?}")); }
    if !below(&m, &a, leq) || !below(&m, &b, leq) { return fail("meet is a lower bound", format!("{m:?}")); }
    if below(&a, &c, leq) && below(&b, &c, leq) && !below(&j, &c, leq) { return fail("join is the least upper bound", format!("{j:?}")); }
    if below(&c, &a, leq) && below(&c, &b, leq) && !below(&c, &m, leq) { return fail("meet is the greatest lower bound", format!("{m:?}")); }
    let top = PartialValue::<A, Node>::top();
    let bottom = PartialValue::<A, Node>::bottom();
    if join(&a, &top).0 != top || meet(&a, &top) != (a.clone(), false) || join(&a, &bottom) != (a.clone(), false) || meet(&a, &bottom).0 != bottom { return fail("top and bottom", String::new()); }
    for x in [&a, &b, &j, &m] {
        let y = rebuilt(x);
        if *x != y || hash(x) != hash(&y) { return fail("equal values have equal hashes", format!("{x:?} and {y:?}: {} {}", hash(x), hash(&y))); }
        if x.contains_bottom() != bot(x) { return fail("contains_bottom", format!("{x:?}: {}", x.contains_bottom())); }
        for t in 0..5 {
            let want = match x { PartialValue::Top => true, PartialValue::PartialSum(s) => s.0.contains_key(&t), _ => false };
            if x.supports_tag(t) != want { return fail("supports_tag", format!("{x:?}: tag {t}: {}", x.supports_tag(t))); }
            let len = match &s { Shape::Sum(rows) if t < rows.len() => rows[t].len(), _ => continue };
            let vs = x.variant_values(t, len);
            let want = match x { PartialValue::Top => Some(vec![PartialValue::Top; len]), PartialValue::PartialSum(s) => s.0.get(&t).cloned(), _ => None };
            if vs != want { return fail("variant_values", format!("{x:?}: tag {t}: {vs:?}")); }
        }
    }
    // the order that is offered agrees with the operations
    for (x, y) in [(&a, &b), (&a, &j), (&m, &a), (&b, &c), (&m, &j), (&rebuilt(&a), &a)] {
        let got = x.partial_cmp(y);
        if got.map(|g| g.reverse()) != y.partial_cmp(x) { return fail("the order is antisymmetric", format!("{x:?} and {y:?}: {got:?} and {:?}", y.partial_cmp(x))); }
        if rebuilt(x).partial_cmp(&rebuilt(y)) != got { return fail("the order depends on the values only", format!("{x:?} and {y:?}")); }
        if !flat { continue; }
        let want = match (below(x, y, leq), below(y, x, leq)) { (true, true) => Some(std::cmp::Ordering::Equal), (true, false) => Some(std::cmp::Ordering::Less), (false, true) => Some(std::cmp::Ordering::Greater), _ => None };
        if got != want { return fail("the order agrees with join and meet", format!("{x:?} and {y:?}: {got:?}, expected {want:?}")); }
    }
    o.n(if flat { "law instances (flat)" } else { "law instances (sets)" });
    if let (PartialValue::PartialSum(x), PartialValue::PartialSum(y)) = (&a, &b) {
        let (mut p, mut q) = (x.clone(), x.clone());
        if p.try_join_mut(y.clone()) != Ok(jc) || PartialValue::PartialSum(p) != j { return fail("PartialSum::try_join_mut", String::new()); }
        match q.try_meet_mut(y.clone()) { Ok(ch) if ch == mc && PartialValue::PartialSum(q.clone()) == m => {} Err(None) if m == bottom && q == *x => {} z => return fail("PartialSum::try_meet_mut", format!("{z:?}")) }
        // sums of different types do not mix
        let t = r.below(3);
        let mut z = x.clone();
        let row = z.0.get(&t).map(|v| v.len());
        if let Some(len) = row {
            let other = PartialSum::new_variant(t, vec![PartialValue::Top; len + 1]);
            if z.try_join_mut(other.clone()) != Err(t) || z != *x || z.try_meet_mut(other) != Err(Some(t)) || z != *x { return fail("rows of different lengths are refused", format!("{z:?}")); }
            o.n("mixed rows refused");
        }
    }
    o.saw(hash(&format!("{j:?} {m:?}")));
}

pub fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 22);
    let _ = r.u64();
    for _ in 0..6 {
        laws::<Flat>(o, &mut r, "flat", &|r| Flat(r.below(3)), &|a, b| a == b, true);
        laws::<Dom>(o, &mut r, "sets", &|r| { let mut d = Dom::of(V::Usize(r.below(4) as u64)); for _ in 0..r.below(3) { if let Some((x, _)) = d.clone().try_join(Dom::of(V::Usize(r.below(4) as u64))) { d = x; } } d }, &|a, b| a.0.iter().all(|x| b.0.iter().any(|y| x.0 == y.0)), false);
    }
    soundness(o, &mut r, seed, idx);
}
pub fn prop() -> Prop {
    Prop { id: "C22", case, rule: "an analysed and executed program in which the value of some executed wire is known, or a distinct pair of joined and met lattice values", need: &["values compared", "wires: values", "wires: sums", "wires: functions", "concrete values read", "cases entered", "cases ruled out", "blocks entered", "blocks ruled out", "loops that continue", "loops that break", "loops said not to iterate", "wires given a value", "law instances (flat)", "law instances (sets)", "mixed rows refused"], quick_s: 25, thorough_s: 400, min_cases: 1500, max_cases: 6000 }
}
