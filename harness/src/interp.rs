//! Reference interpreter: gives the meaning of an executable HUGR, written from
//! the specification, independent of the compiler passes under test.
use crate::rng::mix;
use crate::val::*;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::constant::Value;
use hugr_core::ops::{ExtensionOp, OpType};
use hugr_core::std_extensions::arithmetic::{float_types::ConstF64, int_types::ConstInt};
use hugr_core::std_extensions::collections::{array::ArrayValue, borrow_array::BArrayValue, list::ListValue, static_array::StaticArrayValue, value_array::VArrayValue};
use hugr_core::extension::prelude::{ConstError, ConstExternalSymbol, ConstString, ConstUsize};
use hugr_core::types::type_param::{Term, TypeArg};
use hugr_core::types::EdgeKind;
use hugr_core::{Direction, Hugr, Node, OutgoingPort, IncomingPort, PortIndex};
use std::cell::RefCell;
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub struct Bits(Vec<u64>);
impl Bits {
    pub fn set(&mut self, i: usize) { let w = i / 64; if self.0.len() <= w { self.0.resize(w + 1, 0); } self.0[w] |= 1 << (i % 64); }
    pub fn has(&self, i: usize) -> bool { self.0.get(i / 64).is_some_and(|w| w >> (i % 64) & 1 == 1) }
    pub fn or(&mut self, o: &Bits) { if self.0.len() < o.0.len() { self.0.resize(o.0.len(), 0); } for (a, b) in self.0.iter_mut().zip(&o.0) { *a |= b; } }
}

#[derive(Clone, Debug)]
pub struct Event { pub key: String, pub weak: Bits, pub strong: Bits }
/// `strong`: predecessors through order edges only (what must be preserved).
/// `weak`: predecessors through any path (what a transformed program may use).
#[derive(Clone, Default, Debug)]
pub struct Hb { pub weak: Bits, pub strong: Bits }
impl Hb { fn or(&mut self, o: &Hb) { self.weak.or(&o.weak); self.strong.or(&o.strong); } }

#[derive(Clone, Debug)]
pub enum Stop { Panic(String), Fuel, Unsupported(String), Broken(String) }
pub type R<T> = Result<T, Stop>;

pub struct Prog {
    pub hugr: Rc<Hugr>,
    topo: RefCell<HashMap<Node, Rc<Vec<Node>>>>,
}
impl Prog {
    pub fn new(h: Hugr) -> Rc<Prog> { Rc::new(Prog { hugr: Rc::new(h), topo: Default::default() }) }
    /// Topological order of dataflow siblings, using every edge (value, order, static) and
    /// lifting edges from/to descendants to the sibling level.
    fn order(&self, parent: Node) -> R<Rc<Vec<Node>>> {
        if let Some(o) = self.topo.borrow().get(&parent) { return Ok(o.clone()); }
        let h = &*self.hugr;
        let kids: Vec<Node> = h.children(parent).collect();
        let idx: HashMap<Node, usize> = kids.iter().enumerate().map(|(i, n)| (*n, i)).collect();
        let mut indeg = vec![0usize; kids.len()];
        let mut succ: Vec<Vec<usize>> = vec![vec![]; kids.len()];
        for (i, k) in kids.iter().enumerate() {
            let mut ss = std::collections::BTreeSet::new();
            for p in h.node_outputs(*k) {
                for (t, _) in h.linked_inputs(*k, p) {
                    let mut a = Some(t);
                    while let Some(x) = a {
                        if let Some(j) = idx.get(&x) { if *j != i { ss.insert(*j); } break; }
                        a = h.get_parent(x);
                    }
                }
            }
            for j in ss { succ[i].push(j); indeg[j] += 1; }
        }
        let mut ready: std::collections::BTreeSet<usize> = (0..kids.len()).filter(|i| indeg[*i] == 0).collect();
        let mut out = vec![];
        while let Some(i) = ready.pop_first() {
            out.push(kids[i]);
            for j in &succ[i] { indeg[*j] -= 1; if indeg[*j] == 0 { ready.insert(*j); } }
        }
        if out.len() != kids.len() { return Err(Stop::Broken(format!("cycle in {parent}"))); }
        let o = Rc::new(out);
        self.topo.borrow_mut().insert(parent, o.clone());
        Ok(o)
    }
}

pub struct Ctx { pub fuel: usize, pub events: Vec<Event>, pub steps: usize, pub depth: usize, pub record: Option<HashMap<(Node, usize), Vec<V>>>, pub entered: Option<std::collections::HashSet<Node>>, pub loops: std::collections::HashSet<(Node, usize)>, pub mute: std::collections::HashSet<Node>, pub home: Option<usize>, pub tokens_live: i64 }
impl Ctx { pub fn new(fuel: usize) -> Ctx { Ctx { fuel, events: vec![], steps: 0, depth: 0, record: None, entered: None, loops: Default::default(), mute: Default::default(), home: None, tokens_live: 0 } } }

pub type Env = HashMap<(Node, usize), V>;
pub struct Act { env: Env, hb: HashMap<Node, Hb>, targs: Vec<TypeArg> }

pub fn subst(t: &Term, targs: &[TypeArg]) -> Term {
    match t {
        Term::Variable(v) => targs.get(v.index()).cloned().unwrap_or_else(|| t.clone()),
        Term::List(l) => Term::List(l.iter().map(|x| subst(x, targs)).collect()),
        Term::Tuple(l) => Term::Tuple(l.iter().map(|x| subst(x, targs)).collect()),
        Term::Runtime(ty) => match ty.as_type_enum() {
            hugr_core::types::TypeEnum::Variable(i, _) => targs.get(*i).cloned().unwrap_or_else(|| t.clone()),
            _ => t.clone(),
        },
        _ => t.clone(),
    }
}

pub fn const_val(p: &Rc<Prog>, v: &Value) -> R<V> {
    Ok(match v {
        Value::Sum(s) => V::Sum(s.tag, s.values.iter().map(|x| const_val(p, x)).collect::<R<Vec<_>>>()?),
        Value::Function { hugr } => { let pr = Prog::new((**hugr).clone()); let n = pr.hugr.entrypoint(); V::Func(FuncV { prog: pr, node: n, targs: vec![] }) }
        Value::Extension { .. } => {
            if let Some(c) = v.get_custom_value::<ConstInt>() { V::int(c.log_width(), c.value_u()) }
            else if let Some(c) = v.get_custom_value::<ConstF64>() { V::f(c.value()) }
            else if let Some(c) = v.get_custom_value::<ConstUsize>() { V::Usize(c.value()) }
            else if let Some(c) = v.get_custom_value::<ConstString>() { V::Str(c.value().to_string()) }
            else if let Some(c) = v.get_custom_value::<ConstError>() { V::Err(c.signal, c.message.clone()) }
            else if let Some(c) = v.get_custom_value::<ConstExternalSymbol>() { V::Opaque(c.symbol.clone()) }
            else if let Some(c) = v.get_custom_value::<ListValue>() { V::List(c.get_contents().iter().map(|x| const_val(p, x)).collect::<R<Vec<_>>>()?) }
            else if let Some(c) = v.get_custom_value::<ArrayValue>() { V::Arr(c.get_contents().iter().map(|x| const_val(p, x).map(Some)).collect::<R<Vec<_>>>()?) }
            else if let Some(c) = v.get_custom_value::<VArrayValue>() { V::Arr(c.get_contents().iter().map(|x| const_val(p, x).map(Some)).collect::<R<Vec<_>>>()?) }
            else if let Some(c) = v.get_custom_value::<BArrayValue>() { V::Arr(c.get_contents().iter().map(|x| const_val(p, x).map(Some)).collect::<R<Vec<_>>>()?) }
            else if let Some(c) = v.get_custom_value::<StaticArrayValue>() { V::List(c.get_contents().iter().map(|x| const_val(p, x)).collect::<R<Vec<_>>>()?) }
            else if let Some(c) = v.get_custom_value::<hugr_core::ops::constant::CustomSerialized>().filter(|c| format!("{:?}", v.get_type()).contains("verif.rt") && c.value().get("v").is_some()) { let w: Value = serde_json::from_value(c.value().clone()).map_err(|e| Stop::Broken(format!("constant: {e}")))?; const_val(p, &w)? }
            else { V::Opaque(format!("{v:?}")) }
        }
    })
}

/// Run a function definition node (or declaration) on arguments.
pub fn run_func(p: &Rc<Prog>, node: Node, targs: &[TypeArg], args: Vec<V>, cx: &mut Ctx) -> R<Vec<V>> {
    call(p, node, targs, args, &Hb::default(), cx).map(|x| x.0)
}
/// Run any dataflow container node on arguments (no enclosing environment).
pub fn run_node(p: &Rc<Prog>, node: Node, args: Vec<V>, cx: &mut Ctx) -> R<Vec<V>> {
    let mut act = Act { env: HashMap::new(), hb: HashMap::new(), targs: vec![] };
    match p.hugr.get_optype(node) {
        OpType::FuncDefn(_) => run_func(p, node, &[], args, cx),
        _ => exec_node(p, node, args, &Hb::default(), &mut act, cx).map(|x| x.0),
    }
}

fn call(p: &Rc<Prog>, node: Node, targs: &[TypeArg], args: Vec<V>, hb: &Hb, cx: &mut Ctx) -> R<(Vec<V>, Hb)> {
    // what happens in another program is not recorded
    let home = *cx.home.get_or_insert(Rc::as_ptr(p) as usize);
    if home == Rc::as_ptr(p) as usize || cx.record.is_none() { return call_(p, node, targs, args, hb, cx); }
    let (a, b) = (cx.record.take(), cx.entered.take());
    let r = call_(p, node, targs, args, hb, cx);
    (cx.record, cx.entered) = (a, b);
    r
}
fn call_(p: &Rc<Prog>, node: Node, targs: &[TypeArg], args: Vec<V>, hb: &Hb, cx: &mut Ctx) -> R<(Vec<V>, Hb)> {
    match p.hugr.get_optype(node) {
        OpType::FuncDefn(_) => {
            if cx.depth > 60 { return Err(Stop::Fuel); }
            cx.depth += 1;
            if let Some(e) = cx.entered.as_mut() { e.insert(node); }
            let mut act = Act { env: HashMap::new(), hb: HashMap::new(), targs: targs.to_vec() };
            let r = region(p, node, args, hb, &mut act, cx);
            cx.depth -= 1;
            r
        }
        OpType::FuncDecl(d) => {
            let sig = d.signature().body().clone();
            let h = mix(&[crate::rng::hash_str(d.func_name()), V::tuple(args.clone()).hash()]);
            let hb2 = emit(format!("decl:{}:{:?}", d.func_name(), args), hb, cx);
            let mut outs = vec![];
            for (i, t) in sig.output().iter().enumerate() {
                outs.push(default_of(&format!("{t}"), mix(&[h, i as u64])).ok_or_else(|| Stop::Unsupported(format!("decl output {t}")))?);
            }
            Ok((outs, hb2))
        }
        OpType::DFG(_) | OpType::CFG(_) | OpType::TailLoop(_) | OpType::Conditional(_) => {
            let mut act = Act { env: HashMap::new(), hb: HashMap::new(), targs: targs.to_vec() };
            exec_node(p, node, args, hb, &mut act, cx)
        }
        o => Err(Stop::Broken(format!("call of {o:?}"))),
    }
}
fn default_of(t: &str, h: u64) -> Option<V> {
    Some(match t {
        "int(5)" => V::int(5, h),
        "int(6)" => V::int(6, h),
        "Bool" | "[]+[]" => V::bool(h & 1 == 1),
        _ => return None,
    })
}

fn emit(key: String, hb: &Hb, cx: &mut Ctx) -> Hb {
    let i = cx.events.len();
    cx.events.push(Event { key, weak: hb.weak.clone(), strong: hb.strong.clone() });
    let mut o = hb.clone();
    o.weak.set(i); o.strong.set(i);
    o
}

fn region(p: &Rc<Prog>, parent: Node, args: Vec<V>, hb_in: &Hb, act: &mut Act, cx: &mut Ctx) -> R<(Vec<V>, Hb)> {
    let h = p.hugr.clone();
    let order = p.order(parent)?;
    let mut total = hb_in.clone();
    let mut result: Option<Vec<V>> = None;
    let Some(inp) = h.children(parent).next() else { return Err(Stop::Broken(format!("empty region {parent}"))); };
    for n in order.iter().copied() {
        let op = h.get_optype(n);
        // happens-before inputs
        let mut hb = hb_in.clone();
        for port in h.node_inputs(n) {
            match op.port_kind(port) {
                Some(EdgeKind::StateOrder) => for (s, _) in h.linked_outputs(n, port) { if let Some(x) = act.hb.get(&s) { hb.or(x); } },
                Some(EdgeKind::Value(_)) => for (s, _) in h.linked_outputs(n, port) { if let Some(x) = act.hb.get(&s) { hb.weak.or(&x.weak); } },
                _ => {}
            }
        }
        if n == inp {
            if op.value_output_count() != args.len() { return Err(Stop::Broken(format!("arity at {parent}: {} vs {}", op.value_output_count(), args.len()))); }
            for (i, v) in args.iter().enumerate() { put(act, n, i, v.clone(), cx); }
            act.hb.insert(n, hb_in.clone());
            continue;
        }
        let ins = match op {
            OpType::Const(_) | OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) => continue,
            _ => gather(&h, n, op, act)?,
        };
        if let OpType::Output(_) = op { result = Some(ins); act.hb.insert(n, hb); continue; }
        let (outs, hb_out) = exec_node(p, n, ins, &hb, act, cx)?;
        for (i, v) in outs.into_iter().enumerate() { put(act, n, i, v, cx); }
        total.or(&hb_out);
        act.hb.insert(n, hb_out);
    }
    let r = result.ok_or_else(|| Stop::Broken(format!("no output in {parent}")))?;
    Ok((r, total))
}
fn put(act: &mut Act, n: Node, i: usize, v: V, cx: &mut Ctx) {
    if let Some(r) = cx.record.as_mut() { let e = r.entry((n, i)).or_default(); if e.len() < 16 { e.push(v.clone()); } }
    act.env.insert((n, i), v);
}
fn gather(h: &Hugr, n: Node, op: &OpType, act: &Act) -> R<Vec<V>> {
    let mut ins = vec![];
    for i in 0..op.value_input_count() {
        let (s, sp) = h.single_linked_output(n, IncomingPort::from(i)).ok_or_else(|| Stop::Broken(format!("unconnected input {n}:{i}")))?;
        ins.push(act.env.get(&(s, sp.index())).cloned().ok_or_else(|| Stop::Broken(format!("no value for {s}:{sp} used at {n}:{i}")))?);
    }
    Ok(ins)
}

fn exec_node(p: &Rc<Prog>, n: Node, mut ins: Vec<V>, hb: &Hb, act: &mut Act, cx: &mut Ctx) -> R<(Vec<V>, Hb)> {
    cx.steps += 1;
    if cx.fuel == 0 { return Err(Stop::Fuel); }
    cx.fuel -= 1;
    let h = p.hugr.clone();
    if let Some(e) = cx.entered.as_mut() { e.insert(n); }
    let op = h.get_optype(n);
    match op {
        OpType::DFG(_) | OpType::Case(_) => region(p, n, ins, hb, act, cx),
        OpType::Conditional(_) => {
            let rest = ins.split_off(1);
            let V::Sum(tag, vs) = ins.pop().unwrap() else { return Err(Stop::Broken(format!("conditional on non-sum at {n}"))); };
            let case = h.children(n).nth(tag).ok_or_else(|| Stop::Broken(format!("no case {tag} at {n}")))?;
            let mut a = vs; a.extend(rest);
            if let Some(e) = cx.entered.as_mut() { e.insert(case); }
            region(p, case, a, hb, act, cx)
        }
        OpType::TailLoop(tl) => {
            let njust = tl.just_inputs.len();
            let mut cur = ins;
            let mut hbc = hb.clone();
            loop {
                if cx.fuel == 0 { return Err(Stop::Fuel); }
                cx.fuel -= 1;
                let (mut outs, hb2) = region(p, n, cur, &hbc, act, cx)?;
                hbc = hb2;
                let rest = outs.split_off(1);
                let V::Sum(tag, vs) = outs.pop().unwrap() else { return Err(Stop::Broken("loop control".into())); };
                let mut a = vs; let k = a.len(); a.extend(rest);
                if cx.entered.is_some() { cx.loops.insert((n, tag)); }
                if tag == 0 { if k != njust { return Err(Stop::Broken("loop arity".into())); } cur = a; } else { return Ok((a, hbc)); }
            }
        }
        OpType::CFG(_) => {
            let mut blk = h.children(n).next().ok_or_else(|| Stop::Broken("empty cfg".into()))?;
            let mut cur = ins;
            let mut hbc = hb.clone();
            loop {
                if cx.fuel == 0 { return Err(Stop::Fuel); }
                cx.fuel -= 1;
                match h.get_optype(blk) {
                    OpType::ExitBlock(_) => { if let Some(e) = cx.entered.as_mut() { e.insert(blk); } return Ok((cur, hbc)) }
                    OpType::DataflowBlock(_) => {
                        if let Some(e) = cx.entered.as_mut() { e.insert(blk); }
                        let (mut outs, hb2) = region(p, blk, cur, &hbc, act, cx)?;
                        hbc = hb2;
                        let rest = outs.split_off(1);
                        let V::Sum(tag, vs) = outs.pop().unwrap() else { return Err(Stop::Broken("block predicate".into())); };
                        let (nx, _) = h.single_linked_input(blk, OutgoingPort::from(tag)).ok_or_else(|| Stop::Broken(format!("block {blk} no successor {tag}")))?;
                        let mut a = vs; a.extend(rest);
                        cur = a; blk = nx;
                    }
                    o => return Err(Stop::Broken(format!("cfg child {o:?}"))),
                }
            }
        }
        OpType::Call(c) => {
            let port = c.called_function_port();
            let (f, _) = h.single_linked_output(n, port).ok_or_else(|| Stop::Broken(format!("call {n} unconnected")))?;
            let ta: Vec<TypeArg> = c.type_args.iter().map(|t| subst(t, &act.targs)).collect();
            call(p, f, &ta, ins, hb, cx)
        }
        OpType::CallIndirect(_) => {
            let rest = ins.split_off(1);
            let V::Func(f) = ins.pop().unwrap() else { return Err(Stop::Broken("callindirect".into())); };
            // what happens in another program, or in an unknown function, is not recorded
            let quiet = cx.mute.contains(&n).then(|| (cx.record.take(), cx.entered.take()));
            let r = call(&f.prog, f.node, &f.targs, rest, hb, cx);
            if let Some((a, b)) = quiet { cx.record = a; cx.entered = b; }
            r
        }
        OpType::LoadFunction(l) => {
            let (f, _) = h.single_linked_output(n, l.function_port()).ok_or_else(|| Stop::Broken("loadfunction unconnected".into()))?;
            let ta: Vec<TypeArg> = l.type_args.iter().map(|t| subst(t, &act.targs)).collect();
            Ok((vec![V::Func(FuncV { prog: p.clone(), node: f, targs: ta })], hb.clone()))
        }
        OpType::LoadConstant(l) => {
            let (c, _) = h.single_linked_output(n, l.constant_port()).ok_or_else(|| Stop::Broken("loadconst unconnected".into()))?;
            let OpType::Const(c) = h.get_optype(c) else { return Err(Stop::Broken("loadconst of non-const".into())); };
            Ok((vec![const_val(p, c.value())?], hb.clone()))
        }
        OpType::Tag(t) => Ok((vec![V::Sum(t.tag, ins)], hb.clone())),
        OpType::ExtensionOp(e) => ext_op(e, ins, hb, act, cx),
        OpType::OpaqueOp(o) => Err(Stop::Unsupported(format!("opaque {}", o.qualified_id()))),
        o => Err(Stop::Broken(format!("exec of {o:?}"))),
    }
}

fn err(s: u32, m: &str) -> V { V::Err(s, m.to_string()) }
fn wargs(args: &[TypeArg], i: usize) -> R<u8> { match args.get(i) { Some(Term::BoundedNat(n)) => Ok(*n as u8), x => Err(Stop::Unsupported(format!("width {x:?}"))) } }

pub fn ext_op(e: &ExtensionOp, ins: Vec<V>, hb: &Hb0, act: &Act0, cx: &mut Ctx) -> R<(Vec<V>, Hb)> { ext_op_(e.extension_id(), e.unqualified_id(), &e.args().iter().map(|t| subst(t, &act.targs)).collect::<Vec<_>>(), ins, hb, cx) }
use Act as Act0;
use Hb as Hb0;

/// Pure evaluation of a standard operation on values (used directly by the folding check).
pub fn eval_op(ext: &str, name: &str, args: &[TypeArg], ins: Vec<V>) -> R<Vec<V>> {
    let mut cx = Ctx::new(100000);
    ext_op_(ext, name, args, ins, &Hb::default(), &mut cx).map(|x| x.0)
}

fn ext_op_(ext: &str, name: &str, args: &[TypeArg], ins: Vec<V>, hb: &Hb, cx: &mut Ctx) -> R<(Vec<V>, Hb)> {
    let mut hbo = hb.clone();
    let uns = || Stop::Unsupported(format!("{ext}.{name}"));
    let out: Vec<V> = match ext {
        "prelude" => match name {
            "MakeTuple" => vec![V::Sum(0, ins)],
            "UnpackTuple" => match ins.into_iter().next() { Some(V::Sum(_, v)) => v, x => return Err(Stop::Broken(format!("unpack {x:?}"))) },
            "Noop" | "Barrier" => ins,
            "load_nat" => match &args[0] { Term::BoundedNat(n) => vec![V::Usize(*n)], _ => return Err(uns()) },
            "print" => { hbo = emit(format!("print:{ins:?}"), hb, cx); vec![] }
            "panic" | "exit" => return Err(Stop::Panic(format!("{name}:{:?}", ins[0]))),
            "MakeError" => match (&ins[0], &ins[1]) { (V::Usize(s), V::Str(m)) => vec![V::Err(*s as u32, m.clone())], _ => return Err(uns()) },
            _ => return Err(uns()),
        },
        "logic" => {
            let b: Vec<bool> = ins.iter().map(|x| x.as_bool()).collect();
            vec![V::bool(match name { "And" => b[0] && b[1], "Or" => b[0] || b[1], "Eq" => b[0] == b[1], "Xor" => b[0] != b[1], "Not" => !b[0], _ => return Err(uns()) })]
        }
        "arithmetic.int" => int_op(name, args, &ins)?,
        "arithmetic.float" => float_op(name, &ins).ok_or_else(uns)?,
        "arithmetic.conversions" => conv_op(name, args, &ins)?,
        "collections.list" => list_op(name, ins).ok_or_else(uns)?,
        "collections.array" | "collections.value_array" | "collections.borrow_arr" => return array_op(ext, name, args, ins, hb, cx),
        "collections.static_array" => match (name, &ins[0]) {
            ("len", V::List(l)) => vec![V::Usize(l.len() as u64)],
            ("get", V::List(l)) => { let V::Usize(i) = ins[1] else { return Err(uns()) }; vec![match l.get(i as usize) { Some(x) if (i as usize) < l.len() => V::Sum(1, vec![x.clone()]), _ => V::Sum(0, vec![]) }] }
            _ => return Err(uns()),
        },
        "verif.fx" => {
            let id = match args.first() { Some(Term::BoundedNat(n)) => *n, _ => 0 };
            match name {
                "fx" => { hbo = emit(format!("fx{id}:{:?}", ins), hb, cx); vec![V::int(5, mix(&[id, ins[0].hash(), 1]))] }
                "mix" => vec![V::int(5, mix(&[id, ins[0].hash(), ins[1].hash(), 2]))],
                "tnew" => { cx.tokens_live += 1; vec![V::Tok(mix(&[id, 3]))] }
                "tuse" => match (&ins[0], &ins[1]) { (V::Tok(h), v) => vec![V::Tok(mix(&[*h, id, v.hash(), 4])), V::int(5, mix(&[*h, id, v.hash(), 5]))], _ => return Err(Stop::Broken("tuse".into())) },
                "tfree" => match &ins[0] { V::Tok(h) => { cx.tokens_live -= 1; hbo = emit(format!("tfree{id}:{h:x}"), hb, cx); vec![] } _ => return Err(Stop::Broken("tfree".into())) },
                "rowid" | "args" => ins,
                "box" => vec![V::Sum(0, ins)],
                "unbox" => match ins.into_iter().next() { Some(V::Sum(_, v)) => v, _ => return Err(Stop::Broken("unbox".into())) },
                _ => return Err(uns()),
            }
        }
        "verif.rt" => match name {
            "copy" => vec![ins[0].clone(), ins[0].clone()],
            "drop" => vec![],
            "do" => {
                let Term::String(s) = &args[0] else { return Err(uns()) };
                let (e, n, a): (String, String, Vec<TypeArg>) = serde_json::from_str(s).map_err(|_| uns())?;
                return ext_op_(&e, &n, &a, ins, hb, cx);
            }
            _ => return Err(uns()),
        },
        _ => return Err(uns()),
    };
    Ok((out, hbo))
}

pub fn int_op(name: &str, args: &[TypeArg], ins: &[V]) -> R<Vec<V>> {
    let uns = || Stop::Unsupported(format!("int.{name}"));
    let (w, a) = match &ins[0] { V::Int(w, a) => (*w, *a), _ => return Err(uns()) };
    let b = match ins.get(1) { Some(V::Int(_, b)) => *b, _ => 0 };
    let (sa, sb) = (signed(w, a) as i128, signed(w, b) as i128);
    let (ua, ub) = (a as u128, b as u128);
    let bits = 1u32 << w;
    let i1 = |v: u128| vec![V::int(w, v as u64)];
    let div0 = || err(0, "div0");
    // floor/euclidean-like: signed n, unsigned m>0, 0<=r<m
    let dms = || { let m = ub as i128; (sa.div_euclid(m), sa.rem_euclid(m)) };
    let pz = || Err(Stop::Panic("div0".into()));
    Ok(match name {
        "iwiden_u" => { let t = wargs(args, 1)?; vec![V::int(t, a)] }
        "iwiden_s" => { let t = wargs(args, 1)?; vec![V::int(t, sa as i64 as u64)] }
        "inarrow_u" => { let t = wargs(args, 1)?; let tb = 1u32 << t; vec![if tb < 128 && (ua >> tb) != 0 { V::Sum(0, vec![err(0, "narrow")]) } else { V::Sum(1, vec![V::int(t, a)]) }] }
        "inarrow_s" => { let t = wargs(args, 1)?; let tb = 1u32 << t; let lim = 1i128 << (tb - 1); vec![if sa >= lim || sa < -lim { V::Sum(0, vec![err(0, "narrow")]) } else { V::Sum(1, vec![V::int(t, sa as i64 as u64)]) }] }
        "ieq" => vec![V::bool(a == b)], "ine" => vec![V::bool(a != b)],
        "ilt_u" => vec![V::bool(ua < ub)], "ilt_s" => vec![V::bool(sa < sb)],
        "igt_u" => vec![V::bool(ua > ub)], "igt_s" => vec![V::bool(sa > sb)],
        "ile_u" => vec![V::bool(ua <= ub)], "ile_s" => vec![V::bool(sa <= sb)],
        "ige_u" => vec![V::bool(ua >= ub)], "ige_s" => vec![V::bool(sa >= sb)],
        "imax_u" => i1(ua.max(ub)), "imin_u" => i1(ua.min(ub)),
        "imax_s" => i1(sa.max(sb) as u128), "imin_s" => i1(sa.min(sb) as u128),
        "iadd" => i1(ua.wrapping_add(ub)), "isub" => i1(ua.wrapping_sub(ub)),
        "ineg" => i1(0u128.wrapping_sub(ua)), "imul" => i1(ua.wrapping_mul(ub)),
        "iabs" => i1(sa.unsigned_abs()),
        "iand" => i1(ua & ub), "ior" => i1(ua | ub), "ixor" => i1(ua ^ ub), "inot" => i1(!ua),
        "ishl" => i1(if ub >= bits as u128 { 0 } else { ua << ub }),
        "ishr" => i1(if ub >= bits as u128 { 0 } else { ua >> ub }),
        "irotl" => { let k = (ub % bits as u128) as u32; i1(if k == 0 { ua } else { (ua << k) | (ua >> (bits - k)) }) }
        "irotr" => { let k = (ub % bits as u128) as u32; i1(if k == 0 { ua } else { (ua >> k) | (ua << (bits - k)) }) }
        "ipow" => { let (mut r, mut base, mut e) = (1u64, a, b); while e > 0 { if e & 1 == 1 { r = r.wrapping_mul(base); } base = base.wrapping_mul(base); e >>= 1; } i1(r as u128) }
        "idivmod_u" => { if b == 0 { return pz(); } vec![V::int(w, (ua / ub) as u64), V::int(w, (ua % ub) as u64)] }
        "idiv_u" => { if b == 0 { return pz(); } i1(ua / ub) }
        "imod_u" => { if b == 0 { return pz(); } i1(ua % ub) }
        "idivmod_s" => { if b == 0 { return pz(); } let (q, r) = dms(); vec![V::int(w, q as u64), V::int(w, r as u64)] }
        "idiv_s" => { if b == 0 { return pz(); } i1(dms().0 as u128) }
        "imod_s" => { if b == 0 { return pz(); } i1(dms().1 as u128) }
        "idivmod_checked_u" => vec![if b == 0 { V::Sum(0, vec![div0()]) } else { V::Sum(1, vec![V::tuple(vec![V::int(w, (ua / ub) as u64), V::int(w, (ua % ub) as u64)])]) }],
        "idiv_checked_u" => vec![if b == 0 { V::Sum(0, vec![div0()]) } else { V::Sum(1, i1(ua / ub)) }],
        "imod_checked_u" => vec![if b == 0 { V::Sum(0, vec![div0()]) } else { V::Sum(1, i1(ua % ub)) }],
        "idivmod_checked_s" => vec![if b == 0 { V::Sum(0, vec![div0()]) } else { let (q, r) = dms(); V::Sum(1, vec![V::tuple(vec![V::int(w, q as u64), V::int(w, r as u64)])]) }],
        "idiv_checked_s" => vec![if b == 0 { V::Sum(0, vec![div0()]) } else { V::Sum(1, i1(dms().0 as u128)) }],
        "imod_checked_s" => vec![if b == 0 { V::Sum(0, vec![div0()]) } else { V::Sum(1, i1(dms().1 as u128)) }],
        // both conversions keep the value when it is representable and panic otherwise
        "iu_to_s" => { if sa < 0 { return Err(Stop::Panic("iu_to_s".into())); } i1(ua) }
        "is_to_u" => { if sa < 0 { return Err(Stop::Panic("is_to_u".into())); } i1(ua) }
        _ => return Err(uns()),
    })
}

pub fn float_op(name: &str, ins: &[V]) -> Option<Vec<V>> {
    let g = |i: usize| match ins.get(i) { Some(V::F(b)) => Some(f64::from_bits(*b)), _ => None };
    let a = g(0)?;
    let b = g(1).unwrap_or(0.0);
    Some(match name {
        "feq" => vec![V::bool(a == b)], "fne" => vec![V::bool(a != b)], "flt" => vec![V::bool(a < b)], "fgt" => vec![V::bool(a > b)], "fle" => vec![V::bool(a <= b)], "fge" => vec![V::bool(a >= b)],
        // which zero is the greater or lesser is not specified
        "fmax" | "fmin" if a == 0.0 && b == 0.0 && a.to_bits() != b.to_bits() => return None,
        "fmax" => vec![V::f(if a.is_nan() || b.is_nan() { f64::NAN } else if a > b { a } else if b > a { b } else if a.is_sign_positive() { a } else { b })],
        "fmin" => vec![V::f(if a.is_nan() || b.is_nan() { f64::NAN } else if a < b { a } else if b < a { b } else if a.is_sign_negative() { a } else { b })],
        "fadd" => vec![V::f(a + b)], "fsub" => vec![V::f(a - b)], "fmul" => vec![V::f(a * b)], "fdiv" => vec![V::f(a / b)],
        "fneg" => vec![V::f(-a)], "fabs" => vec![V::f(a.abs())], "ffloor" => vec![V::f(a.floor())], "fceil" => vec![V::f(a.ceil())],
        // nearest integer, halves away from zero
        "fround" => { let t = a.trunc(); let d = (a - t).abs(); vec![V::f(if d >= 0.5 { t + 1f64.copysign(a) } else if t == 0.0 { 0f64.copysign(a) } else { t })] }
        "fpow" => vec![V::f(a.powf(b))],
        "ftostring" => vec![V::Str(a.to_string())],
        _ => return None,
    })
}

pub fn conv_op(name: &str, args: &[TypeArg], ins: &[V]) -> R<Vec<V>> {
    let uns = || Stop::Unsupported(format!("conv.{name}"));
    Ok(match (name, &ins[0]) {
        ("trunc_u", V::F(f)) => { let t = wargs(args, 0)?; let f = f64::from_bits(*f).trunc(); let lim = 2f64.powi(1 << t); vec![if !f.is_finite() || f < 0.0 || f >= lim { V::Sum(0, vec![err(0, "trunc")]) } else { V::Sum(1, vec![V::int(t, f as u64)]) }] }
        ("trunc_s", V::F(f)) => { let t = wargs(args, 0)?; let f = f64::from_bits(*f).trunc(); let lim = 2f64.powi((1 << t) - 1); vec![if !f.is_finite() || f < -lim || f >= lim { V::Sum(0, vec![err(0, "trunc")]) } else { V::Sum(1, vec![V::int(t, f as i64 as u64)]) }] }
        ("convert_u", V::Int(_, v)) => vec![V::f(*v as f64)],
        ("convert_s", V::Int(w, v)) => vec![V::f(signed(*w, *v) as f64)],
        ("itobool", V::Int(_, v)) => vec![V::bool(*v == 1)],
        ("ifrombool", b) => vec![V::int(0, b.as_bool() as u64)],
        ("itostring_u", V::Int(_, v)) => vec![V::Str(v.to_string())],
        ("itostring_s", V::Int(w, v)) => vec![V::Str(signed(*w, *v).to_string())],
        ("itousize", V::Int(_, v)) => vec![V::Usize(*v)],
        ("ifromusize", V::Usize(v)) => vec![V::int(6, *v)],
        ("bytecast_int64_to_float64", V::Int(_, v)) => vec![V::F(*v)],
        ("bytecast_float64_to_int64", V::F(v)) => vec![V::int(6, *v)],
        _ => return Err(uns()),
    })
}

pub fn list_op(name: &str, mut ins: Vec<V>) -> Option<Vec<V>> {
    let V::List(mut l) = ins.remove(0) else { return None };
    let idx = |v: &V| match v { V::Usize(u) => Some(*u as usize), _ => None };
    let inb = |i: usize, l: &Vec<V>| i < l.len();
    Some(match name {
        "pop" => match l.pop() { Some(x) => vec![V::List(l), V::Sum(1, vec![x])], None => vec![V::List(l), V::Sum(0, vec![])] },
        "push" => { l.push(ins.remove(0)); vec![V::List(l)] }
        "get" => { let i = idx(&ins[0])?; vec![match l.get(i) { Some(x) => V::Sum(1, vec![x.clone()]), None => V::Sum(0, vec![]) }] }
        "set" => { let i = idx(&ins[0])?; let v = ins.remove(1); if inb(i, &l) { let old = std::mem::replace(&mut l[i], v); vec![V::List(l), V::Sum(1, vec![old])] } else { vec![V::List(l), V::Sum(0, vec![v])] } }
        // whether the end of the list is within bounds is not specified
        "insert" => { let i = idx(&ins[0])?; let v = ins.remove(1); if i == l.len() { return None; } if i < l.len() { l.insert(i, v); vec![V::List(l), V::Sum(1, vec![V::unit()])] } else { vec![V::List(l), V::Sum(0, vec![v])] } }
        "length" => { let n = l.len() as u64; vec![V::List(l), V::Usize(n)] }
        _ => return None,
    })
}

fn array_op(ext: &str, name: &str, args: &[TypeArg], mut ins: Vec<V>, hb: &Hb, cx: &mut Ctx) -> R<(Vec<V>, Hb)> {
    let uns = || Stop::Unsupported(format!("{ext}.{name}"));
    let mut hbo = hb.clone();
    let size = match args.first() { Some(Term::BoundedNat(n)) => *n as usize, _ => 0 };
    let us = |v: &V| match v { V::Usize(u) => Ok(*u as usize), _ => Err(Stop::Unsupported("idx".into())) };
    // anything that needs every element present panics on a borrowed one
    let full = |a: &Vec<Option<V>>| if a.iter().any(|x| x.is_none()) { Err(Stop::Panic("borrowed element".into())) } else { Ok(()) };
    let out = match name {
        "new_array" => vec![V::Arr(ins.into_iter().map(Some).collect())],
        "new_all_borrowed" => vec![V::Arr(vec![None; size])],
        "repeat" => {
            let V::Func(f) = ins.remove(0) else { return Err(uns()) };
            let mut v = vec![];
            for _ in 0..size { let (mut o, h2) = call(&f.prog, f.node, &f.targs, vec![], &hbo, cx)?; hbo = h2; v.push(Some(o.remove(0))); }
            vec![V::Arr(v)]
        }
        _ => {
            let V::Arr(mut a) = ins.remove(0) else { return Err(uns()) };
            match name {
                "unpack" => { full(&a)?; a.into_iter().map(|x| x.unwrap()).collect() }
                "get" => { let i = us(&ins[0])?; if i < a.len() { match &a[i] { Some(x) => vec![V::Sum(1, vec![x.clone()]), V::Arr(a)], None => return Err(Stop::Panic("borrowed".into())) } } else { vec![V::Sum(0, vec![]), V::Arr(a)] } }
                "set" => { let i = us(&ins[0])?; let v = ins.remove(1); if i < a.len() { match a[i].replace(v) { Some(old) => vec![V::Sum(1, vec![old, V::Arr(a)])], None => return Err(Stop::Panic("borrowed".into())) } } else { vec![V::Sum(0, vec![v, V::Arr(a)])] } }
                "swap" => { let (i, j) = (us(&ins[0])?, us(&ins[1])?); if i < a.len() && j < a.len() { if a[i].is_none() || a[j].is_none() { return Err(Stop::Panic("borrowed".into())); } a.swap(i, j); vec![V::Sum(1, vec![V::Arr(a)])] } else { vec![V::Sum(0, vec![V::Arr(a)])] } }
                "pop_left" => if a.is_empty() { vec![V::Sum(0, vec![])] } else { let x = a.remove(0).ok_or(Stop::Panic("borrowed".into()))?; vec![V::Sum(1, vec![x, V::Arr(a)])] },
                "pop_right" => if a.is_empty() { vec![V::Sum(0, vec![])] } else { let x = a.pop().unwrap().ok_or(Stop::Panic("borrowed".into()))?; vec![V::Sum(1, vec![x, V::Arr(a)])] },
                "discard_empty" | "discard" => vec![],
                "clone" => { full(&a)?; vec![V::Arr(a.clone()), V::Arr(a)] }
                "scan" => {
                    full(&a)?;
                    let V::Func(f) = ins.remove(0) else { return Err(uns()) };
                    let mut acc = ins; let mut v = vec![];
                    for x in a { let mut args = vec![x.unwrap()]; args.extend(acc); let (mut o, h2) = call(&f.prog, f.node, &f.targs, args, &hbo, cx)?; hbo = h2; v.push(Some(o.remove(0))); acc = o; }
                    let mut r = vec![V::Arr(v)]; r.extend(acc); r
                }
                n if n.starts_with("to_") || n.starts_with("from_") => { full(&a)?; vec![V::Arr(a)] }
                "borrow" => { let i = us(&ins[0])?; if i >= a.len() { return Err(Stop::Panic("oob".into())); } match a[i].take() { Some(x) => vec![V::Arr(a), x], None => return Err(Stop::Panic("borrowed".into())) } }
                "return" => { let i = us(&ins[0])?; let v = ins.remove(1); if i >= a.len() { return Err(Stop::Panic("oob".into())); } if a[i].is_some() { return Err(Stop::Panic("not borrowed".into())); } a[i] = Some(v); vec![V::Arr(a)] }
                "discard_all_borrowed" => { if a.iter().any(|x| x.is_some()) { return Err(Stop::Panic("not all borrowed".into())); } vec![] }
                "is_borrowed" => { let i = us(&ins[0])?; if i >= a.len() { return Err(Stop::Panic("oob".into())); } let b = a[i].is_none(); vec![V::Arr(a), V::bool(b)] }
                _ => return Err(uns()),
            }
        }
    };
    Ok((out, hbo))
}
#[allow(unused)] fn _d(_: Direction) {}

/// The outcome of a run in comparable form.
#[derive(Clone, Debug)]
pub struct Outcome { pub vals: Vec<V>, pub events: Vec<Event>, pub steps: usize }

/// Compare a transformed program's run against the original's.
/// Every effect must happen exactly as often with the same inputs, and required
/// orderings must be kept.
pub fn compare(orig: &Outcome, new: &Outcome) -> Result<(), String> {
    if orig.vals != new.vals { return Err(format!("outputs differ: before {:?} after {:?}", orig.vals, new.vals)); }
    compare_events(orig, new)
}
pub fn compare_events(orig: &Outcome, new: &Outcome) -> Result<(), String> {
    let mut a: Vec<&String> = orig.events.iter().map(|e| &e.key).collect();
    let mut b: Vec<&String> = new.events.iter().map(|e| &e.key).collect();
    a.sort(); b.sort();
    if a != b {
        let miss: Vec<_> = a.iter().filter(|x| a.iter().filter(|y| y == x).count() != b.iter().filter(|y| y == x).count()).take(3).collect();
        let extra: Vec<_> = b.iter().filter(|x| a.iter().filter(|y| y == x).count() != b.iter().filter(|y| y == x).count()).take(3).collect();
        return Err(format!("effects differ: before {} after {} events; e.g. before-only/count {miss:?} after {extra:?}", a.len(), b.len()));
    }
    // occurrence-indexed identity
    let index = |evs: &[Event]| { let mut seen: HashMap<String, usize> = HashMap::new(); evs.iter().map(|e| { let c = seen.entry(e.key.clone()).or_default(); *c += 1; (e.key.clone(), *c) }).collect::<Vec<_>>() };
    let (ia, ib) = (index(&orig.events), index(&new.events));
    let dup: std::collections::HashSet<&String> = ia.iter().filter(|x| x.1 > 1).map(|x| &x.0).collect();
    let pos: HashMap<&(String, usize), usize> = ib.iter().enumerate().map(|(i, k)| (k, i)).collect();
    for (i, e) in orig.events.iter().enumerate() {
        for j in 0..i {
            if e.strong.has(j) && !dup.contains(&ia[i].0) && !dup.contains(&ia[j].0) {
                let (ni, nj) = (pos[&ia[i]], pos[&ia[j]]);
                if !new.events[ni].weak.has(nj) { return Err(format!("required order lost: {} before {}", ia[j].0, ia[i].0)); }
            }
        }
    }
    Ok(())
}
pub fn outcome(p: &Rc<Prog>, node: Node, targs: &[TypeArg], args: Vec<V>, fuel: usize) -> R<Outcome> {
    let mut cx = Ctx::new(fuel);
    let vals = match p.hugr.get_optype(node) { OpType::FuncDefn(_) => run_func(p, node, targs, args, &mut cx)?, _ => run_node(p, node, args, &mut cx)? };
    Ok(Outcome { vals, events: cx.events, steps: cx.steps })
}
