//! Things several properties need.
use crate::driver::Obs;
use crate::gen_::{self, Cfg, Program, Ty};
use crate::interp::*;
use crate::rng::{mix, Rng};
use crate::val::V;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::{OpTrait, OpType};
use hugr_core::{Hugr, Node};
use std::rc::Rc;

pub fn rng(seed: u64, idx: u64, salt: u64) -> Rng { Rng::new(mix(&[seed, idx, salt, 0x5eed])) }

/// A generated valid program, or None (counted) when the validator refuses it.
pub fn prog(o: &mut Obs, seed: u64, idx: u64, cfg: &Cfg) -> Option<Program> {
    let p = gen_::program(mix(&[seed, idx, 77]), cfg);
    o.n("programs");
    o.add("nodes", p.hugr.num_nodes() as u64);
    match crate::driver::quiet_catch(|| p.hugr.validate()) {
        Ok(Ok(())) => Some(p),
        Ok(Err(e)) => { o.n("generated_refused"); if o.verbose { eprintln!("generated program refused: {e}"); } None }
        Err(e) => { o.n("validation_crashed"); if o.verbose { eprintln!("{e:?}"); } None }
    }
}
pub fn inputs(tys: &[Ty], r: &mut Rng, k: usize) -> Vec<Vec<V>> { (0..k).map(|_| tys.iter().map(|t| t.rand_val(r)).collect()).collect() }

pub fn func_named(h: &Hugr, name: &str) -> Option<Node> {
    h.children(h.module_root()).find(|n| match h.get_optype(*n) { OpType::FuncDefn(f) => f.func_name() == name, _ => false })
}
pub fn check_valid(o: &mut Obs, key: &str, h: &Hugr) -> bool {
    match o.guard(&format!("{key}:validate"), || h.validate()) {
        Some(Ok(())) => true,
        Some(Err(e)) => { o.bad(format!("{key}|invalid|{}", short(&format!("{e:?}"))), format!("{key}: the result does not validate: {e}")); false }
        None => false,
    }
}
/// A class for an error: its text without numbers and details.
pub fn short(s: &str) -> String { s.chars().take_while(|c| *c == '_' || c.is_alphanumeric() || *c == ' ').filter(|c| !c.is_ascii_digit()).take(40).collect::<String>().trim().to_string() }

/// What the original does on each input (only runs that ended normally).
pub fn reference(o: &mut Obs, h: &Hugr, node: Node, ins: &[Vec<V>], fuel: usize) -> Vec<(Vec<V>, Outcome)> {
    let p = Prog::new(h.clone());
    let mut v = vec![];
    for i in ins {
        match outcome(&p, node, &[], i.clone(), fuel) {
            Ok(x) => { o.n("reference_runs"); o.add("reference_events", x.events.len() as u64); o.add("reference_steps", x.steps as u64); v.push((i.clone(), x)) }
            Err(Stop::Panic(_)) => o.n("reference_panics"),
            Err(Stop::Fuel) => o.n("reference_out_of_fuel"),
            Err(Stop::Unsupported(m)) => { o.n("reference_unsupported"); if o.verbose { eprintln!("unsupported {m}"); } }
            Err(Stop::Broken(m)) => { o.n("reference_broken"); if o.verbose { eprintln!("reference broken {m}"); } }
        }
    }
    v
}
pub fn same(o: &mut Obs, key: &str, h: &Hugr, node: Node, want: &[(Vec<V>, Outcome)], adapt: impl Fn(&Outcome) -> Outcome) -> bool {
    same_out(o, key, h, node, want, adapt).0
}
/// also gives the new outcomes
pub fn same_out(o: &mut Obs, key: &str, h: &Hugr, node: Node, want: &[(Vec<V>, Outcome)], adapt: impl Fn(&Outcome) -> Outcome) -> (bool, Vec<(Vec<V>, Outcome)>) {
    let p = Prog::new(h.clone());
    let mut ok = true;
    let mut outs = vec![];
    for (i, w) in want {
        match outcome(&p, node, &[], i.clone(), w.steps * 20 + 20_000) {
            Ok(x) => { o.n("compared_runs"); let x = adapt(&x); if let Err(e) = compare(w, &x) { ok = false; o.bad(format!("{key}|{}", short(&e)), format!("{key} on {i:?}: {e}")); } outs.push((i.clone(), x)); }
            Err(Stop::Unsupported(m)) => { o.n("compare_unsupported"); if o.verbose { eprintln!("unsupported after {m}"); } }
            Err(e) => { ok = false; let e = format!("{e:?}"); o.bad(format!("{key}|{}", short(&e)), format!("{key} on {i:?}: originally ended normally, now {e}")); }
        }
        if !ok { break; }
    }
    (ok, outs)
}
fn effectful(h: &Hugr, n: Node) -> bool { h.descendants(n).any(|m| match h.get_optype(m) {
    OpType::Call(_) | OpType::CallIndirect(_) => true,
    OpType::ExtensionOp(e) => matches!((&**e.extension_id(), e.unqualified_id()), ("verif.fx", "fx" | "tnew" | "tuse" | "tfree") | ("prelude", "print") | (_, "repeat" | "scan")),
    _ => false }) }
/// Is there a path of order edges?
pub fn order_path(h: &Hugr, from: Node, to: Node) -> bool {
    let mut seen = std::collections::HashSet::from([from]);
    let mut q = vec![from];
    while let Some(n) = q.pop() {
        if n == to { return true; }
        if let Some(p) = h.get_optype(n).other_output_port() { for (m, _) in h.linked_inputs(n, p) { if seen.insert(m) { q.push(m); } } }
    }
    false
}
/// Make sure that every effect is demanded by a path of order edges to the end of its region.
pub fn demand_effects(h: &mut Hugr) -> usize {
    use hugr_core::hugr::hugrmut::HugrMut;
    let mut add = vec![];
    for parent in h.descendants(h.module_root()).collect::<Vec<_>>() {
        if !matches!(h.get_optype(parent), OpType::FuncDefn(_) | OpType::DFG(_) | OpType::Case(_) | OpType::TailLoop(_) | OpType::DataflowBlock(_)) { continue; }
        let Some(out) = h.children(parent).find(|c| matches!(h.get_optype(*c), OpType::Output(_))) else { continue };
        for n in h.children(parent) {
            if n != out && h.get_optype(n).other_output_port().is_some() && matches!(h.get_optype(n).other_port_kind(hugr_core::Direction::Outgoing), Some(hugr_core::types::EdgeKind::StateOrder)) && effectful(h, n) && !order_path(h, n, out) { add.push((n, out)); }
        }
    }
    let k = add.len();
    for (n, out) in add { h.add_other_edge(n, out); }
    k
}
pub fn sig_of(h: &Hugr, n: Node) -> String {
    match h.get_optype(n) {
        OpType::FuncDefn(f) => format!("{:?}", f.signature()),
        OpType::DataflowBlock(b) => format!("{:?}", (&b.inputs, &b.sum_rows, &b.other_outputs)),
        op => format!("{:?}", op.dataflow_signature().map(|s| s.into_owned())),
    }
}
/// mermaid-free outline of a program for debugging and samples
pub fn outline(h: &Hugr) -> String {
    let mut s = String::new();
    fn go(h: &Hugr, n: Node, d: usize, s: &mut String) {
        if s.len() > 60000 { return; }
        let op = h.get_optype(n);
        let ins: Vec<String> = h.node_inputs(n).map(|p| h.linked_outputs(n, p).map(|(m, q)| format!("{}.{}", m.index_(), q)).collect::<Vec<_>>().join("+")).collect();
        s.push_str(&format!("{}{}{} {} <- [{}] :{}\n", "  ".repeat(d), if h.entrypoint() == n { "*" } else { "" }, n.index_(), describe(op), ins.join(", "), h.num_outputs(n)));
        for c in h.children(n) { go(h, c, d + 1, s); }
    }
    go(h, h.module_root(), 0, &mut s);
    s
}
pub fn describe(op: &OpType) -> String {
    match op {
        OpType::ExtensionOp(e) => format!("{}{:?}", e.qualified_id(), e.args().iter().map(|a| a.to_string()).collect::<Vec<_>>()),
        OpType::OpaqueOp(e) => format!("opaque {}{:?}", e.qualified_id(), e.args().iter().map(|a| a.to_string()).collect::<Vec<_>>()),
        OpType::FuncDefn(f) => format!("FuncDefn {} {} {:?}", f.func_name(), f.signature(), f.visibility()),
        OpType::FuncDecl(f) => format!("FuncDecl {} {} {:?}", f.func_name(), f.signature(), f.visibility()),
        OpType::Const(c) => format!("Const {}", c.value().name_()),
        OpType::Call(c) => format!("Call {}", c.type_args.iter().map(|a| a.to_string()).collect::<Vec<_>>().join(",")),
        OpType::Tag(t) => format!("Tag {}", t.tag),
        OpType::Input(t) => format!("Input {}", t.types),
        OpType::Output(t) => format!("Output {}", t.types),
        o => o.to_string(),
    }
}
pub trait NameExt { fn name_(&self) -> String; }
impl NameExt for hugr_core::ops::Value { fn name_(&self) -> String { format!("{self:?}").chars().take(80).collect() } }
pub trait IdxExt { fn index_(&self) -> usize; }
impl IdxExt for Node { fn index_(&self) -> usize { hugr_core::NodeIndex::index(*self) } }
pub fn rc(h: &Hugr) -> Rc<Prog> { Prog::new(h.clone()) }

/// development aid: smaller programs on request
pub fn dev_cfg(mut c: Cfg) -> Cfg {
    if let Some(n) = std::env::var("HV_SIZE").ok().and_then(|x| x.parse().ok()) { c.size = n; c.funcs = c.funcs.min(2); }
    for f in std::env::var("HV_OFF").unwrap_or_default().split(',') { match f { "lin" => c.lin = false, "poly" => c.poly = false, "floats" => c.floats = false, "arrays" => c.arrays = false, "lists" => c.lists = false, "strs" => c.strs = false, "nonlocal" => c.nonlocal = false, "order" => c.order = false, "effects" => c.effects = false, "fnvals" => c.fnvals = false, "cfgs" => c.cfgs = false, "loops" => c.loops = false, "conds" => c.conds = false, "dfgs" => c.dfgs = false, "calls" => c.calls = false, "rec" => c.rec = false, "dead" => c.dead_blocks = false, "meta" => c.meta = false, "decls" => c.decls = false, _ => {} } }
    c
}
/// an error with its causes
pub fn chain(e: &dyn std::error::Error) -> String { let mut s = e.to_string(); let mut c = e.source(); while let Some(x) = c { s.push_str(&format!(" <- {x}")); c = x.source(); } s }
