//! Comparison of programs up to node numbering.
use crate::util::*;
use hugr_core::hugr::internal::HugrInternals;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::{OpTrait, OpType, Value};
use hugr_core::types::EdgeKind;
use hugr_core::{Direction, Hugr, Node, PortIndex, Visibility};
use std::collections::{BTreeMap, HashMap, HashSet};

#[derive(Clone, Copy, Default)]
pub struct Opts {
    /// constants are part of the LoadConstant that uses them (the model format has no constant nodes)
    pub inline_consts: bool,
    /// ignore metadata
    pub no_meta: bool,
    /// several order edges between two nodes are as good as one
    pub order_as_set: bool,
    /// children of the module may come in any order (matched by name)
    pub any_module_order: bool,
    /// compare no entrypoint
    pub no_entry: bool,
}
pub fn cmp_value(a: &Value, b: &Value, o: Opts) -> Result<(), String> {
    match (a, b) {
        (Value::Sum(x), Value::Sum(y)) => {
            if x.tag != y.tag || x.sum_type != y.sum_type || x.values.len() != y.values.len() { return Err(format!("sum constants {a:?} and {b:?}")); }
            for (p, q) in x.values.iter().zip(&y.values) { cmp_value(p, q, o)?; }
            Ok(())
        }
        (Value::Function { hugr: x }, Value::Function { hugr: y }) => cmp_hugr(x, y, o).map_err(|e| format!("in a function constant: {e}")),
        (Value::Extension { e: x }, Value::Extension { e: y }) => {
            if x.get_type() != y.get_type() { return Err(format!("types of constants {a:?} and {b:?}")); }
            let (p, q) = (serde_json::to_value(a).map_err(|e| e.to_string())?, serde_json::to_value(b).map_err(|e| e.to_string())?);
            if p != q { return Err(format!("constants {p} and {q}")); }
            Ok(())
        }
        _ => Err(format!("kinds of constants {a:?} and {b:?}")),
    }
}
pub fn cmp_op(a: &OpType, b: &OpType, o: Opts) -> Result<(), String> {
    let ok = match (a, b) {
        (OpType::Const(x), OpType::Const(y)) => return cmp_value(x.value(), y.value(), o),
        (OpType::ExtensionOp(x), OpType::ExtensionOp(y)) => x.qualified_id() == y.qualified_id() && x.args() == y.args() && a.dataflow_signature() == b.dataflow_signature() && x.extension_version() == y.extension_version(),
        (OpType::Call(x), OpType::Call(y)) => x.type_args == y.type_args && x.instantiation == y.instantiation && x.func_sig == y.func_sig,
        (OpType::FuncDefn(x), OpType::FuncDefn(y)) => x.signature() == y.signature() && x.visibility() == y.visibility() && (x.func_name() == y.func_name()),
        (OpType::FuncDecl(x), OpType::FuncDecl(y)) => x.signature() == y.signature() && x.visibility() == y.visibility() && x.func_name() == y.func_name(),
        _ => a == b,
    };
    if let (OpType::ExtensionOp(x), OpType::ExtensionOp(y)) = (a, b) {
        if x.qualified_id() == y.qualified_id() && x.args() == y.args() {
            if x.extension_version() != y.extension_version() { return Err(format!("extension versions {:?} and {:?} of {}", x.extension_version(), y.extension_version(), describe(a))); }
            if a.dataflow_signature() != b.dataflow_signature() { return Err(format!("signatures of {}: {:?} and {:?}", describe(a), a.dataflow_signature(), b.dataflow_signature())); }
        }
    }
    if ok { Ok(()) } else { Err(format!("operations {} and {}", describe(a), describe(b))) }
}
trait Ver { fn extension_version(&self) -> String; }
impl Ver for hugr_core::ops::ExtensionOp { fn extension_version(&self) -> String { self.def().extension().upgrade().map(|e| e.version().to_string()).unwrap_or_default() } }

fn kids(h: &Hugr, n: Node, o: Opts) -> Vec<Node> {
    let mut v: Vec<Node> = h.children(n).filter(|c| !(o.inline_consts && h.get_optype(*c).is_const())).collect();
    if o.any_module_order && n == h.module_root() { v.sort_by_cached_key(|c| match h.get_optype(*c) { OpType::FuncDefn(f) => (0, f.func_name().clone(), f.visibility() == &Visibility::Public, 0), OpType::FuncDecl(f) => (1, f.func_name().clone(), true, 0), OpType::AliasDefn(a) => (2, a.name.to_string(), true, 0), OpType::AliasDecl(a) => (3, a.name.to_string(), true, 0), _ => (4, String::new(), true, c.index_()) }); }
    v
}
/// The pairing of nodes of two programs with the same hierarchy and operations.
pub fn pairing(a: &Hugr, b: &Hugr, o: Opts) -> Result<Vec<(Node, Node)>, String> {
    let mut out = vec![];
    let mut q = vec![(a.module_root(), b.module_root())];
    while let Some((x, y)) = q.pop() {
        cmp_op(a.get_optype(x), b.get_optype(y), o).map_err(|e| format!("{e} at nodes {} and {}", x.index_(), y.index_()))?;
        out.push((x, y));
        let (kx, ky) = (kids(a, x, o), kids(b, y, o));
        if kx.len() != ky.len() { return Err(format!("number of children {} and {} of {} {}", kx.len(), ky.len(), describe(a.get_optype(x)), x.index_())); }
        q.extend(kx.into_iter().zip(ky).rev());
    }
    Ok(out)
}
pub fn loaded(h: &Hugr, n: Node) -> Option<Value> {
    let c = h.static_source(n)?;
    match h.get_optype(c) { OpType::Const(c) => Some(c.value().clone()), _ => None }
}
pub fn meta(h: &Hugr, n: Node) -> BTreeMap<String, serde_json::Value> { h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.clone())).collect() }
pub fn cmp_hugr(a: &Hugr, b: &Hugr, o: Opts) -> Result<(), String> {
    let pairs = pairing(a, b, o)?;
    let map: HashMap<Node, Node> = pairs.iter().copied().collect();
    for (x, y) in &pairs {
        let (x, y) = (*x, *y);
        let (ox, oy) = (a.get_optype(x), b.get_optype(y));
        for dir in [Direction::Incoming, Direction::Outgoing] {
            let n = ox.port_count(dir);
            if n != oy.port_count(dir) { return Err(format!("port counts of {}", describe(ox))); }
            if !o.inline_consts && a.num_ports(x, dir) != b.num_ports(y, dir) { return Err(format!("allocated ports {} and {} ({dir:?}) of {}", a.num_ports(x, dir), b.num_ports(y, dir), describe(ox))); }
        }
        if o.inline_consts && ox.is_load_constant() {
            match (loaded(a, x), loaded(b, y)) { (Some(p), Some(q)) => cmp_value(&p, &q, o)?, (p, q) => return Err(format!("a loaded constant: {} {}", p.is_some(), q.is_some())) }
        }
        for p in a.node_inputs(x) {
            let kind = ox.port_kind(p);
            if o.inline_consts && matches!(kind, Some(EdgeKind::Const(_))) { continue; }
            let mut s: Vec<(Option<Node>, usize)> = a.linked_outputs(x, p).map(|(m, q)| (map.get(&m).copied(), q.index())).collect();
            let mut t: Vec<(Option<Node>, usize)> = if p.index() < b.num_inputs(y) { b.linked_outputs(y, p).map(|(m, q)| (Some(m), q.index())).collect() } else { vec![] };
            s.sort(); t.sort();
            if o.order_as_set && matches!(kind, Some(EdgeKind::StateOrder)) { s.dedup(); t.dedup(); }
            if s != t { return Err(format!("edges into port {} ({}) of {}: {s:?} and {t:?}", p.index(), match kind { Some(EdgeKind::StateOrder) => "order", Some(EdgeKind::Value(_)) => "value", Some(EdgeKind::ControlFlow) => "control", Some(_) => "static", None => "none" }, describe(ox))); }
        }
        // regions of the model have no place for the metadata of their ends
        if o.inline_consts && matches!(ox, OpType::Input(_) | OpType::Output(_) | OpType::ExitBlock(_)) { continue; }
        if !o.no_meta && meta(a, x) != meta(b, y) { return Err(format!("metadata {:?} and {:?} of {}", meta(a, x), meta(b, y), describe(ox))); }
    }
    if !o.no_entry && map.get(&a.entrypoint()).copied() != Some(b.entrypoint()) { return Err(format!("entrypoints {:?} and {:?}", a.entrypoint(), b.entrypoint())); }
    Ok(())
}
/// Full comparison as an identity of the same graph object (same node numbers), e.g. before and after a failed edit.
pub fn snapshot(h: &Hugr) -> Vec<String> {
    let mut v: Vec<String> = h.nodes().map(|n| {
        let mut s = format!("{} p{:?} {} c{:?} m{:?}", n.index_(), h.get_parent(n).map(|x| x.index_()), describe(h.get_optype(n)), h.children(n).map(|x| x.index_()).collect::<Vec<_>>(), meta(h, n));
        for dir in [Direction::Incoming, Direction::Outgoing] { for p in h.node_ports(n, dir) { let mut l: Vec<_> = h.linked_ports(n, p).map(|(m, q)| (m.index_(), q.index())).collect(); l.sort(); s.push_str(&format!(" {:?}{}:{l:?}", dir, p.index())); } }
        s
    }).collect();
    v.sort();
    v.push(format!("entry {} root {}", h.entrypoint().index_(), h.module_root().index_()));
    v
}
pub fn opaque_left(h: &Hugr) -> Option<String> { h.nodes().find_map(|n| match h.get_optype(n) { OpType::OpaqueOp(o) => Some(o.qualified_id().to_string()), _ => None }) }
pub fn shape(h: &Hugr) -> u64 { let mut s: Vec<String> = h.nodes().map(|n| describe(h.get_optype(n))).collect(); s.sort(); s.dedup(); crate::rng::hash_str(&s.join("|")) }
#[allow(dead_code)] fn _u(_: HashSet<Node>) {}
