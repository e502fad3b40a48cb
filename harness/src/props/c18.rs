//! Rewrite histories: persistent programs against plain programs rewritten step by step.
use crate::canon;
use crate::driver::{quiet_catch, Obs, Prop};
use crate::ext;
use crate::rng::Rng;
use crate::util::*;
use hugr_core::builder::{DFGBuilder, Dataflow, DataflowHugr, DataflowSubContainer, HugrBuilder, ModuleBuilder};
use hugr_core::extension::prelude::bool_t;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::patch::Patch;
use hugr_core::hugr::views::{HugrView, SiblingSubgraph};
use hugr_core::hugr::internal::HugrInternals;
use hugr_core::ops::handle::NodeHandle;
use hugr_core::ops::{OpTag, OpTrait, OpType, Value};
use hugr_core::std_extensions::logic::LogicOp;
use hugr_core::types::{Signature, Type};
use hugr_core::{Direction, Hugr, Node, Port, Wire};
use hugr_persistent::serial::SerialCommitStateSpace;
use hugr_persistent::{Commit, CommitId, CommitStateSpace, InvalidCommit, PatchNode, PersistentHugr, PersistentReplacement, Walker};
use std::collections::{BTreeMap, BTreeSet};

fn num_t() -> Type { hugr_core::std_extensions::arithmetic::int_types::INT_TYPES[5].clone() }
type Links = BTreeMap<(Node, Port), Vec<(Node, Port)>>;

/// Adds random operations to a dataflow region and picks its outputs.
fn fill<D: Dataflow>(b: &mut D, r: &mut Rng, outs: &[Type], size: usize, base: bool) -> Vec<Wire> {
    let ins = b.input_wires().collect::<Vec<_>>();
    let (mut bools, mut qbs, mut nums): (Vec<Wire>, Vec<Wire>, Vec<Wire>) = (vec![], vec![], vec![]);
    for w in ins { let t = b.get_wire_type(w).unwrap(); if t == bool_t() { bools.push(w) } else if t == num_t() { nums.push(w) } else { qbs.push(w) } }
    let n = if size == 0 { 0 } else { r.below(size + 1) };
    let mut steps: Vec<usize> = (0..n).map(|_| r.below(100)).collect();
    if bools.is_empty() && outs.contains(&bool_t()) { steps.insert(0, 90) }
    if nums.is_empty() && outs.contains(&num_t()) { steps.insert(0, 95) }
    let mut id = r.u64() % 1000;
    let last = |r: &mut Rng, v: &[Wire]| -> Wire { if r.chance(2, 3) { v[v.len() - 1 - r.below(v.len().min(2))] } else { *r.pick(v) } };
    for s in steps {
        id += 1;
        let mut ws = vec![];
        match s {
            0..=24 if !bools.is_empty() => { let w = last(r, &bools); ws = b.add_dataflow_op(LogicOp::Not, [w]).unwrap().outputs().collect() }
            25..=49 if !bools.is_empty() => { let (v, w) = (last(r, &bools), last(r, &bools)); let op = *r.pick(&[LogicOp::And, LogicOp::Or, LogicOp::Xor]); ws = b.add_dataflow_op(op, [v, w]).unwrap().outputs().collect() }
            50..=64 if !nums.is_empty() => { let (v, w) = (last(r, &nums), last(r, &nums)); ws = b.add_dataflow_op(ext::op1("mix", id), [v, w]).unwrap().outputs().collect() }
            65..=69 if !nums.is_empty() => { let v = last(r, &nums); ws = b.add_dataflow_op(ext::op1("fx", id), [v]).unwrap().outputs().collect() }
            70..=77 if !qbs.is_empty() && !nums.is_empty() => { let i = r.below(qbs.len()); let q = qbs.swap_remove(i); let v = last(r, &nums); ws = b.add_dataflow_op(ext::op1("tuse", id), [q, v]).unwrap().outputs().collect() }
            78..=81 => ws = b.add_dataflow_op(ext::op1("tnew", id), []).unwrap().outputs().collect(),
            82..=83 if !qbs.is_empty() => { let i = r.below(qbs.len()); let q = qbs.swap_remove(i); b.add_dataflow_op(ext::op1("tfree", id), [q]).unwrap(); }
            84..=86 if base && !bools.is_empty() => {
                let v = last(r, &bools);
                let mut d = b.dfg_builder(Signature::new_endo(vec![bool_t()]), [v]).unwrap();
                let o = fill(&mut d, r, &[bool_t()], 3, false);
                ws = d.finish_with_outputs(o).unwrap().outputs().collect();
            }
            90..=94 if base || s == 90 => ws.push(b.add_load_value(Value::from_bool(r.bool()))),
            95..=99 if base || s == 95 => ws.push(b.add_load_value(hugr_core::std_extensions::arithmetic::int_types::ConstInt::new_u(5, r.u64() % 50).unwrap())),
            _ => {}
        }
        for w in ws { let t = b.get_wire_type(w).unwrap(); if t == bool_t() { bools.push(w) } else if t == num_t() { nums.push(w) } else { qbs.push(w) } }
    }
    r.shuffle(&mut qbs);
    let res = outs.iter().map(|t| if *t == bool_t() { last(r, &bools) } else if *t == num_t() { last(r, &nums) } else {
        id += 1;
        qbs.pop().unwrap_or_else(|| b.add_dataflow_op(ext::op1("tnew", id), []).unwrap().out_wire(0))
    }).collect();
    for q in qbs { id += 1; b.add_dataflow_op(ext::op1("tfree", id), [q]).unwrap(); }
    res
}
fn row(r: &mut Rng, k: usize) -> Vec<Type> { (0..k).map(|_| match r.below(5) { 0 | 1 => bool_t(), 2 => ext::tok(), _ => num_t() }).collect() }
fn base(r: &mut Rng) -> Hugr {
    let k = r.range(1, 4); let ins = row(r, k);
    let k = r.range(1, 4); let outs = row(r, k);
    let n = r.range(3, 18);
    let sig = Signature::new(ins, outs.clone());
    let mut h = if r.bool() {
        let mut b = DFGBuilder::new(sig).unwrap();
        let o = fill(&mut b, r, &outs, n, true);
        b.finish_hugr_with_outputs(o).unwrap()
    } else {
        let mut m = ModuleBuilder::new();
        let f = { let mut b = m.define_function("other", Signature::new_endo(vec![num_t()])).unwrap(); let o = fill(&mut b, r, &[num_t()], 3, true); b.finish_with_outputs(o).unwrap() };
        let g = { let mut b = m.define_function("main", sig).unwrap(); let o = fill(&mut b, r, &outs, n, true); b.finish_with_outputs(o).unwrap() };
        let _ = f;
        let mut h = m.finish_hugr().unwrap();
        h.set_entrypoint(g.node());
        h
    };
    tag(&mut h, r);
    h
}
fn tag(h: &mut Hugr, r: &mut Rng) {
    let ns: Vec<Node> = h.nodes().collect();
    for n in ns { if r.chance(1, 6) { let v = r.u64() % 100; h.set_metadata(n, "verif.tag", serde_json::json!(v)); } }
}

/// What the harness knows about one stored rewrite.
struct Rec<'a> { commit: Commit<'a>, id: CommitId, up: BTreeSet<usize>, del: BTreeSet<PatchNode>, repl: Option<PersistentReplacement> }

fn closure(recs: &[Rec], s: &[usize]) -> BTreeSet<usize> { s.iter().flat_map(|i| recs[*i].up.iter().copied()).collect() }
fn clash(recs: &[Rec], s: &BTreeSet<usize>) -> bool {
    let mut seen = BTreeSet::new();
    s.iter().any(|i| recs[*i].del.iter().any(|n| !seen.insert(*n)))
}
/// The rewrites of a set, applied to a plain program in the given order.
fn reference(recs: &[Rec], order: &[usize]) -> Result<(Hugr, BTreeMap<PatchNode, Node>), String> {
    let mut h: Hugr = Hugr::new();
    let mut map: BTreeMap<PatchNode, Node> = BTreeMap::new();
    for i in order {
        let rec = &recs[*i];
        let Some(repl) = &rec.repl else {
            let p = PersistentHugr::from_commit(rec.commit.clone());
            h = p.base_hugr().clone();
            map = h.nodes().map(|n| (PatchNode(rec.id, n), n)).collect();
            continue;
        };
        for n in &rec.del { if !map.contains_key(n) { return Err(format!("harness: {n} is not there")); } }
        let old: Vec<Node> = rec.del.iter().map(|n| map[n]).collect();
        let r = repl.map_host_nodes(|n| map[&n], &h).map_err(|e| short(&format!("{e}")))?;
        let gone: BTreeSet<Node> = old.iter().flat_map(|n| h.descendants(*n).collect::<Vec<_>>()).collect();
        let out = r.apply(&mut h).map_err(|e| short(&format!("{e}")))?;
        map.retain(|_, n| !gone.contains(n));
        for (a, b) in out.node_map { map.insert(PatchNode(rec.id, a), b); }
    }
    h.validate().map_err(|e| format!("validate {}", short(&format!("{e}"))))?;
    Ok((h, map))
}
fn links(h: &Hugr) -> Links {
    let mut m = Links::new();
    for n in h.nodes() { for p in h.all_node_ports(n) { let mut v: Vec<_> = h.linked_ports(n, p).collect(); v.sort(); m.insert((n, p), v); } }
    m
}

/// Compares a persistent program, looked at in place, with the plain program it stands for.
fn view(o: &mut Obs, k: &str, p: &PersistentHugr, h: &Hugr, map: &BTreeMap<PatchNode, Node>, r: &mut Rng) -> Result<(), (String, String)> {
    let e = |what: &str, msg: String| Err((format!("{k}{what}"), msg));
    o.n("views compared");
    if let Err(x) = p.is_valid() { return e("is_valid", format!("{x}")); }
    let ns: Vec<PatchNode> = p.nodes().collect();
    let set: BTreeSet<PatchNode> = ns.iter().copied().collect();
    if set.len() != ns.len() { return e("nodes twice", format!("{ns:?}")); }
    let want: BTreeSet<PatchNode> = map.keys().copied().collect();
    if set != want {
        let more: Vec<_> = set.difference(&want).collect(); let less: Vec<_> = want.difference(&set).collect();
        return e(if more.is_empty() { "nodes missing" } else { "nodes extra" }, format!("extra {more:?} missing {less:?}"));
    }
    if p.num_nodes() != h.num_nodes() { return e("num_nodes", format!("{} for {}", p.num_nodes(), h.num_nodes())); }
    let at = |n: PatchNode| map.get(&n).copied();
    if at(p.entrypoint()) != Some(h.entrypoint()) || at(p.module_root()) != Some(h.module_root()) { return e("root", String::new()); }
    for n in &ns {
        let m = map[n];
        o.n("nodes compared");
        if !p.contains_node(*n) { return e("contains", format!("{n}")); }
        if let Err(x) = canon::cmp_op(p.get_optype(*n), h.get_optype(m), canon::Opts::default()) { return e("op", format!("{n}: {x}")); }
        let pm: BTreeMap<String, serde_json::Value> = p.node_metadata_map(*n).iter().map(|(k, v)| (k.clone(), v.clone())).collect();
        if pm != canon::meta(h, m) { return e("metadata", format!("{n}: {pm:?} for {:?}", canon::meta(h, m))); }
        if p.get_parent(*n).map(|x| at(x)) != h.get_parent(m).map(Some) { return e("parent", format!("{n}: {:?}", p.get_parent(*n))); }
        let ch: Vec<Option<Node>> = p.children(*n).map(at).collect();
        let hc: Vec<Option<Node>> = h.children(m).map(Some).collect();
        let (mut a, mut b) = (ch.clone(), hc.clone()); a.sort(); b.sort();
        let io = if h.get_optype(m).tag() <= OpTag::DataflowParent { 2 } else { hc.len() };
        if a != b || ch.iter().take(io).ne(hc.iter().take(io)) { return e("children", format!("{n} {}: {:?}", describe(h.get_optype(m)), p.children(*n).collect::<Vec<_>>())); }
        let mut back: Vec<_> = p.children(*n).rev().map(at).collect(); back.reverse();
        if back != ch { return e("children backwards", format!("{n}")); }
        for dir in Direction::BOTH {
            if p.num_ports(*n, dir) != h.num_ports(m, dir) || p.node_ports(*n, dir).ne(h.node_ports(m, dir)) { return e("ports", format!("{n}")); }
            let mut a: Vec<Option<Node>> = p.neighbours(*n, dir).map(at).collect(); a.sort();
            let mut b: Vec<Option<Node>> = h.neighbours(m, dir).map(Some).collect(); b.sort();
            if a != b { return e("neighbours", format!("{n} {} {dir:?}", describe(h.get_optype(m)))); }
        }
        for q in p.all_node_ports(*n) {
            let mut a: Vec<(Option<Node>, Port)> = p.linked_ports(*n, q).map(|(x, y)| (at(x), y)).collect(); a.sort();
            let mut b: Vec<(Option<Node>, Port)> = h.linked_ports(m, q).map(|(x, y)| (Some(x), y)).collect(); b.sort();
            o.n("ports compared");
            if a != b {
                let kind = match h.get_optype(m).port_kind(q) { Some(hugr_core::types::EdgeKind::Value(_)) => "value", Some(hugr_core::types::EdgeKind::StateOrder) => "order", _ => "static" };
                return e(&format!("linked {kind}"), format!("{n} {} {q:?}: {:?}, want {b:?}", describe(h.get_optype(m)), p.linked_ports(*n, q).collect::<Vec<_>>()));
            }
            if let (Some(hugr_core::types::EdgeKind::Value(_)), true) = (h.get_optype(m).port_kind(q), r.chance(1, 4)) {
                let w = p.get_wire(*n, q);
                let mut all: Vec<(Option<Node>, Port)> = w.all_ports(p, None).map(|(x, y)| (at(x), y)).collect(); all.sort();
                let mut exp: Vec<(Option<Node>, Port)> = h.linked_ports(m, q).map(|(x, y)| (Some(x), y)).collect();
                match q.direction() {
                    Direction::Outgoing => exp.push((Some(m), q)),
                    Direction::Incoming => { let (s, t) = h.linked_ports(m, q).next().unwrap(); exp.extend(h.linked_ports(s, t).map(|(x, y)| (Some(x), y))); }
                }
                exp.sort();
                o.n("wires compared");
                if all != exp { return e("wire", format!("{n} {q:?}: {all:?} want {exp:?}")); }
                if w.owners().any(|c| !p.contains_id(c)) { return e("wire owners", format!("{n} {q:?}")); }
            }
        }
    }
    for _ in 0..3 {
        let (a, b) = (*r.pick(&ns), *r.pick(&ns));
        let mut x: Vec<_> = p.node_connections(a, b).collect(); x.sort();
        let mut y: Vec<_> = h.node_connections(map[&a], map[&b]).collect(); y.sort();
        if x != y { return e("connections", format!("{a} {b}: {x:?} want {y:?}")); }
        let mut x: Vec<_> = p.descendants(a).map(at).collect(); x.sort();
        let mut y: Vec<_> = h.descendants(map[&a]).map(Some).collect(); y.sort();
        if x != y { return e("descendants", format!("{a}")); }
        let mut x: Vec<_> = p.all_neighbours(a).map(at).collect(); x.sort();
        let mut y: Vec<_> = h.all_neighbours(map[&a]).map(Some).collect(); y.sort();
        if x != y { return e("all_neighbours", format!("{a}")); }
    }
    if p.num_edges() != h.num_edges() { return e("num_edges", format!("{} for {}", p.num_edges(), h.num_edges())); }
    Ok(())
}
/// Are two plain programs the same under the given pairing of nodes?
fn plain(a: &Hugr, ma: &BTreeMap<PatchNode, Node>, b: &Hugr, mb: &BTreeMap<PatchNode, Node>) -> Result<(), String> {
    if !ma.keys().eq(mb.keys()) { return Err(format!("nodes {:?} and {:?}", ma.keys().collect::<Vec<_>>(), mb.keys().collect::<Vec<_>>())); }
    if a.num_nodes() != ma.len() || b.num_nodes() != mb.len() { return Err(format!("{} and {} nodes, {} mapped", a.num_nodes(), b.num_nodes(), ma.len())); }
    let to: BTreeMap<Node, Node> = ma.iter().map(|(k, n)| (*n, mb[k])).collect();
    let (la, lb) = (links(a), links(b));
    if la.len() != lb.len() { return Err("ports".into()); }
    for ((n, p), v) in &la {
        let mut x: Vec<_> = v.iter().map(|(m, q)| (to[m], *q)).collect(); x.sort();
        if lb.get(&(to[n], *p)) != Some(&x) { return Err(format!("links of {n} {p:?}: {x:?} and {:?}", lb.get(&(to[n], *p)))); }
    }
    for n in a.nodes() {
        canon::cmp_op(a.get_optype(n), b.get_optype(to[&n]), canon::Opts::default())?;
        if canon::meta(a, n) != canon::meta(b, to[&n]) { return Err(format!("metadata of {n}")); }
        if a.get_parent(n).map(|x| to[&x]) != b.get_parent(to[&n]) { return Err(format!("parent of {n}")); }
    }
    if to[&a.entrypoint()] != b.entrypoint() { return Err("entrypoint".into()); }
    Ok(())
}

fn whole(o: &mut Obs, k: &str, p: &PersistentHugr, recs: &[Rec], set: &BTreeSet<usize>, r: &mut Rng) -> Result<(), (String, String)> {
    let order: Vec<usize> = set.iter().copied().collect();
    let ids: BTreeSet<CommitId> = p.all_commit_ids().collect();
    let want: BTreeSet<CommitId> = set.iter().map(|i| recs[*i].id).collect();
    if ids != want { return Err((format!("{k}commits"), format!("{ids:?} for {want:?}"))); }
    let (h, map) = match quiet_catch(|| reference(recs, &order)) {
        Ok(Ok(x)) => x,
        Ok(Err(m)) => return Err((format!("{k}compatible rewrites do not fit together@{m}"), format!("{set:?}"))),
        Err(p) => return Err((format!("{k}reference panics"), p.key())),
    };
    for i in set {
        let c: BTreeSet<CommitId> = p.children_commits(recs[*i].id).collect();
        let w: BTreeSet<CommitId> = set.iter().filter(|j| recs[**j].commit.parents().any(|x| x.id() == recs[*i].id)).map(|j| recs[*j].id).collect();
        if c != w { return Err((format!("{k}children_commits"), format!("{c:?} for {w:?}"))); }
        let c: BTreeSet<CommitId> = p.parent_commits(recs[*i].id).collect();
        let w: BTreeSet<CommitId> = recs[*i].commit.parents().map(|x| x.id()).collect();
        if c != w { return Err((format!("{k}parent_commits"), format!("{c:?} for {w:?}"))); }
    }
    view(o, k, p, &h, &map, r)?;
    let (h2, m2) = p.apply_all();
    o.n("programs extracted");
    plain(&h, &map, &h2, &m2.into_iter().collect()).map_err(|m| (format!("{k}apply_all"), m))?;
    // another order of the same rewrites
    let mut rest = order.clone(); let mut other: Vec<usize> = vec![];
    while !rest.is_empty() {
        let free: Vec<usize> = rest.iter().copied().filter(|i| recs[*i].up.iter().all(|u| u == i || other.contains(u))).collect();
        let i = *r.pick(&free); other.push(i); rest.retain(|x| *x != i);
    }
    if other != order {
        o.n("orders compared");
        let (h3, m3) = reference(recs, &other).map_err(|m| (format!("{k}another order fails@{m}"), format!("{other:?}")))?;
        plain(&h, &map, &h3, &m3).map_err(|m| (format!("{k}another order"), m))?;
    }
    if r.chance(1, 3) {
        let (x, xm) = p.extract_hugr(p.entrypoint());
        use hugr_core::hugr::views::ExtractionResult;
        let (y, ym) = h.extract_hugr(h.entrypoint());
        let a: BTreeMap<PatchNode, Node> = map.iter().filter(|(_, n)| h.entry_descendants().any(|d| d == **n) || **n == h.module_root()).map(|(k, _)| (*k, xm.extracted_node(*k))).collect();
        let b: BTreeMap<PatchNode, Node> = map.iter().filter(|(_, n)| h.entry_descendants().any(|d| d == **n) || **n == h.module_root()).map(|(k, n)| (*k, ym.extracted_node(*n))).collect();
        let _ = (a, b, ym);
        if let Err(m) = canon_eq(&x, &y) { return Err((format!("{k}extract_hugr"), m)); }
        o.n("regions extracted");
        let (pg, pm) = p.region_portgraph(p.entrypoint());
        use portgraph::PortView;
        let n = h.children(h.entrypoint()).count();
        if pg.node_count() != n || h.children(h.entrypoint()).any(|c| !map.iter().any(|(k, v)| *v == c && pm.contains_key(k))) { return Err((format!("{k}region_portgraph"), format!("{} nodes for {n}", pg.node_count()))); }
    }
    o.saw(canon::shape(&h));
    Ok(())
}
/// Same up to the numbering of nodes and the order of children.
fn canon_eq(a: &Hugr, b: &Hugr) -> Result<(), String> {
    if a.num_nodes() != b.num_nodes() || a.num_edges() != b.num_edges() { return Err(format!("{}/{} nodes, {}/{} edges", a.num_nodes(), b.num_nodes(), a.num_edges(), b.num_edges())); }
    let f = |h: &Hugr| -> Vec<String> { let mut v: Vec<String> = h.nodes().map(|n| describe(h.get_optype(n))).collect(); v.sort(); v };
    if f(a) != f(b) { return Err("operations".into()); }
    a.validate().map_err(|e| e.to_string())
}

/// Every way to go on from a walker along a wire must be offered.
fn walk(o: &mut Obs, space: &CommitStateSpace, recs: &[Rec], r: &mut Rng) -> Result<(), (String, String)> {
    let e = |what: &str, msg: String| Err((format!("walker|{what}"), msg));
    let full: Vec<(BTreeSet<usize>, Hugr, BTreeMap<PatchNode, Node>)> = {
        let mut v = vec![]; let mut seen = BTreeSet::new();
        for m in 0..(1u32 << (recs.len() - 1).min(7)) {
            let s: Vec<usize> = std::iter::once(0).chain((1..recs.len()).filter(|i| m >> (i - 1) & 1 == 1)).collect();
            let c = closure(recs, &s);
            if clash(recs, &c) || !seen.insert(c.clone()) { continue; }
            let Ok((h, map)) = reference(recs, &c.iter().copied().collect::<Vec<_>>()) else { return Ok(()) };
            v.push((c, h, map));
        }
        v
    };
    let start = r.pick(&full);
    let cands: Vec<PatchNode> = start.2.iter().filter(|(_, n)| start.1.get_parent(**n) == Some(start.1.entrypoint())).map(|(k, _)| *k).collect();
    let Some(first) = r.pick_opt(&cands) else { return Ok(()) };
    let mut w = Walker::from_pinned_node(*first, space);
    for _ in 0..4 {
        let p = w.as_hugr_view();
        let sel: BTreeSet<CommitId> = p.all_commit_ids().collect();
        let pins: Vec<PatchNode> = w.pinned_nodes().collect();
        for n in &pins { if !p.contains_node(*n) { return e("a pinned node is gone", format!("{n}")); } }
        if let Err(x) = p.is_valid() { return e("is_valid", x.to_string()); }
        let from = *r.pick(&pins);
        let ports: Vec<Port> = p.all_node_ports(from).filter(|q| matches!(p.get_optype(from).port_kind(*q), Some(hugr_core::types::EdgeKind::Value(_)))).collect();
        let Some(q) = r.pick_opt(&ports).copied() else { return Ok(()) };
        let wire = w.get_wire(from, q);
        let dir = *r.pick(&[None, Some(Direction::Incoming), Some(Direction::Outgoing)]);
        let next: Vec<Walker> = w.expand(&wire, dir).collect();
        o.n("walker steps"); o.add("walkers offered", next.len() as u64);
        let mut got: Vec<(BTreeSet<CommitId>, BTreeSet<PatchNode>)> = vec![];
        for x in &next {
            let ids: BTreeSet<CommitId> = x.as_hugr_view().all_commit_ids().collect();
            let pn: BTreeSet<PatchNode> = x.pinned_nodes().collect();
            if !ids.is_superset(&sel) || pins.iter().any(|n| !pn.contains(n)) { return e("a step loses something", format!("{ids:?} {pn:?}")); }
            if let Err(m) = x.as_hugr_view().is_valid() { return e("is_valid", m.to_string()); }
            for n in &pn { if !x.as_hugr_view().contains_node(*n) { return e("a pinned node is gone", format!("{n}")); } }
            got.push((ids, pn));
        }
        if w.is_complete(&wire, dir) { if next.len() != 1 || got[0].0 != sel { return e("complete wire", format!("{} walkers", next.len())); } }
        else {
            for (c, h, map) in &full {
                let ids: BTreeSet<CommitId> = c.iter().map(|i| recs[*i].id).collect();
                if !ids.is_superset(&sel) || pins.iter().any(|n| !map.contains_key(n)) { continue; }
                let m = map[&from];
                let mut ends: Vec<(Node, Port)> = h.linked_ports(m, q).collect();
                if q.direction() == Direction::Incoming { let (s, t) = ends[0]; ends.extend(h.linked_ports(s, t)); } else { ends.push((m, q)); }
                let open: BTreeSet<PatchNode> = map.iter().filter(|(k, n)| !pins.contains(k) && ends.iter().any(|(x, y)| x == *n && dir.is_none_or(|d| d == y.direction()))).map(|(k, _)| *k).collect();
                if open.is_empty() { continue; }
                o.n("walker coverage checks");
                if !got.iter().any(|(i, pn)| i.is_subset(&ids) && pn.iter().all(|n| map.contains_key(n)) && open.iter().any(|n| pn.contains(n))) {
                    let passing = c.iter().any(|i| recs[*i].repl.as_ref().is_some_and(|x| { let g = x.replacement(); let [a, b] = g.get_io(g.entrypoint()).unwrap(); let mut seen = BTreeSet::new(); g.output_neighbours(a).any(|n| n == b) || g.node_inputs(b).any(|q| g.single_linked_output(b, q).is_some_and(|x| !seen.insert(x))) }));
                    let source = dir == Some(Direction::Incoming) && p.get_wire(from, q).single_outgoing_port(p).is_some_and(|(n, _)| !map.contains_key(&n));
                    return e(&format!("a program is not covered@{}", if passing { "wires passed through or joined" } else if source { "consumers of a replaced source" } else { "plain" }), format!("wire {from} {q:?} {dir:?} selected {sel:?} pinned {pins:?}: program {ids:?} ends {open:?}; offered {got:?}"));
                }
            }
        }
        let Some(x) = next.into_iter().max_by_key(|_| r.u64()) else { return Ok(()) };
        w = x;
    }
    Ok(())
}

fn subgraph(p: &PersistentHugr, r: &mut Rng) -> Option<SiblingSubgraph<PatchNode>> {
    let kids: Vec<PatchNode> = p.children(p.entrypoint()).filter(|n| !matches!(p.get_optype(*n), OpType::Input(_) | OpType::Output(_) | OpType::Const(_))).collect();
    let mut s = vec![*r.pick_opt(&kids)?];
    for _ in 0..r.below(4) {
        let nb: Vec<PatchNode> = s.iter().flat_map(|n| p.all_neighbours(*n).collect::<Vec<_>>()).filter(|n| kids.contains(n) && !s.contains(n)).collect();
        if r.chance(1, 20) { let x = *r.pick(&kids); if !s.contains(&x) { s.push(x) } } else if let Some(x) = r.pick_opt(&nb) { s.push(*x) }
    }
    SiblingSubgraph::try_from_nodes(s, p).ok()
}
fn replacement(sig: &Signature, r: &mut Rng) -> Hugr {
    let mut b = DFGBuilder::new(sig.clone()).unwrap();
    let outs: Vec<Type> = sig.output().iter().cloned().collect();
    let n = *r.pick(&[0, 0, 1, 3, 5]);
    let o = fill(&mut b, r, &outs, n, false);
    let mut h = b.finish_hugr_with_outputs(o).unwrap();
    tag(&mut h, r);
    h
}

fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 18);
    let h = base(&mut r);
    let space = CommitStateSpace::new();
    let root = space.try_set_base(h.clone()).unwrap();
    if space.try_set_base(h.clone()).is_some() { o.bad("second base", String::new()); return; }
    let mut recs: Vec<Rec> = vec![Rec { id: root.id(), commit: root, up: BTreeSet::from([0]), del: BTreeSet::new(), repl: None }];
    let mut kept: Vec<(PersistentHugr, BTreeSet<usize>, Vec<String>)> = vec![];
    let res = quiet_catch(|| -> Result<(), (String, String)> {
        for step in 0..r.range(2, 9) {
            // a compatible selection of what is stored
            let mut set = BTreeSet::from([0]);
            for _ in 0..r.below(2 * recs.len()) {
                let i = r.below(recs.len());
                let c: BTreeSet<usize> = set.union(&recs[i].up).copied().collect();
                if !clash(&recs, &c) { set = c; }
            }
            let tips: Vec<CommitId> = set.iter().map(|i| recs[*i].id).collect();
            let mut p = space.try_create(tips).map_err(|e| (format!("compatible rewrites refused@{}", short(&format!("{e}"))), format!("{e}")))?;
            whole(o, "", &p, &recs, &set, &mut r)?;
            // a new rewrite of it
            let Some(sub) = subgraph(&p, &mut r) else { o.n("no subgraph"); continue };
            let sig = sub.signature(&p);
            let new = replacement(&sig, &mut r);
            let repl = match PersistentReplacement::try_new(sub.clone(), &p, new) { Ok(x) => x, Err(e) => { return Err((format!("replacement refused@{}", short(&format!("{e}"))), format!("{e}"))) } };
            let del: BTreeSet<PatchNode> = repl.subgraph().nodes().iter().copied().collect();
            let i = recs.len();
            // rewrites through which wires at the boundary run have to be named as parents
            let through: BTreeSet<CommitId> = del.iter().flat_map(|n| p.all_node_ports(*n).filter(|q| matches!(p.get_optype(*n).port_kind(*q), Some(hugr_core::types::EdgeKind::Value(_)))).flat_map(|q| p.get_wire(*n, q).owners().collect::<Vec<_>>()).collect::<Vec<_>>()).collect();
            let known: BTreeSet<usize> = closure(&recs, &(0..i).filter(|j| del.iter().any(|n| n.0 == recs[*j].id)).collect::<Vec<_>>());
            let need: BTreeSet<usize> = set.iter().copied().filter(|j| through.contains(&recs[*j].id)).collect();
            let mut how = if need.is_subset(&known) { r.below(4) } else { 3 };
            let mut need = need;
            {
                let mut k = known.clone(); k.extend(&need); let k = closure(&recs, &k.into_iter().collect::<Vec<_>>());
                let fits = match quiet_catch(|| reference(&recs, &k.iter().copied().collect::<Vec<_>>())) { Ok(Ok((h, map))) => quiet_catch(|| repl.map_host_nodes(|n| map[&n], &h).is_ok_and(|x| { let mut h = h.clone(); x.apply(&mut h).is_ok() && h.validate().is_ok() })).unwrap_or(false), _ => false };
                if !fits { o.n("rewrites that need more parents"); how = 3; need = set.clone(); }
            }
            o.n(["rewrites stored", "rewrites added", "rewrites applied", "rewrites with more parents"][how]);
            let nested = del.iter().any(|n| p.children(*n).next().is_some());
            let commit: Result<Commit, InvalidCommit> = match how {
                0 => Commit::try_from_replacement(repl.clone(), &space),
                1 | 2 => {
                    let before = p.to_hugr();
                    let old = p.clone();
                    let id = if how == 1 { p.try_add_replacement(repl.clone()) } else {
                        match repl.clone().apply(&mut p) { Ok(i) => Ok(i), Err(_) if nested => { o.n("containers refused"); continue } Err(e) => return Err((format!("apply fails@{}", short(&format!("{e}"))), String::new())) }
                    };
                    if canon::snapshot(&old.to_hugr()) != canon::snapshot(&before) { return Err(("an older version changes".into(), String::new())); }
                    id.map(|id| space.try_upgrade(id).unwrap())
                }
                _ => { let more: Vec<Commit> = set.iter().filter(|i| need.contains(i) || r.bool()).map(|i| recs[*i].commit.clone()).collect(); Commit::try_new(repl.clone(), more, &space) }
            };
            let commit = match commit {
                Ok(_) if nested => return Err(("removing a container is accepted".into(), String::new())),
                Err(_) if nested => { o.n("containers refused"); continue }
                x => x.map_err(|e| (format!("rewrite refused@{}", short(&format!("{e}"))), format!("{e}")))?,
            };
            let parents: BTreeSet<CommitId> = commit.parents().map(|c| c.id()).collect();
            if del.iter().any(|n| !parents.contains(&n.0)) { return Err(("a changed rewrite is not a parent".into(), format!("{parents:?} {del:?}"))); }
            if commit.deleted_parent_nodes().collect::<BTreeSet<_>>() != del { return Err(("deleted_parent_nodes".into(), String::new())); }
            let ups: Vec<usize> = (0..i).filter(|j| parents.contains(&recs[*j].id)).collect();
            let mut up = closure(&recs, &ups); up.insert(i);
            recs.push(Rec { id: commit.id(), commit, up, del, repl: Some(repl) });
            if how == 1 || how == 2 { set.insert(i); whole(o, "added|", &p, &recs, &set, &mut r)?; }
            if r.chance(1, 3) { let s = canon::snapshot(&p.to_hugr()); kept.push((p.clone(), set.clone(), s)); }
            // any two selections
            for _ in 0..3 {
                let k = r.range(1, 3);
                let s: Vec<usize> = (0..k).map(|_| r.below(recs.len())).collect();
                let c = closure(&recs, &s);
                let bad = clash(&recs, &c);
                let got = space.try_create(s.iter().map(|i| recs[*i].id));
                o.n(if bad { "conflicting selections" } else { "compatible selections" });
                match got {
                    Ok(p) if !bad => whole(o, "", &p, &recs, &c, &mut r)?,
                    Err(InvalidCommit::IncompatibleHistory(id, n)) if bad => { if recs.iter().filter(|x| x.del.contains(&PatchNode(id, n))).count() < 2 { return Err(("conflict named wrongly".into(), format!("{id:?} {n}"))); } }
                    Ok(_) => return Err(("conflicting rewrites accepted".into(), format!("{s:?}"))),
                    Err(e) => return Err((format!("compatible rewrites refused@{}", short(&format!("{e}"))), format!("{s:?}: {e}"))),
                }
            }
            // adding to an existing program
            if let Some(k) = (!kept.is_empty()).then(|| r.below(kept.len())) {
                let j = r.below(recs.len());
                let mut p = kept[k].0.clone();
                let c: BTreeSet<usize> = kept[k].1.union(&recs[j].up).copied().collect();
                let bad = clash(&recs, &c);
                o.n(if bad { "conflicting additions" } else { "compatible additions" });
                let before: BTreeSet<CommitId> = p.all_commit_ids().collect();
                if r.bool() {
                    match p.try_add_commit(recs[j].commit.clone()) {
                        Ok(_) if !bad => { whole(o, "add|", &p, &recs, &c, &mut r)?; if r.bool() { let s = canon::snapshot(&p.to_hugr()); kept.push((p, c, s)); } }
                        Err(InvalidCommit::IncompatibleHistory(..)) if bad => {
                            let after: BTreeSet<CommitId> = p.all_commit_ids().collect();
                            if !after.is_superset(&before) || p.is_valid().is_err() { return Err(("failed addition breaks the program".into(), format!("{:?}", p.is_valid()))); }
                            let now: BTreeSet<usize> = (0..recs.len()).filter(|i| after.contains(&recs[*i].id)).collect();
                            if closure(&recs, &now.iter().copied().collect::<Vec<_>>()) != now { return Err(("failed addition leaves ancestors out".into(), String::new())); }
                        }
                        x => return Err((format!("addition of a {} rewrite: {}", if bad { "conflicting" } else { "compatible" }, if x.is_ok() { "accepted" } else { "refused" }), format!("{x:?}"))),
                    }
                } else if let Some(repl) = recs[j].repl.clone() {
                    // the same rewrite once more: clashes with itself, or its parents are missing
                    let have = recs[j].commit.parents().all(|c| before.contains(&c.id()));
                    let there = have && !repl.subgraph().nodes().iter().any(|n| !p.contains_node(*n));
                    let got = quiet_catch(|| repl.apply(&mut p));
                    let after: BTreeSet<CommitId> = p.all_commit_ids().collect();
                    match got {
                        Ok(Ok(id)) if there => { if !after.contains(&id) || after.len() != before.len() + 1 { return Err(("reapplied".into(), String::new())); } }
                        Ok(Err(_)) if !there => { if after != before { return Err(("failed rewrite changes the program".into(), String::new())); } o.n("stale rewrites refused"); }
                        Ok(Ok(_)) if have => return Err(("a rewrite of missing nodes is accepted".into(), String::new())),
                        Ok(Ok(_)) => { o.n("missing parents included"); if p.is_valid().is_err() { return Err(("reapplied".into(), "not valid".into())); } }
                        Ok(Err(e)) => return Err((format!("a rewrite is refused@{}", short(&format!("{e}"))), String::new())),
                        Err(x) => return Err((format!("reapply panics@{}", x.key()), format!("have parents {have}"))),
                    }
                }
            }
            let _ = step;
        }
        for (p, s, snap) in &kept {
            o.n("older versions compared");
            if canon::snapshot(&p.to_hugr()) != *snap { return Err(("an older version changes".into(), format!("{s:?}"))); }
        }
        if recs.len() > 1 {
            for _ in 0..3 { walk(o, &space, &recs, &mut r)?; }
            let mut ser: SerialCommitStateSpace<Hugr> = space.to_serial();
            for (p, _, _) in &kept { ser.add_hugr(p.clone()); }
            let back = ser.deserialize_into_hugrs();
            o.n("histories stored and loaded");
            if back.len() != kept.len() { return Err(("stored".into(), "number".into())); }
            for (b, (_, set, _)) in back.iter().zip(&kept) { whole(o, "stored|", b, &recs, set, &mut r)?; }
        }
        Ok(())
    });
    if std::env::var("HV_DUMP").is_ok() {
        eprintln!("{}", outline(&h));
        for (i, x) in recs.iter().enumerate().skip(1) { eprintln!("commit {i} {:?} up {:?} del {:?}\n{}", x.id, x.up, x.del, outline(x.repl.as_ref().unwrap().replacement())); }
    }
    o.add("rewrites", recs.len() as u64 - 1);
    o.note(|| format!("base of {} nodes, {} rewrites, of which {} on top of others", h.num_nodes(), recs.len() - 1, recs.iter().filter(|x| x.up.len() > 2).count()));
    match res {
        Ok(Ok(())) => {}
        Ok(Err((k, m))) => o.bad(k, m),
        Err(p) => { if p.harness() { panic!("{}", p.key()) } o.bad(format!("panic|{}", p.key()), p.key()) }
    }
}
pub fn prop() -> Prop {
    Prop { id: "C18", case, rule: "a generated history was built and compared (distinct by the operations of its programs)",
        need: &["views compared", "ports compared", "wires compared", "orders compared", "programs extracted", "regions extracted", "conflicting selections", "compatible selections", "conflicting additions", "compatible additions", "older versions compared", "walker coverage checks", "histories stored and loaded", "stale rewrites refused"],
        quick_s: 22, thorough_s: 400, min_cases: 100, max_cases: 20000 }
}
