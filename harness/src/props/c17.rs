//! Sets of sibling nodes as subgraphs.
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::util::*;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::patch::{Patch, PatchVerification};
use hugr_core::hugr::views::sibling_subgraph::{LineConvexChecker, TopoConvexChecker, ValidationMode};
use hugr_core::hugr::views::{HugrView, RootChecked, SiblingSubgraph};
use hugr_core::ops::handle::{CaseID, DataflowParentID, DfgID, FuncID, TailLoopID};
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::types::EdgeKind;
use hugr_core::{Direction, Hugr, IncomingPort, Node, OutgoingPort, Port, PortIndex};
use std::collections::{BTreeMap, BTreeSet, HashSet};

type In = Vec<Vec<(Node, IncomingPort)>>;
type Out = Vec<(Node, OutgoingPort)>;
/// What a set of siblings looks like from the outside.
struct Seen { convex: bool, multi: bool, ins: In, outs: Out, calls: In, odd: bool, closed: bool, inside_only: bool }

/// Is there a path within the region that leaves the set and comes back?
fn convex(h: &Hugr, parent: Option<Node>, s: &HashSet<Node>) -> bool {
    let mut seen: HashSet<Node> = HashSet::new();
    let mut todo: Vec<Node> = s.iter().flat_map(|n| h.output_neighbours(*n).collect::<Vec<_>>()).filter(|n| !s.contains(n) && h.get_parent(*n) == parent).collect();
    while let Some(n) = todo.pop() {
        if !seen.insert(n) { continue; }
        for t in h.output_neighbours(n) {
            if h.get_parent(t) != parent { continue; }
            if s.contains(&t) { return false; }
            todo.push(t);
        }
    }
    true
}
/// Does some node of the region have several order edges coming in?
fn multi(h: &Hugr, parent: Option<Node>) -> bool { parent.is_some_and(|p| h.children(p).any(|n| h.node_inputs(n).any(|q| h.linked_outputs(n, q).nth(1).is_some()))) }
fn look(h: &Hugr, list: &[Node]) -> Seen {
    let s: HashSet<Node> = list.iter().copied().collect();
    let mut v = Seen { convex: convex(h, h.get_parent(list[0]), &s), multi: multi(h, h.get_parent(list[0])), ins: vec![], outs: vec![], calls: vec![], odd: false, closed: false, inside_only: true };
    let mut calls: BTreeMap<(Node, OutgoingPort), Vec<(Node, IncomingPort)>> = BTreeMap::new();
    let mut touching: HashSet<Node> = HashSet::new();
    let mut done = HashSet::new();
    for n in list {
        if !done.insert(*n) { continue; }
        for p in h.node_inputs(*n) {
            let src: Vec<_> = h.linked_outputs(*n, p).filter(|(m, _)| !s.contains(m)).collect();
            if src.is_empty() { continue; }
            touching.insert(*n);
            match h.get_optype(*n).port_kind(p) {
                Some(EdgeKind::Value(_)) => v.ins.push(vec![(*n, p)]),
                Some(EdgeKind::Function(_)) => calls.entry(src[0]).or_default().push((*n, p)),
                _ => v.odd = true,
            }
        }
    }
    done.clear();
    for n in list {
        if !done.insert(*n) { continue; }
        for p in h.node_outputs(*n) {
            if h.linked_inputs(*n, p).all(|(m, _)| s.contains(&m)) { continue; }
            touching.insert(*n);
            match h.get_optype(*n).port_kind(p) { Some(EdgeKind::Value(_)) => v.outs.push((*n, p)), _ => v.odd = true }
        }
    }
    v.calls = calls.into_values().collect();
    // parts of the set that no boundary port reaches
    let mut reach = touching.clone();
    let mut todo: Vec<Node> = touching.into_iter().collect();
    let cut: HashSet<(Node, Port)> = v.outs.iter().map(|(n, p)| (*n, Port::from(*p))).collect();
    while let Some(n) = todo.pop() { for p in h.all_node_ports(n) { if cut.contains(&(n, p)) { continue; } for (m, q) in h.linked_ports(n, p) { if s.contains(&m) && !cut.contains(&(m, q)) && reach.insert(m) { todo.push(m); } } } }
    v.closed = reach.len() < s.len();
    // edges from outside straight into the contents of a member
    for n in &s { for d in h.descendants(*n).skip(1) { for m in h.input_neighbours(d) {
        let mut a = Some(m);
        while let Some(x) = a { if s.contains(&x) { break; } a = h.get_parent(x); }
        if a.is_none() { v.inside_only = false; }
    } } }
    v
}
fn sort_groups(mut g: In) -> In { for x in &mut g { x.sort(); } g.sort(); g }
fn types(h: &Hugr, sub: &SiblingSubgraph) -> (Vec<String>, Vec<String>) {
    let t = |n: Node, p: Port| match h.get_optype(n).port_kind(p) { Some(EdgeKind::Value(t)) => format!("{t:?}"), k => format!("not a value: {k:?}") };
    (sub.incoming_ports().iter().map(|g| t(g[0].0, g[0].1.into())).collect(), sub.outgoing_ports().iter().map(|(n, p)| t(*n, (*p).into())).collect())
}
/// The outcome of a constructor against what the set looks like.
fn judge(o: &mut Obs, h: &Hugr, list: &[Node], v: &Seen, how: &str, got: Option<Result<SiblingSubgraph, String>>) -> Option<SiblingSubgraph> {
    let got = got?;
    let good = v.convex && !v.odd;
    let how = if v.multi { format!("{how}@several order edges") } else { how.to_string() };
    let how = how.as_str();
    match got {
        Err(e) if good => { o.bad(format!("{how}|rejected"), format!("{list:?} is convex and its boundary consists of values, but: {e}")); None }
        Err(_) => { o.n(if v.convex { "rejected_boundary" } else { "rejected_convexity" }); None }
        Ok(s) if !good => { o.bad(format!("{how}|accepted"), format!("{list:?} accepted although {} ({s:?})", if v.convex { "its boundary has an edge that is neither a value nor a function" } else { "it is not convex" })); None }
        Ok(s) => {
            o.n(format!("accepted:{how}"));
            let set: BTreeSet<Node> = list.iter().copied().collect();
            if s.nodes().iter().copied().collect::<BTreeSet<_>>() != set || s.node_count() != set.len() || s.nodes().len() != set.len() { o.bad(format!("{how}|nodes"), format!("{:?} instead of {set:?}", s.nodes())); return None; }
            if s.incoming_ports() != &v.ins { o.bad(format!("{how}|inputs"), format!("{:?} instead of {:?}", s.incoming_ports(), v.ins)); return None; }
            if s.outgoing_ports() != &v.outs { o.bad(format!("{how}|outputs"), format!("{:?} instead of {:?}", s.outgoing_ports(), v.outs)); return None; }
            if s.function_calls() != &v.calls { o.bad(format!("{how}|calls"), format!("{:?} instead of {:?}", s.function_calls(), v.calls)); return None; }
            if !signature(o, h, how, &s) { return None; }
            if Some(s.get_parent(h)) != h.get_parent(list[0]) { o.bad(format!("{how}|parent"), format!("{}", s.get_parent(h))); return None; }
            Some(s)
        }
    }
}
fn signature(o: &mut Obs, h: &Hugr, how: &str, s: &SiblingSubgraph) -> bool {
    let Some(sig) = o.guard(&format!("{how}:signature"), || s.signature(h)) else { return false };
    let want = types(h, s);
    let got = (sig.input().iter().map(|t| format!("{t:?}")).collect::<Vec<_>>(), sig.output().iter().map(|t| format!("{t:?}")).collect::<Vec<_>>());
    if got != want { o.bad(format!("{how}|signature"), format!("{got:?} instead of {want:?}")); return false; }
    o.n("signatures");
    true
}
/// The subgraph that boundary ports stand for: what is left between them.
fn by_boundary(h: &Hugr, ins: &In, outs: &Out) -> Option<(BTreeSet<Node>, bool)> {
    let cut: HashSet<(Node, Port)> = ins.iter().flatten().map(|(n, p)| (*n, Port::from(*p))).chain(outs.iter().map(|(n, p)| (*n, Port::from(*p)))).collect();
    let parent = h.get_parent(cut.iter().next()?.0)?;
    if cut.iter().any(|(n, _)| h.get_parent(*n) != Some(parent)) { return None; }
    let mut s: HashSet<Node> = cut.iter().map(|(n, _)| *n).collect();
    let mut todo: Vec<Node> = s.iter().copied().collect();
    while let Some(n) = todo.pop() {
        for d in [Direction::Incoming, Direction::Outgoing] { for p in h.node_ports(n, d) {
            if cut.contains(&(n, p)) { continue; }
            for (m, q) in h.linked_ports(n, p) { if !cut.contains(&(m, q)) && h.get_parent(m) == Some(parent) && s.insert(m) { todo.push(m); } }
        } }
    }
    // every crossing edge is at a given port and every given port has one
    let mut ok = ins.iter().all(|g| !g.is_empty()) && ins.iter().flatten().collect::<HashSet<_>>().len() == ins.iter().flatten().count();
    let is_val = |n: Node, p: Port| matches!(h.get_optype(n).port_kind(p), Some(EdgeKind::Value(_)));
    for n in &s { for d in [Direction::Incoming, Direction::Outgoing] { for p in h.node_ports(*n, d) {
        let crosses = h.linked_ports(*n, p).any(|(m, _)| !s.contains(&m));
        if crosses != cut.contains(&(*n, p)) { ok = false; }
        if crosses && !is_val(*n, p) && !(d == Direction::Incoming && matches!(h.get_optype(*n).port_kind(p), Some(EdgeKind::Function(_)))) { ok = false; }
    } } }
    // (calls are grouped anew by what they call)
    for g in ins { if g.iter().all(|(n, p)| matches!(h.get_optype(*n).port_kind(*p), Some(EdgeKind::Function(_)))) { continue; } let src: BTreeSet<_> = g.iter().flat_map(|(n, p)| h.linked_outputs(*n, *p)).collect(); if src.len() > 1 { ok = false; } }
    ok &= convex(h, Some(parent), &s);
    Some((s.into_iter().collect(), ok))
}
fn err<E: std::fmt::Display>(e: E) -> String { e.to_string() }

fn one_set(o: &mut Obs, r: &mut Rng, h: &Hugr, parent: Node, list: &[Node]) {
    let v = look(h, list);
    if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("REGION {parent}, set {list:?} ins {:?} outs {:?} calls {:?} closed {}", v.ins, v.outs, v.calls, v.closed); for n in h.children(parent) { eprintln!("  {n} {} -> {:?}", describe(h.get_optype(n)), h.node_outputs(n).map(|p| h.linked_inputs(n, p).map(|(m, q)| format!("{m}.{}", q.index())).collect::<Vec<_>>()).collect::<Vec<_>>()); } }
    o.n(if v.convex { "convex" } else { "not_convex" });
    if v.odd { o.n("odd_boundary"); }
    let got = o.guard("from_nodes", || SiblingSubgraph::try_from_nodes(list.to_vec(), h).map_err(err));
    let Some(sub) = judge(o, h, list, &v, "from_nodes", got) else { others(o, h, parent, list, &v); return };
    others(o, h, parent, list, &v);
    o.saws(&format!("{:?}{:?}{:?}", list.iter().map(|n| describe(h.get_optype(*n))).collect::<Vec<_>>(), v.ins.len(), v.outs.len()));
    // validation of the accepted subgraph
    {
        let c = TopoConvexChecker::new(h, parent);
        for (m, mode) in [("check", ValidationMode::CheckConvexity), ("with", ValidationMode::WithChecker(&c)), ("skip", ValidationMode::SkipConvexity)] {
            match o.guard("validate", || sub.validate(h, mode)) { None => return, Some(Err(e)) => { o.bad(format!("validate:{m}|rejected"), format!("{list:?}: {e}")); return } Some(Ok(())) => o.n("validated") }
        }
    }
    if v.closed { o.n("closed_part"); }
    // the boundary alone
    if !v.closed && !(v.ins.is_empty() && v.outs.is_empty() && v.calls.is_empty()) {
        let mut ins: In = v.ins.clone();
        if r.bool() {
            // copies of one wire as one input
            let mut g: Vec<(BTreeSet<(Node, OutgoingPort)>, Vec<(Node, IncomingPort)>)> = vec![];
            for x in ins { let s: BTreeSet<_> = h.linked_outputs(x[0].0, x[0].1).collect(); if let Some(e) = g.iter_mut().find(|e| e.0 == s) { e.1.extend(x); o.n("merged_input"); } else { g.push((s, x)); } }
            ins = g.into_iter().map(|x| x.1).collect();
        }
        r.shuffle(&mut ins);
        let mut outs = v.outs.clone();
        r.shuffle(&mut outs);
        let mut all = ins.clone();
        all.extend(v.calls.iter().cloned());
        if r.bool() { r.shuffle(&mut all); }
        let want_ins: In = all.iter().filter(|g| !v.calls.contains(g)).cloned().collect();
        match o.guard("boundary", || SiblingSubgraph::try_new(all.clone(), outs.clone(), h)) {
            None => return,
            Some(Err(e)) => { o.bad("boundary|rejected", format!("{all:?} {outs:?}: {e}")); return }
            Some(Ok(s)) => {
                o.n("accepted:boundary");
                if s.nodes().iter().copied().collect::<BTreeSet<_>>() != list.iter().copied().collect() || s.incoming_ports() != &want_ins || s.outgoing_ports() != &outs || s.function_calls() != &v.calls { o.bad("boundary|differs", format!("{s:?} for inputs {want_ins:?} outputs {outs:?} nodes {list:?} calls {:?}", v.calls)); return; }
                if !signature(o, h, "boundary", &s) { return; }
            }
        }
        // a damaged boundary
        let (mut bi, mut bo) = (all.clone(), outs.clone());
        let x = *r.pick(list);
        match r.below(5) {
            0 => { if !bi.is_empty() { bi.remove(r.below(bi.len())); } }
            1 => { if !bo.is_empty() { bo.remove(r.below(bo.len())); } }
            2 => { if let Some(p) = r.pick_opt(&h.node_inputs(x).collect::<Vec<_>>()) { bi.push(vec![(x, *p)]); } }
            3 => { if let Some(p) = r.pick_opt(&h.node_outputs(x).collect::<Vec<_>>()) { bo.push((x, *p)); } }
            _ => { if bi.len() > 1 { let g = bi.pop().unwrap(); bi[0].extend(g); } }
        }
        if !(bi.is_empty() && bo.is_empty()) {
            if let Some((nodes, ok)) = by_boundary(h, &bi, &bo) {
                match o.guard("damaged", || SiblingSubgraph::try_new(bi.clone(), bo.clone(), h)) {
                    None => return,
                    Some(Ok(s)) if ok => { o.n("damaged_ok"); if s.nodes().iter().copied().collect::<BTreeSet<_>>() != nodes { o.bad("damaged|nodes", format!("{:?} instead of {nodes:?}", s.nodes())); return; } }
                    Some(Err(_)) if !ok => o.n("damaged_rejected"),
                    Some(Ok(s)) => { o.bad("damaged|accepted", format!("inputs {bi:?} outputs {bo:?} do not delimit a convex subgraph, accepted as {s:?}")); return }
                    Some(Err(e)) => { o.bad("damaged|rejected", format!("inputs {bi:?} outputs {bo:?} delimit {nodes:?}, but: {e}")); return }
                }
            }
        }
    }
    // other outputs
    let mut sub2 = sub.clone();
    let mut ports: Out = vec![];
    for _ in 0..r.below(5) { if let Some(p) = r.pick_opt(&v.outs) { ports.push(*p); } }
    if r.chance(1, 5) { let n = *r.pick(list); if let Some(p) = r.pick_opt(&h.node_outputs(n).collect::<Vec<_>>()) { ports.push((n, *p)); } }
    let lin = |n: Node, p: OutgoingPort| match h.get_optype(n).port_kind(p) { Some(EdgeKind::Value(t)) => !crate::props::c01::copyable(&t), _ => false };
    let ok = ports.iter().all(|x| v.outs.contains(x)) && { let l: Vec<_> = ports.iter().filter(|(n, p)| lin(*n, *p)).collect(); l.iter().collect::<HashSet<_>>().len() == l.len() };
    match o.guard("set_outgoing", || sub2.set_outgoing_ports(ports.clone(), h)) {
        None => return,
        Some(Ok(())) if ok => { o.n("outputs_set"); if sub2.outgoing_ports() != &ports || !signature(o, h, "set_outgoing", &sub2) { o.bad("set_outgoing|differs", format!("{sub2:?}")); return; } }
        Some(Err(_)) if !ok => { o.n("outputs_refused"); if sub2 != sub { o.bad("set_outgoing|changed", "a refused change of outputs had an effect"); return; } }
        x => { o.bad("set_outgoing|wrong", format!("{ports:?} of {:?}: {x:?}", v.outs)); return }
    }
    extract(o, h, &sub, &v);
}
/// The extracted program contains exactly the nodes and the edges between them.
fn extract(o: &mut Obs, h: &Hugr, sub: &SiblingSubgraph, v: &Seen) {
    if !v.inside_only { o.n("entered_from_outside"); return; }
    let Some(x) = o.guard("extract", || sub.extract_subgraph(h, "part")) else { return };
    let f = x.entrypoint();
    let OpType::FuncDefn(fd) = x.get_optype(f) else { o.bad("extract|entry", "the extract is not a function"); return };
    if fd.func_name() != "part" || format!("{:?}", fd.signature().body()) != format!("{:?}", sub.signature(h)) { o.bad("extract|signature", format!("{:?} instead of {:?}", fd.signature(), sub.signature(h))); return; }
    let inner: Vec<Node> = sub.nodes().iter().flat_map(|n| h.descendants(*n).collect::<Vec<_>>()).collect();
    let set: HashSet<Node> = inner.iter().copied().collect();
    if x.num_nodes() != inner.len() + 4 { o.bad("extract|count", format!("{} nodes for a subgraph of {}", x.num_nodes(), inner.len())); return; }
    let mut a: Vec<String> = inner.iter().map(|n| describe(h.get_optype(*n))).collect();
    let [xi, xo] = x.get_io(f).unwrap();
    let mut b: Vec<String> = x.descendants(f).skip(1).filter(|n| *n != xi && *n != xo).map(|n| describe(x.get_optype(n))).collect();
    a.sort(); b.sort();
    if a != b { o.bad("extract|ops", format!("{a:?} became {b:?}")); return; }
    let links = |h: &Hugr, ns: &mut dyn Iterator<Item = Node>, keep: &dyn Fn(Node) -> bool| { let mut l: Vec<String> = vec![]; for n in ns { for p in h.node_outputs(n) { for (m, q) in h.linked_inputs(n, p) { if keep(m) { l.push(format!("{} {} -> {} {}", describe(h.get_optype(n)), p.index(), describe(h.get_optype(m)), q.index())); } } } } l.sort(); l };
    let la = links(h, &mut inner.iter().copied(), &|m| set.contains(&m));
    let lb = links(&x, &mut x.descendants(f).skip(1).filter(|n| *n != xi && *n != xo), &|m| m != xo);
    if la != lb { o.bad("extract|links", format!("{la:?} became {lb:?}")); return; }
    // the boundary is wired in order
    for (i, g) in sub.incoming_ports().iter().enumerate() {
        let mut w: Vec<String> = g.iter().map(|(n, p)| format!("{} {}", describe(h.get_optype(*n)), p.index())).collect();
        let mut t: Vec<String> = x.linked_inputs(xi, OutgoingPort::from(i)).map(|(n, p)| format!("{} {}", describe(x.get_optype(n)), p.index())).collect();
        w.sort(); t.sort();
        if w != t { o.bad("extract|input", format!("input {i} leads to {t:?} instead of {w:?}")); return; }
    }
    for (i, (n, p)) in sub.outgoing_ports().iter().enumerate() {
        let t: Vec<String> = x.linked_outputs(xo, IncomingPort::from(i)).map(|(n, p)| format!("{} {}", describe(x.get_optype(n)), p.index())).collect();
        if t != [format!("{} {}", describe(h.get_optype(*n)), p.index())] { o.bad("extract|output", format!("output {i} is {t:?} instead of {} {}", describe(h.get_optype(*n)), p.index())); return; }
    }
    o.n("extracted");
}
/// The other ways to make a subgraph from a list of nodes.
fn others(o: &mut Obs, h: &Hugr, parent: Node, list: &[Node], v: &Seen) {
    let c = TopoConvexChecker::new(h, parent);
    let got = o.guard("with_checker", || SiblingSubgraph::try_from_nodes_with_checker(list.to_vec(), h, &c).map_err(err));
    judge(o, h, list, v, "with_checker", got);
    let mut uniq: Vec<Node> = vec![];
    for n in list { if !uniq.contains(n) { uniq.push(*n); } }
    let l = LineConvexChecker::new(h, parent);
    let Some(iv) = o.guard(if v.multi { "intervals@several order edges" } else { "intervals" }, || l.get_intervals_from_nodes(uniq.iter().copied())) else { return };
    let got = match iv {
        None => Some(Err("the nodes do not form intervals".to_string())),
        Some(iv) => {
            // every node of the set lies in its intervals
            let inside: HashSet<Node> = l.nodes_in_intervals(&iv).collect();
            if let Some(n) = uniq.iter().find(|n| !inside.contains(n) && h.all_neighbours(**n).any(|m| h.get_parent(m) == Some(parent))) { o.bad("intervals|lost", format!("{n} is not in the intervals of {uniq:?}")); return; }
            // one node more
            let mut ext = iv.clone();
            if let Some(n) = uniq.first() { let mut part = l.get_intervals_from_nodes(uniq[1..].iter().copied()); if let Some(pi) = &mut part { if l.try_extend_intervals(pi, *n) { ext = pi.clone(); o.n("extended"); let a: HashSet<Node> = l.nodes_in_intervals(&ext).collect(); if a != inside { o.bad("intervals|extended", format!("extending by {n} gives {a:?}, all at once {inside:?}")); return; } } } }
            o.guard("with_intervals", || SiblingSubgraph::try_from_nodes_with_intervals(uniq.clone(), &iv, &l).map_err(err))
        }
    };
    judge(o, h, &uniq, v, "with_intervals", got);
    if let [n] = uniq[..] {
        let order = h.get_optype(n);
        let has = [(Direction::Incoming, order.other_input_port().map(Port::from)), (Direction::Outgoing, order.other_output_port().map(Port::from))].into_iter().any(|(_, p)| p.is_some_and(|p| h.is_linked(n, p)));
        if !has && !v.odd {
            if let Some(s) = o.guard("from_node", || SiblingSubgraph::from_node(n, h)) {
                let outs: Out = h.node_outputs(n).filter(|p| matches!(h.get_optype(n).port_kind(*p), Some(EdgeKind::Value(_)))).map(|p| (n, p)).collect();
                if s.nodes() != [n] || s.incoming_ports() != &v.ins || s.outgoing_ports() != &outs || s.function_calls() != &v.calls { o.bad("from_node|differs", format!("{s:?}")); } else { o.n("accepted:from_node"); signature(o, h, "from_node", &s); }
            }
        }
    }
}
/// A whole region.
fn region(o: &mut Obs, h: &Hugr, parent: Node) {
    let mut g = h.clone();
    g.set_entrypoint(parent);
    let got = match g.get_optype(parent) {
        OpType::DFG(_) => o.guard("region", || SiblingSubgraph::try_new_dataflow_subgraph(RootChecked::<_, DfgID>::try_new(&g).unwrap())),
        OpType::FuncDefn(_) => o.guard("region", || SiblingSubgraph::try_new_dataflow_subgraph(RootChecked::<_, FuncID<true>>::try_new(&g).unwrap())),
        OpType::Case(_) => o.guard("region", || SiblingSubgraph::try_new_dataflow_subgraph(RootChecked::<_, CaseID>::try_new(&g).unwrap())),
        OpType::TailLoop(_) => o.guard("region", || SiblingSubgraph::try_new_dataflow_subgraph(RootChecked::<_, TailLoopID>::try_new(&g).unwrap())),
        OpType::DataflowBlock(_) => { o.guard("region", || SiblingSubgraph::try_new_dataflow_subgraph(RootChecked::<_, DataflowParentID>::try_new(&g).unwrap())) }
        _ => return,
    };
    let Some(got) = got else { return };
    let [i, t] = g.get_io(parent).unwrap();
    let nodes: Vec<Node> = g.children(parent).skip(2).collect();
    if nodes.is_empty() { if got.is_ok() { o.bad("region|empty", "an empty subgraph"); } else { o.n("region_empty"); } return; }
    let v = look(&g, &nodes);
    let mut ins: In = vec![];
    for p in g.node_outputs(i) { if !matches!(g.get_optype(i).port_kind(p), Some(EdgeKind::Value(_))) { continue; } let l: Vec<_> = g.linked_inputs(i, p).filter(|(n, _)| *n != t).collect(); if !l.is_empty() { ins.push(l); } }
    let outs: Out = g.node_inputs(t).filter(|p| matches!(g.get_optype(t).port_kind(*p), Some(EdgeKind::Value(_)))).filter_map(|p| g.linked_outputs(t, p).find(|(n, _)| *n != i)).collect();
    let foreign = nodes.iter().chain([&i, &t]).any(|n| g.node_inputs(*n).any(|p| g.linked_outputs(*n, p).any(|(m, _)| g.get_parent(m) != Some(parent)) && !matches!(g.get_optype(*n).port_kind(p), Some(EdgeKind::Function(_)))) || g.node_outputs(*n).any(|p| g.linked_inputs(*n, p).any(|(m, _)| g.get_parent(m) != Some(parent))));
    let ok = !v.odd && !foreign && g.get_optype(i).other_output_port().is_none_or(|p| !g.is_linked(i, p)) && g.get_optype(t).other_input_port().is_none_or(|p| !g.is_linked(t, p)) && ins.iter().flatten().all(|(n, _)| nodes.contains(n));
    match got {
        Ok(s) if ok => {
            o.n("accepted:region");
            if s.nodes() != nodes || sort_groups(s.incoming_ports().clone()) != sort_groups(ins.clone()) || s.incoming_ports().len() != ins.len() || s.outgoing_ports() != &outs || s.function_calls() != &v.calls { o.bad("region|differs", format!("{s:?}, want inputs {ins:?} outputs {outs:?} calls {:?}", v.calls)); return; }
            for (a, b) in s.incoming_ports().iter().zip(&ins) { if a.iter().collect::<HashSet<_>>() != b.iter().collect::<HashSet<_>>() { o.bad("region|input order", format!("{:?} instead of {ins:?}", s.incoming_ports())); return; } }
            if signature(o, &g, "region", &s) { extract(o, &g, &s, &v); }
        }
        Err(_) if !ok => o.n("region_rejected"),
        Ok(s) => o.bad("region|accepted", format!("{s:?}")),
        Err(e) => o.bad("region|rejected", format!("{e}")),
    }
}
fn subset(r: &mut Rng, h: &Hugr, all: &[Node]) -> Vec<Node> {
    let mut s: Vec<Node> = vec![*r.pick(all)];
    match r.below(4) {
        0 => { for n in all { if r.chance(1, 3) { s.push(*n); } } }
        1 => { let a = r.below(all.len()); let b = r.range(a, all.len() - 1); s = all[a..=b].to_vec(); }
        _ => { let k = if r.bool() { 4 } else { 12 }; for _ in 0..r.below(k) { let x = *r.pick(&s); let nb: Vec<Node> = h.all_neighbours(x).filter(|y| all.contains(y)).collect(); if let Some(y) = r.pick_opt(&nb) { s.push(*y); } } }
    }
    let dup = r.chance(1, 4);
    let mut u: Vec<Node> = vec![];
    for n in s { if dup || !u.contains(&n) { u.push(n); } }
    r.shuffle(&mut u);
    u
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 17);
    let cfg = Cfg { size: if o.thorough { *r.pick(&[20, 60, 150]) } else { *r.pick(&[12, 30, 70]) }, ..Cfg::default() }.vary(&mut r);
    let Some(p) = prog(o, seed, idx, &dev_cfg(cfg)) else { return };
    let h = &p.hugr;
    let parents: Vec<Node> = h.descendants(h.module_root()).filter(|n| OpTag::DataflowParent.is_superset(h.get_optype(*n).tag()) && h.children(*n).count() > 2).collect();
    for _ in 0..6 {
        let Some(parent) = r.pick_opt(&parents).copied() else { return };
        let all: Vec<Node> = h.children(parent).skip(if r.chance(1, 12) { 0 } else { 2 }).collect();
        let s = subset(&mut r, h, &all);
        one_set(o, &mut r, h, parent, &s);
        // nodes of several regions
        if r.chance(1, 8) {
            let mut s = s.clone();
            let other = *r.pick(&parents);
            if other != parent { if let Some(n) = h.children(other).nth(2) {
                s.push(n);
                r.shuffle(&mut s);
                let mixed = look(h, &s);
                { let _ = mixed; match o.guard("mixed", || SiblingSubgraph::try_from_nodes(s.clone(), h)) { Some(Ok(x)) => o.bad("mixed|accepted", format!("{x:?} has nodes of several regions")), Some(Err(_)) => o.n("mixed_rejected"), None => {} } }
            } }
        }
        region(o, h, parent);
        if !o.viol.is_empty() { return; }
    }
    // replacing parts by themselves
    let ins = inputs(&p.ins, &mut r, 3);
    let want = reference(o, h, p.main, &ins, 30_000);
    let mut g = h.clone();
    let mut done = 0;
    for _ in 0..12 {
        let parents: Vec<Node> = g.descendants(g.module_root()).filter(|n| OpTag::DataflowParent.is_superset(g.get_optype(*n).tag()) && g.children(*n).count() > 2).collect();
        let parent = *r.pick(&parents);
        let all: Vec<Node> = g.children(parent).skip(2).filter(|n| g.children(*n).next().is_none() && *n != g.entrypoint()).collect();
        if all.is_empty() { continue; }
        let s = subset(&mut r, &g, &all);
        let Ok(mut sub) = SiblingSubgraph::try_from_nodes(s, &g) else { continue };
        if !sub.function_calls().is_empty() || sub.outgoing_ports().is_empty() && r.bool() { continue; }
        let mut outs = sub.outgoing_ports().clone();
        r.shuffle(&mut outs);
        if sub.set_outgoing_ports(outs, &g).is_err() { continue; }
        let x = sub.extract_subgraph(&g, "part");
        let Some(rep) = o.guard("self_replacement", || sub.create_simple_replacement(&g, x)) else { return };
        let rep = match rep { Ok(x) => x, Err(e) => { o.bad("self_replacement|refused", format!("{sub:?}: {e}")); return } };
        if let Err(e) = rep.verify(&g) { o.bad("self_replacement|verify", format!("{sub:?}: {e}")); return; }
        match o.guard("self_replacement", || rep.apply(&mut g)) { None => return, Some(Err(e)) => { o.bad("self_replacement|apply", format!("{e}")); return } Some(Ok(_)) => { done += 1; o.n("self_replaced"); } }
    }
    if done > 0 {
        if g.num_nodes() != h.num_nodes() { o.bad("self_replacement|count", format!("{} nodes instead of {}", g.num_nodes(), h.num_nodes())); return; }
        if check_valid(o, "self_replacement", &g) && !want.is_empty() { same(o, "self_replacement", &g, p.main, &want, |x| x.clone()); }
    }
    o.note(|| format!("program of {} nodes, {done} parts replaced by themselves", h.num_nodes()));
}
pub fn prop() -> Prop {
    Prop { id: "C17", case, rule: "a set of siblings was accepted and its boundary compared (distinct by operations and boundary)", need: &["accepted:from_nodes", "accepted:with_checker", "accepted:with_intervals", "accepted:boundary", "accepted:from_node", "accepted:region", "rejected_convexity", "rejected_boundary", "validated", "closed_part", "damaged_ok", "damaged_rejected", "merged_input", "outputs_set", "outputs_refused", "extracted", "mixed_rejected", "region_rejected", "extended", "self_replaced", "compared_runs", "odd_boundary"], quick_s: 20, thorough_s: 400, min_cases: 100, max_cases: 20000 }
}
