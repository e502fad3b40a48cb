//! Every view of a program shows the same graph.
#![allow(deprecated)]
use crate::canon::{cmp_op, snapshot};
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::util::*;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals, PortgraphNodeMap};
use hugr_core::hugr::views::render::{MermaidFormatter, NodeLabel};
use hugr_core::hugr::views::{ExtractionResult, HugrView};
use hugr_core::module_graph::{ModuleGraph, StaticEdge, StaticNode};
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::types::EdgeKind;
use hugr_core::{Direction, Hugr, IncomingPort, Node, NodeIndex, OutgoingPort, Port, PortIndex};
use std::collections::{BTreeMap, BTreeSet, HashMap};

/// The lists of nodes and edges, kept apart from the program.
#[derive(Clone, Default, Debug)]
struct Model { parent: BTreeMap<Node, Option<Node>>, kids: BTreeMap<Node, Vec<Node>>, ports: BTreeMap<Node, [usize; 2]>, edges: Vec<(Node, usize, Node, usize)> }
impl Model {
    fn read(h: &Hugr) -> Model {
        let mut m = Model::default();
        for n in h.nodes() {
            m.parent.insert(n, h.get_parent(n)); m.kids.insert(n, h.children(n).collect());
            m.ports.insert(n, [h.num_inputs(n), h.num_outputs(n)]);
            for p in 0..h.num_outputs(n) { for (t, q) in h.linked_ports(n, OutgoingPort::from(p)) { m.edges.push((n, p, t, q.index())); } }
        }
        m.edges.sort(); m
    }
    fn down(&self, n: Node) -> Vec<Node> { let mut v = vec![n]; let mut i = 0; while i < v.len() { v.extend(self.kids[&v[i]].iter().copied()); i += 1; } v }
    fn out(&self, n: Node, p: usize) -> Vec<(Node, usize)> { self.edges.iter().filter(|e| e.0 == n && e.1 == p).map(|e| (e.2, e.3)).collect() }
    fn inc(&self, n: Node, p: usize) -> Vec<(Node, usize)> { self.edges.iter().filter(|e| e.2 == n && e.3 == p).map(|e| (e.0, e.1)).collect() }
}
fn sorted<T: Ord>(i: impl IntoIterator<Item = T>) -> Vec<T> { let mut v: Vec<T> = i.into_iter().collect(); v.sort(); v }

macro_rules! want { ($o:ident, $view:expr, $what:expr, $n:expr, $got:expr, $exp:expr) => {{ let (g, e) = ($got, $exp); $o.n("queries"); if g != e { $o.bad(format!("{}|{}", $view, $what), format!("{} of {} in the {} view: {:?}, but the lists say {:?}", $what, $n, $view, g, e)); return false; } }} }

/// All queries of one view against the lists.
fn queries<H: HugrView<Node = Node>>(o: &mut Obs, view: &str, h: &H, m: &Model, entry: Node, nodes: &[Node]) -> bool {
    want!(o, view, "entrypoint", "the view", h.entrypoint(), entry);
    want!(o, view, "nodes", "the view", sorted(h.nodes()), m.parent.keys().copied().collect::<Vec<_>>());
    want!(o, view, "number of nodes", "the view", h.num_nodes(), m.parent.len());
    want!(o, view, "number of edges", "the view", h.num_edges(), m.edges.len());
    want!(o, view, "module root", "the view", m.parent[&h.module_root()], None);
    want!(o, view, "entry descendants", "the view", h.entry_descendants().collect::<Vec<_>>(), m.down(entry));
    want!(o, view, "entrypoint operation", "the view", h.entrypoint_optype() as *const _ as usize, h.get_optype(entry) as *const _ as usize);
    for &n in nodes {
        want!(o, view, "parent", n, h.get_parent(n), m.parent[&n]);
        want!(o, view, "presence", n, h.contains_node(n), true);
        want!(o, view, "children", n, h.children(n).collect::<Vec<_>>(), m.kids[&n].clone());
        want!(o, view, "children from the back", n, h.children(n).rev().collect::<Vec<_>>(), m.kids[&n].iter().rev().copied().collect::<Vec<_>>());
        want!(o, view, "first child", n, h.first_child(n), m.kids[&n].first().copied());
        want!(o, view, "descendants", n, h.descendants(n).collect::<Vec<_>>(), m.down(n));
        let [i, u] = m.ports[&n];
        want!(o, view, "number of ports", n, [h.num_inputs(n), h.num_outputs(n), h.num_ports(n, Direction::Incoming), h.num_ports(n, Direction::Outgoing)], [i, u, i, u]);
        want!(o, view, "input ports", n, h.node_inputs(n).collect::<Vec<_>>(), (0..i).map(IncomingPort::from).collect::<Vec<_>>());
        want!(o, view, "output ports", n, h.node_outputs(n).collect::<Vec<_>>(), (0..u).map(OutgoingPort::from).collect::<Vec<_>>());
        want!(o, view, "all ports", n, h.all_node_ports(n).collect::<Vec<_>>(), (0..i).map(|x| Port::from(IncomingPort::from(x))).chain((0..u).map(|x| Port::from(OutgoingPort::from(x)))).collect::<Vec<_>>());
        let mut links: [Vec<(Node, usize)>; 2] = [vec![], vec![]];
        for (d, k) in [(Direction::Incoming, i), (Direction::Outgoing, u)] {
            for p in 0..k {
                let e = if d == Direction::Incoming { m.inc(n, p) } else { m.out(n, p) };
                let port = Port::new(d, p);
                want!(o, view, "linked ports", format!("{n} {port}"), sorted(h.linked_ports(n, port).map(|(x, q)| (x, q.index()))), e.clone());
                want!(o, view, "direction of linked ports", format!("{n} {port}"), h.linked_ports(n, port).all(|(_, q)| q.direction() == d.reverse()), true);
                want!(o, view, "being linked", format!("{n} {port}"), h.is_linked(n, port), !e.is_empty());
                want!(o, view, "single linked port", format!("{n} {port}"), h.single_linked_port(n, port).map(|(x, q)| (x, q.index())), if e.len() == 1 { Some(e[0]) } else { None });
                if d == Direction::Incoming {
                    want!(o, view, "linked outputs", format!("{n} {port}"), sorted(h.linked_outputs(n, p).map(|(x, q)| (x, q.index()))), e.clone());
                    want!(o, view, "single linked output", format!("{n} {port}"), h.single_linked_output(n, p).map(|(x, q)| (x, q.index())), if e.len() == 1 { Some(e[0]) } else { None });
                } else {
                    want!(o, view, "linked inputs", format!("{n} {port}"), sorted(h.linked_inputs(n, p).map(|(x, q)| (x, q.index()))), e.clone());
                    want!(o, view, "single linked input", format!("{n} {port}"), h.single_linked_input(n, p).map(|(x, q)| (x, q.index())), if e.len() == 1 { Some(e[0]) } else { None });
                }
                links[(d == Direction::Outgoing) as usize].extend(e);
            }
        }
        let [li, lo] = links;
        want!(o, view, "all linked outputs", n, sorted(h.all_linked_outputs(n).map(|(x, q)| (x, q.index()))), sorted(li.clone()));
        want!(o, view, "all linked inputs", n, sorted(h.all_linked_inputs(n).map(|(x, q)| (x, q.index()))), sorted(lo.clone()));
        let (ni, no) = (sorted(li.iter().map(|x| x.0)), sorted(lo.iter().map(|x| x.0)));
        want!(o, view, "input neighbours", n, sorted(h.input_neighbours(n)), ni.clone());
        want!(o, view, "output neighbours", n, sorted(h.output_neighbours(n)), no.clone());
        want!(o, view, "all neighbours", n, sorted(h.all_neighbours(n)), sorted(ni.iter().filter(|x| **x != n).chain(&no).copied())); // a link to itself counts once
        for t in no.iter().copied().collect::<BTreeSet<_>>().into_iter().chain([n, nodes[0]]) {
            let e = sorted(m.edges.iter().filter(|e| e.0 == n && e.2 == t).map(|e| [Port::from(OutgoingPort::from(e.1)), Port::from(IncomingPort::from(e.3))]));
            want!(o, view, "connections", format!("{n} to {t}"), sorted(h.node_connections(n, t)), e);
        }
        let op = h.get_optype(n);
        let io = if OpTag::DataflowParent.is_superset(op.tag()) && m.kids[&n].len() >= 2 { Some([m.kids[&n][0], m.kids[&n][1]]) } else { None };
        want!(o, view, "input and output", n, h.get_io(n), io);
        want!(o, view, "source of the static input", n, h.static_source(n), op.static_input_port().and_then(|p| m.inc(n, p.index()).first().map(|x| x.0)));
        want!(o, view, "targets of the static output", n, h.static_targets(n).map(|t| sorted(t.map(|(x, q)| (x, q.index())))), op.static_output_port().map(|p| m.out(n, p.index())));
        for (d, k) in [(Direction::Incoming, i), (Direction::Outgoing, u)] {
            let e: Vec<(Port, hugr_core::types::Type)> = (0..k).filter_map(|p| match op.port_kind(Port::new(d, p)) { Some(EdgeKind::Value(t)) => Some((Port::new(d, p), t)), _ => None }).collect();
            want!(o, view, "value types", n, h.value_types(n, d).collect::<Vec<_>>(), e);
        }
    }
    true
}
/// The graph as seen by petgraph and its algorithms.
fn petgraph_view(o: &mut Obs, h: &Hugr, m: &Model, r: &mut Rng) -> bool {
    use petgraph::visit::*;
    let g = h.as_petgraph();
    want!(o, "petgraph", "number of nodes", "the view", g.node_count(), m.parent.len());
    want!(o, "petgraph", "number of edges", "the view", g.edge_count(), m.edges.len());
    for n in m.parent.keys() {
        want!(o, "petgraph", "index below the bound", n, g.to_index(*n) < g.node_bound(), true);
        want!(o, "petgraph", "node of the index", n, g.from_index(g.to_index(*n)), *n);
        want!(o, "petgraph", "neighbours", n, sorted(g.neighbors(*n)), sorted(m.edges.iter().filter(|e| e.0 == *n).map(|e| e.2)));
        want!(o, "petgraph", "incoming neighbours", n, sorted(g.neighbors_directed(*n, petgraph::Direction::Incoming)), sorted(m.edges.iter().filter(|e| e.2 == *n).map(|e| e.0)));
    }
    want!(o, "petgraph", "node identifiers", "the view", sorted(g.node_identifiers()), m.parent.keys().copied().collect::<Vec<_>>());
    want!(o, "petgraph", "node references", "the view", sorted(g.node_references().map(|x| x.id())), m.parent.keys().copied().collect::<Vec<_>>());
    let adj = g.adjacency_matrix();
    let ns: Vec<Node> = m.parent.keys().copied().collect();
    for _ in 0..40 { let (a, b) = (*r.pick(&ns), *r.pick(&ns)); want!(o, "petgraph", "adjacency", format!("{a} and {b}"), g.is_adjacent(&adj, a, b), m.edges.iter().any(|e| e.0 == a && e.2 == b)); }
    for e in &m.edges { want!(o, "petgraph", "adjacency", format!("{} and {}", e.0, e.2), g.is_adjacent(&adj, e.0, e.2), true); }
    // an algorithm that uses the indices
    let Some(scc) = o.guard("petgraph:scc", || petgraph::algo::tarjan_scc(g)) else { return false };
    let reach = |a: Node| { let mut s: BTreeSet<Node> = [a].into(); let mut q = vec![a]; while let Some(x) = q.pop() { for e in m.edges.iter().filter(|e| e.0 == x) { if s.insert(e.2) { q.push(e.2); } } } s };
    let rs: BTreeMap<Node, BTreeSet<Node>> = if ns.len() <= 250 { ns.iter().map(|n| (*n, reach(*n))).collect() } else { BTreeMap::new() };
    if !rs.is_empty() {
        let comp: HashMap<Node, usize> = scc.iter().enumerate().flat_map(|(i, c)| c.iter().map(move |n| (*n, i))).collect();
        want!(o, "petgraph", "strongly connected components", "the view", comp.len(), ns.len());
        for a in &ns { for b in &ns { let e = rs[a].contains(b) && rs[b].contains(a); want!(o, "petgraph", "strongly connected components", format!("{a} and {b}"), comp[a] == comp[b], e); } }
        let a = *r.pick(&ns);
        let Some(seen) = o.guard("petgraph:dfs", || { let mut d = Dfs::new(g, a); let mut s = BTreeSet::new(); while let Some(x) = d.next(g) { s.insert(x); } s }) else { return false };
        want!(o, "petgraph", "nodes reached", a, &seen, &rs[&a]);
    }
    true
}
fn regions<H: HugrView<Node = Node>>(o: &mut Obs, h: &H, m: &Model, nodes: &[Node]) -> bool {
    use portgraph::{LinkView, PortView};
    for &n in nodes {
        let kids: BTreeSet<Node> = m.kids[&n].iter().copied().collect();
        let (g, map) = h.region_portgraph(n);
        want!(o, "region", "nodes", n, g.nodes_iter().map(|x| map.from_portgraph(x)).collect::<BTreeSet<_>>(), kids.clone());
        want!(o, "region", "number of nodes", n, g.node_count(), kids.len());
        let mut es = vec![];
        for x in g.nodes_iter() { for p in g.outputs(x) { for (_, l) in g.port_links(p) { let lp: portgraph::PortIndex = l.into(); es.push((map.from_portgraph(x), g.port_offset(p).unwrap().index(), map.from_portgraph(g.port_node(lp).unwrap()), g.port_offset(lp).unwrap().index())); } } }
        want!(o, "region", "edges", n, sorted(es), m.edges.iter().filter(|e| kids.contains(&e.0) && kids.contains(&e.2)).copied().collect::<Vec<_>>());
        for k in &kids { want!(o, "region", "neighbours", k, sorted(g.output_neighbours(map.to_portgraph(*k)).map(|x| map.from_portgraph(x))), sorted(m.edges.iter().filter(|e| e.0 == *k && kids.contains(&e.2)).map(|e| e.2))); }
        o.n("regions");
    }
    true
}
/// Call and module graphs: who uses which function or constant, by which node.
fn uses(o: &mut Obs, h: &Hugr) -> bool {
    use petgraph::visit::EdgeRef;
    let root = h.module_root();
    let extra = if h.entrypoint() != root && h.get_parent(h.entrypoint()) != Some(root) { Some(h.entrypoint()) } else { None };
    let holders: Vec<Node> = h.children(root).chain(extra).collect();
    for consts in [false, true] {
        let mut exp: Vec<(Node, u8, Node, Node)> = vec![];
        for f in &holders { for u in h.descendants(*f).skip(1) {
            let k = match h.get_optype(u) { OpType::Call(_) => 0, OpType::LoadFunction(_) => 1, OpType::LoadConstant(_) if consts => 2, _ => continue };
            for p in h.node_inputs(u) { if matches!(h.get_optype(u).port_kind(p), Some(EdgeKind::Function(_) | EdgeKind::Const(_))) { for (t, _) in h.linked_outputs(u, p) { if h.get_parent(t) == Some(root) { exp.push((*f, k, u, t)); } } } }
        } }
        exp.sort();
        let shown: BTreeSet<Node> = holders.iter().copied().filter(|n| Some(*n) == extra || matches!(h.get_optype(*n), OpType::FuncDefn(_) | OpType::FuncDecl(_)) || (consts && h.get_optype(*n).is_const())).collect();
        let mut got: Vec<(Node, u8, Node, Node)> = vec![];
        let mut nodes = BTreeSet::new();
        if consts {
            let Some(g) = o.guard("module graph", || ModuleGraph::new(h)) else { return false };
            let name = |w: &StaticNode<Node>| match w { StaticNode::FuncDecl(n) | StaticNode::FuncDefn(n) | StaticNode::Const(n) => *n, StaticNode::NonFuncEntrypoint => h.entrypoint(), _ => root };
            for i in g.graph().node_indices() {
                let w = g.graph().node_weight(i).unwrap(); let n = name(w);
                let fits = match w { StaticNode::FuncDecl(n) => h.get_optype(*n).is_func_decl(), StaticNode::FuncDefn(n) => h.get_optype(*n).is_func_defn(), StaticNode::Const(n) => h.get_optype(*n).is_const(), _ => extra.is_some() };
                want!(o, "module graph", "kind of node", n, fits, true);
                want!(o, "module graph", "index", n, g.node_index(n), Some(i));
                want!(o, "module graph", "node shown once", n, nodes.insert(n), true);
                let e = |w: &StaticEdge<Node>| match w { StaticEdge::Call(n) => (0, *n), StaticEdge::LoadFunction(n) => (1, *n), StaticEdge::LoadConstant(n) => (2, *n), _ => (9, root) };
                for (w, t) in g.out_edges(n) { let (k, u) = e(w); got.push((n, k, u, name(t))); }
                want!(o, "module graph", "uses of", n, sorted(g.in_edges(n).map(|(s, w)| { let (k, u) = e(w); (name(s), k, u, n) })), exp.iter().filter(|e| e.3 == n).copied().collect::<Vec<_>>());
            }
            want!(o, "module graph", "nodes", "the program", nodes, shown);
            want!(o, "module graph", "uses", "the program", sorted(got), exp);
        } else {
            #[allow(deprecated)] use hugr_passes::call_graph::*;
            let Some(g) = o.guard("call graph", || CallGraph::new(h)) else { return false };
            let name = |w: &CallGraphNode<Node>| match w { CallGraphNode::FuncDecl(n) | CallGraphNode::FuncDefn(n) => *n, CallGraphNode::NonFuncRoot => h.entrypoint() };
            for i in g.graph().node_indices() {
                let w = g.graph().node_weight(i).unwrap(); let n = name(w);
                let fits = match w { CallGraphNode::FuncDecl(n) => h.get_optype(*n).is_func_decl(), CallGraphNode::FuncDefn(n) => h.get_optype(*n).is_func_defn(), _ => extra.is_some() };
                want!(o, "call graph", "kind of node", n, fits, true);
                want!(o, "call graph", "index", n, g.node_index(n), Some(i));
                want!(o, "call graph", "node shown once", n, nodes.insert(n), true);
                for e in g.graph().edges(i) { let (k, u) = match e.weight() { CallGraphEdge::Call(n) => (0, *n), CallGraphEdge::LoadFunction(n) => (1, *n) }; got.push((n, k, u, name(g.graph().node_weight(e.target()).unwrap()))); }
            }
            want!(o, "call graph", "nodes", "the program", nodes, shown);
            want!(o, "call graph", "uses", "the program", sorted(got), exp.clone());
        }
        o.n("use_graphs");
        if extra.is_some() { o.n("use_graphs_with_other_entrypoint"); }
    }
    true
}
fn title(h: &Hugr, n: Node) -> String { match h.get_optype(n) { OpType::FuncDecl(f) => format!("FuncDecl: \"{}\"", f.func_name()), OpType::FuncDefn(f) => format!("FuncDefn: \"{}\"", f.func_name()), op => op.to_string() } }
/// Diagrams: each node once, inside its parent, under its name; each edge once, with its ports and type.
fn mermaid(o: &mut Obs, h: &Hugr, m: &Model, r: &mut Rng) -> bool {
    let (labels, ports, types) = (r.below(3), r.bool(), r.bool());
    let ns: Vec<Node> = m.parent.keys().copied().collect();
    let mark = if r.bool() { Some(*r.pick(&ns)) } else { None };
    let custom: HashMap<Node, String> = ns.iter().filter(|_| r.bool()).map(|n| (*n, format!("node<{}>", n.index()))).collect();
    let plain = r.chance(1, 3);
    let through = *r.pick(&ns);
    let text = o.guard("mermaid", || {
        let l = match labels { 0 => NodeLabel::Numeric, 1 => NodeLabel::None, _ => NodeLabel::Custom(custom.clone()) };
        if plain { return if r.bool() { h.mermaid_string() } else { h.with_entrypoint(h.entrypoint()).mermaid_string() }; }
        if r.bool() { MermaidFormatter::new(h).with_node_labels(l).with_port_offsets(ports).with_type_labels(types).with_entrypoint(mark).finish() }
        else { let v = h.with_entrypoint(through); MermaidFormatter::new(&v).with_node_labels(l).with_port_offsets(ports).with_type_labels(types).with_entrypoint(mark).finish() }
    });
    let Some(text) = text else { return false };
    let (labels, ports, types, mark) = if plain { (0, true, true, Some(h.entrypoint())) } else { (labels, ports, types, mark) };
    let enc = |s: &str| s.replace('"', "#quot;").replace('\n', "<br>");
    let label = |n: Node| {
        let t = if Some(n) == mark { format!("[**{}**]", title(h, n)) } else { title(h, n) };
        enc(&match labels { 0 => format!("({}) {t}", n.index()), 1 => t, _ => format!("({}) {t}", custom.get(&n).cloned().unwrap_or(n.index().to_string())) })
    };
    let mut nodes: BTreeMap<Node, Option<Node>> = BTreeMap::new(); let mut edges: Vec<(Node, Node, String)> = vec![]; let mut marked = vec![];
    let mut stack: Vec<Node> = vec![];
    let byid: HashMap<usize, Node> = ns.iter().map(|n| (n.index(), *n)).collect();
    let node = |s: &str| s.parse::<usize>().ok().and_then(|i| byid.get(&i).copied());
    for (k, line) in text.split('\n').enumerate() {
        let l = line.trim_start_matches(' ');
        if k == 0 || l.is_empty() || l == "direction LR" { continue; }
        if l == "end" { if stack.pop().is_none() { o.bad("mermaid|unbalanced", "the diagram closes a region that is not open"); return false; } continue; }
        if let Some(s) = l.strip_prefix("style ") { marked.push(node(s.split(' ').next().unwrap())); continue; }
        let (sub, l) = match l.strip_prefix("subgraph ") { Some(x) => (true, x), None => (false, l) };
        let d = l.find(|c: char| !c.is_ascii_digit()).unwrap_or(l.len());
        let (Some(n), rest) = (node(&l[..d]), &l[d..]) else { o.bad("mermaid|unknown node", format!("line {line:?} of the diagram names no node")); return false };
        let rest_t = rest.trim_start();
        if rest_t.starts_with('[') {
            want!(o, "mermaid", "label", n, rest_t.to_string(), if label(n).is_empty() { format!("[{}]", n.index()) } else { format!("[\"{}\"]", label(n)) });
            want!(o, "mermaid", "node shown once", n, nodes.insert(n, stack.last().copied()), None);
            if sub { stack.push(n); }
        } else {
            let e = rest.rfind(|c: char| !c.is_ascii_digit()).map(|x| x + 1).unwrap_or(0);
            let Some(t) = node(&rest[e..]) else { o.bad("mermaid|unknown node", format!("line {line:?} of the diagram names no node")); return false };
            edges.push((n, t, rest[..e].to_string()));
        }
    }
    want!(o, "mermaid", "nodes and their regions", "the diagram", nodes, m.parent.clone());
    want!(o, "mermaid", "highlighted nodes", "the diagram", marked, mark.map(Some).into_iter().collect::<Vec<_>>());
    let exp = sorted(m.edges.iter().map(|&(a, p, b, q)| {
        let k = h.get_optype(a).port_kind(OutgoingPort::from(p)).unwrap();
        let dots = matches!(k, EdgeKind::StateOrder | EdgeKind::ControlFlow);
        let ty = match k { EdgeKind::Value(t) | EdgeKind::Const(t) if types => Some(format!("{t}")), EdgeKind::Function(f) if types => Some(format!("{f}")), _ => None };
        let l = match (ports, ty) { (true, Some(t)) => format!("{p}:{q}\n{t}"), (true, None) => format!("{p}:{q}"), (false, Some(t)) => t, (false, None) => String::new() };
        let s = match (l.is_empty(), dots) { (true, true) => "-.->".into(), (true, false) => "-->".into(), (false, true) => format!("-.\"{}\".->", enc(&l)), (false, false) => format!("--\"{}\"-->", enc(&l)) };
        (a, b, s)
    }));
    want!(o, "mermaid", "edges", "the diagram", sorted(edges), exp);
    o.n("diagrams");
    true
}
fn dot(o: &mut Obs, h: &Hugr, m: &Model) -> bool {
    let Some(text) = o.guard("dot", || h.dot_string()) else { return false };
    let byid: HashMap<usize, Node> = m.parent.keys().map(|n| (n.index(), *n)).collect();
    // statements: the labels may contain line breaks
    let mut s = text.strip_prefix("digraph {\n").unwrap_or("");
    let (mut nodes, mut edges, mut tree, mut hier) = (vec![], vec![], vec![], vec![]);
    let num = |s: &str| { let d = s.find(|c: char| !c.is_ascii_digit()).unwrap_or(s.len()); (s[..d].parse::<usize>().ok(), d) };
    while !s.is_empty() && s != "}\n" {
        let bad = |o: &mut Obs| { o.bad("dot|unreadable", format!("the dot text cannot be read at {:?}", s.chars().take(80).collect::<String>())); false };
        if let Some(t) = s.strip_prefix("hier") {
            let (Some(a), d) = num(t) else { return bad(o) };
            let end = t.find('\n').unwrap_or(t.len());
            if let Some(u) = t[d..].strip_prefix(" -> hier") { let (Some(b), _) = num(u) else { return bad(o) }; tree.push((a, b)); } else { hier.push(a); }
            s = &t[(end + 1).min(t.len())..]; continue;
        }
        let (Some(a), d) = num(s) else { return bad(o) };
        let t = &s[d..];
        if let Some(u) = t.strip_prefix(":out") {
            let (Some(p), d) = num(u) else { return bad(o) };
            let Some(u) = u[d..].strip_prefix(" -> ") else { return bad(o) };
            let (Some(b), d) = num(u) else { return bad(o) };
            let Some(u) = u[d..].strip_prefix(":in") else { return bad(o) };
            let (Some(q), _) = num(u) else { return bad(o) };
            edges.push((a, p, b, q));
            // up to the end of the attributes: the edge label is inside a style string
            let Some(e) = u.find("\"]\n") else { return bad(o) };
            s = &u[e + 3..];
        } else if let Some(u) = t.strip_prefix(" [shape=plain ") {
            let Some(i) = u.find("label=<") else { return bad(o) };
            let body = &u[i + 7..];
            // the label is HTML: it ends where its brackets balance
            let (mut depth, mut end) = (1, None);
            for (i, c) in body.char_indices() { match c { '<' => depth += 1, '>' => { depth -= 1; if depth == 0 { end = Some(i); break; } } _ => {} } }
            let Some(e) = end else { o.bad("dot|label not closed", format!("the label of node {a} ({}) has no end", title(h, byid[&a]))); return false };
            let label = &body[..e];
            // tags must be those of a table
            let mut rest = label; let mut text_in = String::new(); let mut open: Vec<String> = vec![];
            while let Some(i) = rest.find('<') {
                text_in.push_str(&rest[..i]); let Some(j) = rest[i..].find('>') else { break }; let tag = &rest[i + 1..i + j];
                let name: String = tag.trim_start_matches('/').chars().take_while(|c| c.is_alphanumeric()).collect();
                if !["table", "tr", "td"].contains(&name.as_str()) || (tag.starts_with('/') && open.pop().as_ref() != Some(&name)) { o.bad("dot|label not well-formed", format!("the label of node {a} contains <{tag}>")); return false; }
                if !tag.starts_with('/') { open.push(name); }
                rest = &rest[i + j + 1..];
            }
            let plain = text_in.replace("&lt;", "<").replace("&gt;", ">").replace("&quot;", "\"").replace("&amp;", "&");
            if let Some(n) = byid.get(&a) { want!(o, "dot", "name shown", n, plain.contains(&title(h, *n)), true); }
            nodes.push(a);
            let Some(x) = body[e..].strip_prefix(">]\n") else { o.bad("dot|label not well-formed", format!("the label of node {a} ({}) ends early", byid.get(&a).map(|n| title(h, *n)).unwrap_or_default())); return false };
            s = x;
        } else { return bad(o) }
    }
    let ids = sorted(m.parent.keys().map(|n| n.index()));
    want!(o, "dot", "nodes", "the text", sorted(nodes), ids.clone());
    want!(o, "dot", "hierarchy nodes", "the text", sorted(hier), ids);
    want!(o, "dot", "edges", "the text", sorted(edges), sorted(m.edges.iter().map(|e| (e.0.index(), e.1, e.2.index(), e.3))));
    want!(o, "dot", "hierarchy", "the text", sorted(tree), sorted(m.parent.iter().filter_map(|(n, p)| p.map(|p| (p.index(), n.index())))));
    o.n("dot_texts");
    true
}
/// A part taken out on its own shows the same subtree.
fn extracted(o: &mut Obs, h: &Hugr, m: &Model, n: Node, valid: bool) -> bool {
    let Some((x, map)) = o.guard(&format!("extract:{}", short(&h.get_optype(n).to_string())), || { let (x, map) = h.extract_hugr(n); let v: HashMap<Node, Node> = m.down(n).into_iter().map(|k| (k, map.extracted_node(k))).collect(); (x, v) }) else { return false };
    want!(o, "extracted", "entrypoint", n, x.entrypoint(), map[&n]);
    for k in m.down(n) {
        let y = map[&k];
        want!(o, "extracted", "presence", k, x.contains_node(y), true);
        if let Err(e) = cmp_op(h.get_optype(k), x.get_optype(y), Default::default()) { o.bad("extracted|operation", format!("{k} taken out of the program differs: {e}")); return false; }
        want!(o, "extracted", "metadata", k, crate::canon::meta(&x, y), crate::canon::meta(h, k));
        want!(o, "extracted", "children", k, x.children(y).collect::<Vec<_>>(), m.kids[&k].iter().map(|c| map[c]).collect::<Vec<_>>());
        if k != n {
            let f = |n: Node| map.get(&n).copied();
            let e = sorted(m.edges.iter().filter(|e| e.0 == k).filter_map(|e| f(e.2).filter(|_| e.2 != n).map(|t| (e.1, t, e.3))));
            let back: HashMap<Node, Node> = map.iter().map(|(a, b)| (*b, *a)).collect();
            let g = sorted((0..x.num_outputs(y)).flat_map(|p| x.linked_inputs(y, p).map(|(t, q)| (p, t, q.index())).collect::<Vec<_>>()).filter(|z| back.contains_key(&z.1) && z.1 != map[&n]));
            want!(o, "extracted", "edges", k, g, e);
        }
    }
    o.n("extracted_parts");
    let _ = valid;
    true
}

/// One edit, applied to any kind of handle on the program.
fn edit<H: HugrMut<Node = Node>>(h: &mut H, r: &mut Rng, top: &[Node], last: bool) -> String {
    let ns = sorted(h.nodes());
    let e = h.entrypoint();
    let dfgs: Vec<Node> = ns.iter().copied().filter(|n| h.get_optype(*n).is_dfg()).collect();
    let pick = |r: &mut Rng, v: &[Node]| *r.pick(v);
    if dfgs.is_empty() { return "nothing".into() }
    let a = pick(r, &dfgs); let b = pick(r, &dfgs);
    match r.below(12) {
        0 | 1 => format!("add {}", h.add_node_with_parent(a, boxop(r))),
        2 => format!("before {}", h.add_node_before(a, boxop(r))),
        3 => format!("after {}", h.add_node_after(a, boxop(r))),
        4 | 5 => { let (p, q) = (h.num_outputs(a), h.num_inputs(b)); if p > 0 && q > 0 { let (p, q) = (r.below(p), r.below(q)); h.connect(a, p, b, q); } "connect".into() }
        6 => { let (p, q) = (h.num_outputs(a), h.num_inputs(a)); if r.bool() && p > 0 { let p = r.below(p); h.disconnect(a, OutgoingPort::from(p)) } else if q > 0 { let q = r.below(q); h.disconnect(a, IncomingPort::from(q)) } "disconnect".into() }
        7 => { let k = format!("k{}", r.below(3)); if r.bool() { h.set_metadata(a, k, serde_json::json!(r.below(100))) } else { h.remove_metadata(a, k) } "metadata".into() }
        8 => { if a != e && h.children(a).next().is_none() && !top.contains(&a) { h.remove_node(a); "remove".into() } else { "kept".into() } }
        9 => { if !h.descendants(a).any(|x| x == e || top.contains(&x)) { h.remove_subtree(a); "remove subtree".into() } else { "kept".into() } }
        10 => { if !h.descendants(a).any(|x| x == b) && a != e && !top.contains(&a) { h.set_parent(a, b); "move".into() } else { "kept".into() } }
        _ => { // the numbers of copies are not determined
            if last && h.descendants(a).count() < 30 && !h.descendants(a).any(|x| x == b) { format!("copy {:?}", h.copy_descendants(a, b, None).into_keys().collect::<Vec<_>>()) } else { h.replace_op(a, boxop_like(h.get_optype(a))); "replace".into() } }
    }
}
fn boxop(r: &mut Rng) -> OpType { let b = hugr_core::extension::prelude::bool_t(); hugr_core::ops::DFG { signature: hugr_core::types::Signature::new(vec![b.clone(); r.below(4)], vec![b; r.below(4)]) }.into() }
fn boxop_like(op: &OpType) -> OpType { op.clone() }
/// A hierarchy with edges between any ports of any nodes, built together with its lists.
fn wild(o: &mut Obs, r: &mut Rng, size: usize) -> Option<(Hugr, Model)> {
    let mut h = Hugr::new();
    let f = h.add_node_with_parent(h.module_root(), hugr_core::ops::FuncDefn::new("wild", hugr_core::types::Signature::new(vec![], vec![])));
    let mut m = Model::read(&h);
    let root = h.module_root();
    let mut all = vec![f];
    for _ in 0..size {
        match r.below(14) {
            0..=5 => {
                let op = boxop(r);
                let (i, u) = (op.input_count(), op.output_count());
                let at = *r.pick(&all);
                let n = if at != f && r.chance(1, 3) {
                    let p = m.parent[&at].unwrap(); let i = m.kids[&p].iter().position(|x| *x == at).unwrap();
                    let after = r.bool();
                    let n = if after { h.add_node_after(at, op) } else { h.add_node_before(at, op) };
                    m.parent.insert(n, Some(p)); m.kids.get_mut(&p).unwrap().insert(i + after as usize, n); n
                } else { let n = h.add_node_with_parent(at, op); m.parent.insert(n, Some(at)); m.kids.get_mut(&at).unwrap().push(n); n };
                m.kids.insert(n, vec![]); m.ports.insert(n, [i, u]); all.push(n);
            }
            6..=10 => {
                let (a, b) = (*r.pick(&all), *r.pick(&all));
                let (p, q) = (m.ports[&a][1], m.ports[&b][0]);
                if a == f || b == f || p == 0 || q == 0 { continue; }
                let (p, q) = (r.below(p), r.below(q));
                h.connect(a, p, b, q); m.edges.push((a, p, b, q)); m.edges.sort();
            }
            11 => {
                let a = *r.pick(&all);
                if m.ports[&a][0] == 0 || m.ports[&a][1] == 0 { continue; }
                let (d, k) = if r.bool() { (Direction::Incoming, r.below(m.ports[&a][0])) } else { (Direction::Outgoing, r.below(m.ports[&a][1])) };
                h.disconnect(a, Port::new(d, k));
                m.edges.retain(|e| if d == Direction::Incoming { (e.2, e.3) != (a, k) } else { (e.0, e.1) != (a, k) });
            }
            12 => {
                let a = *r.pick(&all);
                if a == f || m.down(a).len() > 6 { continue; }
                let gone: BTreeSet<Node> = m.down(a).into_iter().collect();
                h.remove_subtree(a);
                let p = m.parent[&a].unwrap(); m.kids.get_mut(&p).unwrap().retain(|x| *x != a);
                for x in &gone { m.parent.remove(x); m.kids.remove(x); m.ports.remove(x); }
                m.edges.retain(|e| !gone.contains(&e.0) && !gone.contains(&e.2)); all.retain(|x| !gone.contains(x));
            }
            _ => {
                let (a, b) = (*r.pick(&all), *r.pick(&all));
                if a == f || m.down(a).contains(&b) { continue; }
                let p = m.parent[&a].unwrap(); m.kids.get_mut(&p).unwrap().retain(|x| *x != a);
                if b != f && r.bool() {
                    let q = m.parent[&b].unwrap(); let i = m.kids[&q].iter().position(|x| *x == b).unwrap();
                    let after = r.bool();
                    if after { h.move_after_sibling(a, b) } else { h.move_before_sibling(a, b) }
                    m.parent.insert(a, Some(q)); m.kids.get_mut(&q).unwrap().insert(i + after as usize, a);
                } else { h.set_parent(a, b); m.parent.insert(a, Some(b)); m.kids.get_mut(&b).unwrap().push(a); }
            }
        }
    }
    o.n("wild_graphs");
    let _ = root;
    Some((h, m))
}
/// A checked handle on a dataflow graph: reordering its inputs and outputs.
fn reorder(o: &mut Obs, p: &crate::gen_::Program, r: &mut Rng) {
    use hugr_core::hugr::views::RootChecked;
    use hugr_core::ops::handle::{DataflowParentID, DfgID};
    let mut h = p.hugr.clone();
    let root = h.module_root();
    let free: Vec<Node> = h.children(root).filter(|n| h.get_optype(*n).is_func_defn() && h.static_targets(*n).is_some_and(|mut t| t.next().is_none())).collect();
    let Some(f) = (if free.contains(&p.main) && r.chance(2, 3) { Some(p.main) } else { r.pick_opt(&free).copied() }) else { return };
    // sometimes the body moves into a graph of its own
    let mut at = f;
    for _ in 0..r.below(3) {
        let Some(sig) = h.with_entrypoint(at).inner_function_type().map(|s| s.into_owned()) else { return };
        let kids: Vec<Node> = h.children(at).collect();
        let d = h.add_node_with_parent(at, hugr_core::ops::DFG { signature: sig.clone() });
        for k in kids { h.set_parent(k, d); }
        use hugr_core::ops::dataflow::IOTrait;
        let i = h.add_node_before(d, hugr_core::ops::Input::new(sig.input().clone())); let u = h.add_node_after(i, hugr_core::ops::Output::new(sig.output().clone()));
        for x in 0..sig.input_count() { h.connect(i, x, d, x); } for x in 0..sig.output_count() { h.connect(d, x, u, x); }
        at = d;
    }
    h.set_entrypoint(at);
    if h.validate().is_err() { o.n("wrapping_skipped"); return; }
    let [inp, out] = h.get_io(at).unwrap();
    let sig = h.with_entrypoint(at).inner_function_type().unwrap().into_owned();
    let (ni, no) = (sig.input_count(), sig.output_count());
    let used: Vec<bool> = (0..ni).map(|x| !sig.input()[x].copyable() || h.is_linked(inp, OutgoingPort::from(x))).collect();
    let mut im: Vec<usize> = (0..ni).filter(|x| used[*x] || r.bool()).collect(); r.shuffle(&mut im);
    let mut om: Vec<usize> = vec![]; for x in 0..no { if !sig.output()[x].copyable() { om.push(x) } else { for _ in 0..r.below(3) { om.push(x) } } } r.shuffle(&mut om);
    // sometimes a mapping that must be refused
    let wrong = r.below(8);
    let refuse = match wrong {
        0 if ni > 0 && used.iter().any(|x| *x) => { let v = (0..ni).find(|x| used[*x]).unwrap(); im.retain(|x| *x != v); true }
        1 if !im.is_empty() => { let v = *r.pick(&im); im.push(v); true }
        2 => { im.push(ni + r.below(3)); true }
        3 => { om.push(no + r.below(3)); true }
        4 if sig.output().iter().any(|t| !t.copyable()) => { let v = (0..no).find(|x| !sig.output()[*x].copyable()).unwrap(); if r.bool() { om.push(v) } else { om.retain(|x| *x != v) } true }
        _ => false,
    };
    let order = h.get_optype(inp).other_output_port().is_some_and(|p| h.is_linked(inp, p));
    let before = snapshot(&h);
    let is_dfg = h.get_optype(at).is_dfg() && r.bool();
    let Some(res) = o.guard("reorder", || if is_dfg { RootChecked::<&mut Hugr, DfgID>::try_new(&mut h).map_err(|e| e.to_string()).and_then(|mut v| v.map_function_type(&im, &om).map_err(|e| e.to_string())) } else { RootChecked::<&mut Hugr, DataflowParentID>::try_new(&mut h).map_err(|e| e.to_string()).and_then(|mut v| v.map_function_type(&im, &om).map_err(|e| e.to_string())) }) else { return };
    o.n("reorderings");
    match res {
        Err(e) => {
            o.n("reorderings_refused");
            if snapshot(&h) != before { o.bad("reorder|refused and changed", format!("a refused reordering ({e}) changed the program")); }
            else if !refuse && !order { o.bad("reorder|refused", format!("inputs {im:?} of {ni} and outputs {om:?} of {no} refused: {e}")); }
        }
        Ok(()) if refuse => o.bad("reorder|accepted", format!("inputs {im:?} of {ni} and outputs {om:?} of {no} accepted")),
        Ok(()) => {
            let want = hugr_core::types::Signature::new(im.iter().map(|x| sig.input()[*x].clone()).collect::<Vec<_>>(), om.iter().map(|x| sig.output()[*x].clone()).collect::<Vec<_>>());
            if h.with_entrypoint(at).inner_function_type().map(|s| s.into_owned()) != Some(want) { o.bad("reorder|signature", "the reordered graph has another signature"); return; }
            if !check_valid(o, "reorder", &h) { return; }
            if f != p.main { return; }
            let ins = inputs(&p.ins, r, 2);
            let want: Vec<_> = reference(o, &p.hugr, p.main, &ins, 20_000).into_iter().map(|(i, w)| (im.iter().map(|x| i[*x].clone()).collect::<Vec<_>>(), { let mut w = w; w.vals = om.iter().map(|x| w.vals[*x].clone()).collect(); w })).collect();
            if same(o, "reorder", &h, f, &want, |x| x.clone()) { o.n("reordered_runs"); }
            let _ = out;
            // more inputs
            let more: Vec<hugr_core::types::Type> = (0..r.below(3)).map(|_| hugr_core::extension::prelude::usize_t()).collect();
            let n0 = h.with_entrypoint(at).inner_function_type().unwrap().input_count();
            let Some(x) = o.guard("extend", || RootChecked::<&mut Hugr, DataflowParentID>::try_new(&mut h).unwrap().extend_inputs(&more)) else { return };
            if let Err(e) = x { o.bad("extend|refused", format!("{e}")); return; }
            if h.with_entrypoint(at).inner_function_type().unwrap().input_count() != n0 + more.len() { o.bad("extend|signature", "the extended graph has another number of inputs"); return; }
            if !check_valid(o, "extend", &h) { return; }
            let want: Vec<_> = want.into_iter().map(|(mut i, w)| { i.extend(more.iter().map(|_| crate::val::V::Usize(3))); (i, w) }).collect();
            if same(o, "extend", &h, f, &want, |x| x.clone()) { o.n("extended_runs"); }
        }
    }
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 31);
    let valid = idx % 2 == 0;
    let (mut h, m, main) = if valid {
        let cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[15, 40, 100]) } else { *r.pick(&[10, 25, 50]) }, funcs: r.range(1, 6), ..Cfg::default() }.vary(&mut r));
        let Some(p) = prog(o, seed, idx, &cfg) else { return };
        reorder(o, &p, &mut r);
        let mut h = p.hugr.clone();
        crate::spice::spice(&mut r, &mut h, crate::spice::ALL);
        let m = Model::read(&h);
        (h, m, p.main)
    } else {
        let n = if o.thorough { r.range(5, 200) } else { r.range(5, 90) };
        let Some(Some((h, m))) = o.guard("wild", || ()).map(|_| wild(o, &mut r, n)) else { return };
        let f = h.children(h.module_root()).next().unwrap();
        (h, m, f)
    };
    if valid { crate::spice::any_entry(&mut r, &mut h, main); } else { let e = *r.pick(&m.parent.keys().copied().collect::<Vec<_>>()); h.set_entrypoint(e); }
    let entry = h.entrypoint();
    let mut ns: Vec<Node> = m.parent.keys().copied().collect();
    r.shuffle(&mut ns); ns.truncate(if o.thorough { 120 } else { 40 });
    if !queries(o, "program", &h, &m, entry, &ns) { return; }
    let v = *r.pick(&ns);
    let rr = h.with_entrypoint(v);
    if !queries(o, "rerooted", &rr, &m, v, &ns[..ns.len().min(12)]) { return; }
    let w = *r.pick(&ns);
    { let r2 = rr.with_entrypoint(w); if !queries(o, "rerooted twice", &r2, &m, w, &ns[..ns.len().min(6)]) { return; } if !regions(o, &r2, &m, &ns[..ns.len().min(6)]) { return; } }
    let rc_: std::rc::Rc<Hugr> = std::rc::Rc::new(h.clone());
    if !queries(o, "shared", &rc_, &m, entry, &ns[..ns.len().min(6)]) { return; }
    if !petgraph_view(o, &h, &m, &mut r) || !regions(o, &h, &m, &ns) || !mermaid(o, &h, &m, &mut r) || !dot(o, &h, &m) { return; }
    if valid && !uses(o, &h) { return; }
    if valid { for _ in 0..3 { let n = *r.pick(&ns); if !matches!(h.get_optype(n), OpType::Input(_) | OpType::Output(_)) && !extracted(o, &h, &m, n, valid) { return; } } }
    // edits through a view
    let s = r.u64();
    let k = r.range(3, 25);
    let (mut a, mut b) = (h.clone(), h.clone());
    let at = *r.pick(&ns);
    let top = [at, entry, main];
    let did = o.guard("edit", || {
        let (mut r1, mut r2) = (Rng::new(s), Rng::new(s));
        let (mut la, mut lb) = (vec![], vec![]);
        for j in 0..k { la.push(edit(&mut a, &mut r1, &top, j + 1 == k)); }
        { let mut view = b.with_entrypoint_mut(at); if r1.u64() % 2 == 0 { for j in 0..k { lb.push(edit(&mut view, &mut r2, &top, j + 1 == k)); } } else { let mut v2 = view.with_entrypoint_mut(entry); for j in 0..k { lb.push(edit(&mut v2, &mut r2, &top, j + 1 == k)); } } }
        (la, lb)
    });
    let Some((la, lb)) = did else { return };
    // the edits look at the entrypoint only to leave it alone, and both are left alone
    let (sa, sb) = (snapshot(&a), snapshot(&b));
    let same = if la.last().is_some_and(|l| l.starts_with("copy")) { crate::canon::cmp_hugr(&a, &b, Default::default()).is_ok() } else { sa == sb };
    if la != lb || !same { let d: Vec<_> = sa.iter().zip(&sb).filter(|(x, y)| x != y).take(2).collect(); o.bad("edit|differs", format!("{k} edits through a view at {at} gave another program than the same edits made directly: {la:?} {lb:?} {d:?}")); return; }
    if b.entrypoint() != entry { o.bad("edit|entrypoint", "editing through a view changed the entrypoint of the program"); return; }
    let m2 = Model::read(&b);
    let mut n2: Vec<Node> = m2.parent.keys().copied().collect(); r.shuffle(&mut n2); n2.truncate(20);
    if !queries(o, "edited", &b, &m2, entry, &n2) || !petgraph_view(o, &b, &m2, &mut r) { return; }
    o.n("edited_through_views");
    let x = *r.pick(&n2);
    { let mut v = b.with_entrypoint_mut(at); v.set_entrypoint(x); if v.entrypoint() != x { o.bad("edit|entrypoint", "the entrypoint set through a view is not the entrypoint of the view"); return; } }
    if b.entrypoint() != x { o.bad("edit|entrypoint", "the entrypoint set through a view is not that of the program"); return; }
    o.saws(&format!("{:?}", m.edges.len() * 1000 + m.parent.len()));
    o.note(|| format!("{} graph of {} nodes and {} edges", if valid { "generated program as a" } else { "arbitrary" }, m.parent.len(), m.edges.len()));
}
pub fn prop() -> Prop {
    Prop { id: "C31", case, rule: "all views of a graph were compared with its lists (distinct sizes of graphs)", need: &["queries", "regions", "use_graphs", "use_graphs_with_other_entrypoint", "diagrams", "dot_texts", "extracted_parts", "wild_graphs", "edited_through_views", "reorderings_refused", "reordered_runs", "extended_runs"], quick_s: 25, thorough_s: 600, min_cases: 60, max_cases: 20000 }
}
