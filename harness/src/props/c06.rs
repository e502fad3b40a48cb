//! Edit histories: every mutation of a program is mirrored in a plain relational
//! model, and after each step every query is compared with it.
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::spice::rand_meta;
use crate::util::*;
use hugr_core::extension::prelude::{bool_t, qb_t, Noop};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::{HugrInternals, HugrMutInternals};
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::dataflow::IOTrait;
use hugr_core::ops::{self, OpTrait, OpType};
use hugr_core::types::{Signature, Type};
use hugr_core::{Direction, Hugr, IncomingPort, Node, OutgoingPort, Port, PortIndex};
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq)]
struct N { op: OpType, parent: Option<Node>, kids: Vec<Node>, ports: [usize; 2], meta: BTreeMap<String, J> }
#[derive(Clone, Debug, Default)]
struct M { nodes: BTreeMap<Node, N>, links: Vec<(Node, usize, Node, usize)>, root: Option<Node>, entry: Option<Node> }

fn d(i: usize) -> Direction { if i == 0 { Direction::Incoming } else { Direction::Outgoing } }
/// The number of ports an operation asks for.
fn ports_of(op: &OpType) -> [usize; 2] {
    [0, 1].map(|i| op.value_port_count(d(i)) + usize::from(op.static_port(d(i)).is_some()) + op.non_df_port_count(d(i)))
}
impl M {
    fn of(h: &Hugr) -> M {
        let mut m = M { root: Some(h.module_root()), entry: Some(h.entrypoint()), ..M::default() };
        for n in h.nodes() {
            m.nodes.insert(n, N { op: h.get_optype(n).clone(), parent: h.get_parent(n), kids: h.children(n).collect(), ports: [h.num_inputs(n), h.num_outputs(n)], meta: h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.clone())).collect() });
            for p in h.node_outputs(n) { for (t, q) in h.linked_inputs(n, p) { m.links.push((n, p.index(), t, q.index())); } }
        }
        m
    }
    fn live(&self) -> Vec<Node> { self.nodes.keys().copied().collect() }
    fn under(&self, n: Node) -> Vec<Node> { let mut v = vec![n]; let mut i = 0; while i < v.len() { v.extend(self.nodes[&v[i]].kids.iter().copied()); i += 1; } v }
    fn is_anc(&self, a: Node, mut n: Node) -> bool { loop { if a == n { return true; } match self.nodes[&n].parent { Some(p) => n = p, None => return false } } }
    fn detach(&mut self, n: Node) { if let Some(p) = self.nodes[&n].parent { self.nodes.get_mut(&p).unwrap().kids.retain(|k| *k != n); } self.nodes.get_mut(&n).unwrap().parent = None; }
    fn attach(&mut self, n: Node, p: Node, at: usize) { self.nodes.get_mut(&p).unwrap().kids.insert(at, n); self.nodes.get_mut(&n).unwrap().parent = Some(p); }
    fn push(&mut self, n: Node, p: Node) { let k = self.nodes[&p].kids.len(); self.attach(n, p, k); }
    fn pos(&self, n: Node) -> (Node, usize) { let p = self.nodes[&n].parent.unwrap(); (p, self.nodes[&p].kids.iter().position(|k| *k == n).unwrap()) }
    fn new_node(&mut self, n: Node, op: OpType) { let ports = ports_of(&op); self.nodes.insert(n, N { op, parent: None, kids: vec![], ports, meta: BTreeMap::new() }); }
    fn drop_node(&mut self, n: Node) { self.detach(n); self.nodes.remove(&n); self.links.retain(|l| l.0 != n && l.2 != n); }
    fn resize(&mut self, n: Node, dir: usize, k: usize) {
        self.nodes.get_mut(&n).unwrap().ports[dir] = k;
        self.links.retain(|l| if dir == 0 { !(l.2 == n && l.3 >= k) } else { !(l.0 == n && l.1 >= k) });
    }
    /// Adds a copy of the given nodes of another graph.
    fn graft(&mut self, from: &M, map: &HashMap<Node, Node>, roots: &[(Node, Node)], order: &[Node], f: &dyn Fn(&OpType) -> OpType) -> Result<(), String> {
        let mut fresh = BTreeSet::new();
        for a in order {
            let Some(b) = map.get(a) else { return Err(format!("{a} is missing from the node map")) };
            if self.nodes.contains_key(b) || !fresh.insert(*b) { return Err(format!("{a} is mapped to {b}, which is taken")); }
        }
        if map.len() != order.len() { return Err(format!("the node map has {} entries for {} nodes", map.len(), order.len())); }
        for a in order {
            let o = &from.nodes[a];
            self.nodes.insert(map[a], N { op: f(&o.op), parent: None, kids: vec![], ports: o.ports, meta: o.meta.clone() });
        }
        for a in order { for k in &from.nodes[a].kids { if map.contains_key(k) && !roots.iter().any(|(r, _)| r == k) { self.push(map[k], map[a]); } } }
        for (r, p) in roots { self.push(map[r], *p); }
        for l in &from.links { if let (Some(a), Some(b)) = (map.get(&l.0), map.get(&l.2)) { self.links.push((*a, l.1, *b, l.3)); } }
        Ok(())
    }
    /// Compares every query with the model.
    fn cmp(&self, h: &Hugr, o: &mut Obs) -> Result<(), String> {
        let set = |v: Vec<Node>| { let mut v = v; v.sort(); v };
        if h.module_root() != self.root.unwrap() { return Err("module root".into()); }
        if h.entrypoint() != self.entry.unwrap() { return Err("entrypoint".into()); }
        if set(h.nodes().collect()) != self.live() { return Err(format!("nodes: {:?} instead of {:?}", set(h.nodes().collect()), self.live())); }
        if h.num_nodes() != self.nodes.len() { return Err("num_nodes".into()); }
        if h.num_edges() != self.links.len() { return Err(format!("num_edges: {} instead of {}", h.num_edges(), self.links.len())); }
        if set(h.entry_descendants().collect()) != set(self.under(self.entry.unwrap())) { return Err("entry_descendants".into()); }
        let mut at: HashMap<(Node, usize, usize), Vec<(Node, usize)>> = HashMap::new();
        for l in &self.links { at.entry((l.0, 1, l.1)).or_default().push((l.2, l.3)); at.entry((l.2, 0, l.3)).or_default().push((l.0, l.1)); }
        for (n, m) in &self.nodes {
            let n = *n;
            if !h.contains_node(n) { return Err(format!("contains_node({n})")); }
            if h.get_parent(n) != m.parent { return Err(format!("get_parent({n}): {:?} instead of {:?}", h.get_parent(n), m.parent)); }
            if h.children(n).collect::<Vec<_>>() != m.kids { return Err(format!("children({n}): {:?} instead of {:?}", h.children(n).collect::<Vec<_>>(), m.kids)); }
            if h.children(n).rev().collect::<Vec<_>>() != m.kids.iter().rev().copied().collect::<Vec<_>>() { return Err(format!("children({n}).rev()")); }
            if h.first_child(n) != m.kids.first().copied() { return Err(format!("first_child({n})")); }
            if crate::canon::cmp_op(h.get_optype(n), &m.op, Default::default()).is_err() { return Err(format!("get_optype({n}): {} instead of {}", h.get_optype(n), m.op)); }
            let got: BTreeMap<String, J> = h.node_metadata_map(n).iter().map(|(k, v)| (k.clone(), v.clone())).collect();
            if got != m.meta { return Err(format!("metadata({n}): {got:?} instead of {:?}", m.meta)); }
            for (k, v) in &m.meta { if h.get_metadata(n, k) != Some(v) { return Err(format!("get_metadata({n})")); } }
            let mut all_nb = vec![];
            for i in 0..2 {
                if h.num_ports(n, d(i)) != m.ports[i] { return Err(format!("num_ports({n},{:?}): {} instead of {}", d(i), h.num_ports(n, d(i)), m.ports[i])); }
                if h.node_ports(n, d(i)).map(|p| p.index()).collect::<Vec<_>>() != (0..m.ports[i]).collect::<Vec<_>>() { return Err(format!("node_ports({n})")); }
                let mut nb = vec![];
                let mut all = vec![];
                for p in 0..m.ports[i] {
                    let mut want = at.get(&(n, i, p)).cloned().unwrap_or_default();
                    want.sort();
                    let port = Port::new(d(i), p);
                    let mut got: Vec<_> = h.linked_ports(n, port).map(|(x, q)| { assert!(q.direction() != d(i)); (x, q.index()) }).collect();
                    got.sort();
                    if got != want { return Err(format!("linked_ports({n},{port:?}): {got:?} instead of {want:?}")); }
                    if h.is_linked(n, port) == want.is_empty() { return Err(format!("is_linked({n},{port:?})")); }
                    let single = h.single_linked_port(n, port).map(|(x, q)| (x, q.index()));
                    if single != if want.len() == 1 { Some(want[0]) } else { None } { return Err(format!("single_linked_port({n},{port:?})")); }
                    nb.extend(want.iter().map(|x| x.0));
                    all.extend(want);
                }
                let mut got: Vec<(Node, usize)> = match h.all_linked_ports(n, d(i)) { itertools::Either::Left(x) => x.map(|(n, p)| (n, p.index())).collect(), itertools::Either::Right(x) => x.map(|(n, p)| (n, p.index())).collect() };
                got.sort(); all.sort();
                if got != all { return Err(format!("all_linked_ports({n},{:?})", d(i))); }
                if set(h.neighbours(n, d(i)).collect()) != set(nb.clone()) { return Err(format!("neighbours({n},{:?})", d(i))); }
                all_nb.extend(nb);
            }
            let (mut got, mut want) = (set(h.all_neighbours(n).collect()), set(all_nb));
            // a link of a node to itself may be listed once or twice
            if want.contains(&n) { got.dedup(); want.dedup(); }
            if got != want { return Err(format!("all_neighbours({n})")); }
            if h.all_node_ports(n).count() != m.ports[0] + m.ports[1] { return Err(format!("all_node_ports({n})")); }
            if m.kids.len() > 1 || m.parent.is_none() {
                let got: Vec<Node> = h.descendants(n).collect();
                if got.first() != Some(&n) || set(got) != set(self.under(n)) { return Err(format!("descendants({n})")); }
            }
            let io = if matches!(m.op, OpType::DFG(_) | OpType::FuncDefn(_) | OpType::DataflowBlock(_) | OpType::Case(_) | OpType::TailLoop(_)) && m.kids.len() >= 2 { Some([m.kids[0], m.kids[1]]) } else { None };
            if let Some(io) = io { if h.get_io(n) != Some(io) { return Err(format!("get_io({n}): {:?} instead of {io:?}", h.get_io(n))); } }
            if m.op.static_input_port().is_some_and(|p| p.index() < m.ports[0]) {
                let p = m.op.static_input_port().unwrap().index();
                let want = at.get(&(n, 0, p)).cloned().unwrap_or_default();
                let got = h.static_source(n);
                if got.is_none() != want.is_empty() || got.is_some_and(|g| !want.iter().any(|w| w.0 == g)) { return Err(format!("static_source({n}): {got:?} instead of {want:?}")); }
            }
        }
        // connections of a few pairs
        for l in self.links.iter().take(6) {
            let mut want: Vec<[usize; 2]> = self.links.iter().filter(|k| k.0 == l.0 && k.2 == l.2).map(|k| [k.1, k.3]).collect();
            let mut got: Vec<[usize; 2]> = h.node_connections(l.0, l.2).map(|[a, b]| [a.index(), b.index()]).collect();
            if l.0 == l.2 { continue; }
            want.sort(); got.sort();
            if got != want { return Err(format!("node_connections({},{})", l.0, l.2)); }
        }
        o.add("comparisons", self.nodes.len() as u64);
        Ok(())
    }
}
/// An operation with its first two type variables filled in; None if not of a known form.
fn fill(op: &OpType) -> Option<OpType> {
    let var = |i| Type::new_var_use(i, hugr_core::types::TypeBound::Copyable);
    let row = |t: &hugr_core::types::TypeRow| -> Option<Vec<Type>> { t.iter().map(|t| if *t == var(0) { Some(bool_t()) } else if *t == var(1) { Some(Type::UNIT) } else if format!("{t:?}").contains("Variable") { None } else { Some(t.clone()) }).collect() };
    match op {
        OpType::FuncDefn(_) | OpType::FuncDecl(_) => None,
        OpType::DFG(d) => Some(ops::DFG { signature: Signature::new(row(d.signature.input())?, row(d.signature.output())?) }.into()),
        OpType::Input(d) => Some(ops::Input::new(row(&d.types)?).into()),
        OpType::Output(d) => Some(ops::Output::new(row(&d.types)?).into()),
        OpType::CFG(d) => Some(ops::CFG { signature: Signature::new(row(d.signature.input())?, row(d.signature.output())?) }.into()),
        x if format!("{x:?}").contains("Variable") => None,
        x => Some(x.clone()),
    }
}
fn rand_op(r: &mut Rng) -> OpType {
    let tys = |r: &mut Rng| -> Vec<Type> { (0..r.below(4)).map(|_| if r.chance(1, 4) { qb_t() } else if r.chance(1, 6) { Type::new_var_use(r.below(2), hugr_core::types::TypeBound::Copyable) } else { bool_t() }).collect() };
    match r.below(11) {
        0 | 1 => ops::DFG { signature: Signature::new(tys(r), tys(r)) }.into(),
        2 => ops::Input::new(tys(r)).into(),
        3 => ops::Output::new(tys(r)).into(),
        4 => Noop::new(bool_t()).into(),
        5 => ops::CFG { signature: Signature::new(tys(r), tys(r)) }.into(),
        6 => ops::DataflowBlock { inputs: tys(r).into(), other_outputs: tys(r).into(), sum_rows: (0..r.below(3)).map(|_| tys(r).into()).collect() }.into(),
        7 => ops::Const::new(ops::Value::unit()).into(),
        8 => ops::LoadConstant { datatype: Type::UNIT }.into(),
        9 => ops::TailLoop { just_inputs: tys(r).into(), just_outputs: tys(r).into(), rest: tys(r).into() }.into(),
        _ => ops::FuncDefn::new(format!("f{}", r.below(9)), Signature::new(tys(r), tys(r))).into(),
    }
}

fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 6);
    let cfg = Cfg::default();
    let small = |o: &mut Obs, k: u64| -> Option<Hugr> { let mut c = dev_cfg(cfg.clone()); c.size = 6; prog(o, seed, idx.wrapping_mul(7).wrapping_add(k), &c).map(|p| p.hugr) };
    let mut h = if r.chance(1, 3) { Hugr::new() } else { match small(o, 0) { Some(h) => h, None => return } };
    if h.num_nodes() > 400 { return; }
    let donor = if r.bool() { small(o, 3) } else { None }.filter(|d| d.num_nodes() < 250);
    let mut m = M::of(&h);
    let mut log: Vec<String> = vec![];
    let steps = r.range(10, if o.thorough { 150 } else { 60 });
    let mut kinds = BTreeSet::new();
    for _ in 0..steps {
        let live = m.live();
        let n = *r.pick(&live);
        let root = m.root.unwrap();
        let cap = live.len() > 600;
        let kind = r.below(26);
        let mut name = "";
        let mut bad: Option<String> = None;
        let before = if kind >= 20 { Some(h.clone()) } else { None };
        // run the edit against the program; the model follows
        let res = o.guard("edit", || -> Result<(), String> {
            let mut say = |s: &'static str, t: String| { name = s; log.push(t); };
            match kind {
                0 | 1 | 2 => {
                    let op = rand_op(&mut r);
                    let k = if n == root { 0 } else { r.below(3) };
                    say(["add_node_with_parent", "add_node_before", "add_node_after"][k], format!("add {k} {n} {op}"));
                    let new = match k { 0 => h.add_node_with_parent(n, op.clone()), 1 => h.add_node_before(n, op.clone()), _ => h.add_node_after(n, op.clone()) };
                    if m.nodes.contains_key(&new) { return Err(format!("the new node {new} exists already")); }
                    m.new_node(new, op);
                    match k { 0 => m.push(new, n), _ => { let (p, at) = m.pos(n); m.attach(new, p, at + k - 1); } }
                }
                3 => {
                    if m.is_anc(n, m.entry.unwrap()) || n == root { return Ok(()); }
                    say("remove_subtree", format!("remove_subtree {n}"));
                    h.remove_subtree(n);
                    for x in m.under(n).into_iter().rev() { m.drop_node(x); }
                }
                4 => {
                    if n == m.entry.unwrap() || n == root { return Ok(()); }
                    say("remove_node", format!("remove_node {n}"));
                    let kids = m.nodes[&n].kids.clone();
                    let p = m.nodes[&n].parent.unwrap();
                    // children first move elsewhere
                    for k in kids { h.set_parent(k, p); m.detach(k); m.push(k, p); }
                    let op = h.remove_node(n);
                    if crate::canon::cmp_op(&op, &m.nodes[&n].op, Default::default()).is_err() { return Err("remove_node returned another operation".into()); }
                    m.drop_node(n);
                }
                5 | 6 | 7 => {
                    let srcs: Vec<Node> = live.iter().copied().filter(|x| m.nodes[x].ports[1] > 0).collect();
                    let tgts: Vec<Node> = live.iter().copied().filter(|x| m.nodes[x].ports[0] > 0).collect();
                    let (Some(a), Some(b)) = (r.pick_opt(&srcs), r.pick_opt(&tgts)) else { return Ok(()) };
                    let (p, q) = (r.below(m.nodes[a].ports[1]), r.below(m.nodes[b].ports[0]));
                    say("connect", format!("connect {a}.{p} {b}.{q}"));
                    h.connect(*a, p, *b, q);
                    m.links.push((*a, p, *b, q));
                }
                8 => {
                    let (a, b) = (*r.pick(&live), *r.pick(&live));
                    let (Some(p), Some(q)) = (m.nodes[&a].op.other_output_port(), m.nodes[&b].op.other_input_port()) else { return Ok(()) };
                    if p.index() >= m.nodes[&a].ports[1] || q.index() >= m.nodes[&b].ports[0] { return Ok(()); }
                    say("add_other_edge", format!("add_other_edge {a} {b}"));
                    let got = h.add_other_edge(a, b);
                    if got != (p, q) { return Err(format!("add_other_edge returned {got:?}")); }
                    m.links.push((a, p.index(), b, q.index()));
                }
                9 | 10 => {
                    let i = r.below(2);
                    if m.nodes[&n].ports[i] == 0 { return Ok(()); }
                    let p = r.below(m.nodes[&n].ports[i]);
                    say("disconnect", format!("disconnect {n}.{i}.{p}"));
                    if i == 0 { h.disconnect(n, IncomingPort::from(p)); m.links.retain(|l| !(l.2 == n && l.3 == p)); }
                    else { h.disconnect(n, OutgoingPort::from(p)); m.links.retain(|l| !(l.0 == n && l.1 == p)); }
                }
                11 | 12 => {
                    let k = format!("k{}", r.below(4));
                    let v = rand_meta(&mut r, 1);
                    if r.chance(1, 3) { say("get_metadata_mut", format!("get_metadata_mut {n} {k}")); *h.get_metadata_mut(n, &k) = v.clone(); }
                    else { say("set_metadata", format!("set_metadata {n} {k}")); h.set_metadata(n, &k, v.clone()); }
                    m.nodes.get_mut(&n).unwrap().meta.insert(k, v);
                }
                13 => {
                    let k = format!("k{}", r.below(4));
                    say("remove_metadata", format!("remove_metadata {n} {k}"));
                    h.remove_metadata(n, &k);
                    m.nodes.get_mut(&n).unwrap().meta.remove(&k);
                }
                14 => {
                    let p = *r.pick(&live);
                    if n == root || m.is_anc(n, p) { return Ok(()); }
                    say("set_parent", format!("set_parent {n} {p}"));
                    h.set_parent(n, p);
                    m.detach(n); m.push(n, p);
                }
                15 => {
                    let s = *r.pick(&live);
                    let e = m.entry.unwrap();
                    if s == root || n == root || s == n || n == e || s == e || m.is_anc(n, s) { return Ok(()); }
                    let k = r.below(2);
                    say(["move_before_sibling", "move_after_sibling"][k], format!("move {k} {n} {s}"));
                    if k == 0 { h.move_before_sibling(n, s) } else { h.move_after_sibling(n, s) }
                    m.detach(n);
                    let (p, at) = m.pos(s);
                    m.attach(n, p, at + k);
                }
                16 => {
                    let i = r.below(2);
                    let a = r.below(5) as isize - 2;
                    let old = m.nodes[&n].ports[i];
                    let new = old.saturating_add_signed(a);
                    if new > 40 { return Ok(()); }
                    say("add_ports", format!("add_ports {n} {i} {a}"));
                    let got = h.add_ports(n, d(i), a);
                    if got != (old..new) && a > 0 { return Err(format!("add_ports returned {got:?}")); }
                    m.resize(n, i, new);
                }
                17 => {
                    let k = [r.below(6), r.below(6)];
                    say("set_num_ports", format!("set_num_ports {n} {k:?}"));
                    h.set_num_ports(n, k[0], k[1]);
                    m.resize(n, 0, k[0]); m.resize(n, 1, k[1]);
                }
                18 => {
                    let i = r.below(2);
                    let old = m.nodes[&n].ports[i];
                    let (at, k) = (r.below(old + 1), r.below(4));
                    if old + k > 40 { return Ok(()); }
                    say("insert_ports", format!("insert_ports {n} {i} {at} {k}"));
                    let got = h.insert_ports(n, d(i), at, k);
                    if got != (at..at + k) { return Err(format!("insert_ports returned {got:?}")); }
                    m.nodes.get_mut(&n).unwrap().ports[i] += k;
                    for l in m.links.iter_mut() { if i == 0 { if l.2 == n && l.3 >= at { l.3 += k; } } else if l.0 == n && l.1 >= at { l.1 += k; } }
                }
                19 => {
                    if r.bool() {
                        let op = rand_op(&mut r);
                        if n == root { return Ok(()); }
                        say("replace_op", format!("replace_op {n} {op}"));
                        let old = h.replace_op(n, op.clone());
                        if crate::canon::cmp_op(&old, &m.nodes[&n].op, Default::default()).is_err() { return Err("replace_op returned another operation".into()); }
                        m.nodes.get_mut(&n).unwrap().op = op;
                    } else {
                        say("set_entrypoint", format!("set_entrypoint {n}"));
                        h.set_entrypoint(n);
                        m.entry = Some(n);
                    }
                }
                20 => {
                    say("canonicalize_nodes", "canonicalize_nodes".into());
                    let mut moved = vec![];
                    h.canonicalize_nodes(|a, b| moved.push((a, b)));
                    // breadth first over the hierarchy, from index zero
                    let order = m.under(root);
                    let map: HashMap<Node, Node> = order.iter().enumerate().map(|(i, n)| (*n, portgraph::NodeIndex::new(i).into())).collect();
                    let g = |n: &Node| map[n];
                    let mut k = M { root: Some(g(&root)), entry: m.entry.map(|e| g(&e)), ..M::default() };
                    for (n, x) in &m.nodes { k.nodes.insert(g(n), N { parent: x.parent.map(|p| g(&p)), kids: x.kids.iter().map(g).collect(), ..x.clone() }); }
                    k.links = m.links.iter().map(|l| (g(&l.0), l.1, g(&l.2), l.3)).collect();
                    m = k;
                }
                21 => {
                    if cap || m.under(n).len() > 100 { return Ok(()); }
                    let p = *r.pick(&live);
                    if m.is_anc(n, p) { return Ok(()); }
                    say("copy_descendants", format!("copy_descendants {n} {p}"));
                    // sometimes with values for the type variables
                    let args: Vec<hugr_core::types::TypeArg> = vec![bool_t().into(), Type::UNIT.into()];
                    let filled: Option<HashMap<Node, OpType>> = if r.bool() { m.under(n).into_iter().skip(1).map(|x| fill(&m.nodes[&x].op).map(|y| (x, y))).collect() } else { None };
                    let map: HashMap<Node, Node> = if filled.is_some() { say("copy_descendants with types", format!("with types")); h.copy_descendants(n, p, Some(hugr_core::types::Substitution::new(&args))) } else { h.copy_descendants(n, p, None) }.into_iter().collect();
                    let from = m.clone();
                    let order: Vec<Node> = m.under(n).into_iter().skip(1).collect();
                    let roots: Vec<(Node, Node)> = m.nodes[&n].kids.iter().map(|k| (*k, p)).collect();
                    m.graft(&from, &map, &roots, &order, &|o| if filled.is_some() { fill(o).unwrap() } else { o.clone() })?;
                    // edges into the copied nodes are copied as well
                    for l in &from.links { if let (None, Some(b)) = (map.get(&l.0), map.get(&l.2)) { m.links.push((l.0, l.1, *b, l.3)); } }
                    // and so are edges out of them
                    for l in &from.links { if let (Some(a), None) = (map.get(&l.0), map.get(&l.2)) { m.links.push((*a, l.1, l.2, l.3)); } }
                }
                22 | 23 => {
                    let Some(dn) = &donor else { return Ok(()) };
                    if cap { return Ok(()); }
                    let mut dn = dn.clone();
                    let cand: Vec<Node> = dn.nodes().collect();
                    let e = *r.pick(&cand);
                    let k = r.below(3);
                    if k != 1 { dn.set_entrypoint(e); }
                    let from = M::of(&dn);
                    let order = from.under(e);
                    say(["insert_hugr", "insert_region", "insert_from_view"][k], format!("insert {k} {e} under {n}"));
                    let res = match k { 0 => h.insert_hugr(n, dn), 1 => h.insert_region(n, dn, e), _ => h.insert_from_view(n, &dn) };
                    if res.node_map.get(&e) != Some(&res.inserted_entrypoint) { return Err("inserted_entrypoint".into()); }
                    m.graft(&from, &res.node_map, &[(e, n)], &order, &|o| o.clone())?;
                }
                24 => {
                    let Some(dn) = &donor else { return Ok(()) };
                    if cap { return Ok(()); }
                    let from = M::of(dn);
                    let cand: Vec<Node> = dn.nodes().collect();
                    let mut roots: Vec<(Node, Node)> = vec![];
                    for _ in 0..r.range(1, 3) { let x = *r.pick(&cand); if !roots.iter().any(|(y, _)| *y == x) { roots.push((x, *r.pick(&live))); } }
                    let clash = roots.iter().any(|(a, _)| roots.iter().any(|(b, _)| a != b && from.is_anc(*a, *b)));
                    say("insert_forest", format!("insert_forest {roots:?}"));
                    match h.insert_forest(dn.clone(), roots.clone()) {
                        Err(e) => { if !clash { return Err(format!("insert_forest failed: {e}")); } }
                        Ok(f) => {
                            if clash { return Err("insert_forest accepted nested regions".into()); }
                            let order: Vec<Node> = roots.iter().flat_map(|(a, _)| from.under(*a)).collect();
                            // roots with the same parent come in any order
                            let mut seq: Vec<(Node, Node)> = roots.clone();
                            seq.sort_by_key(|(a, p)| h.children(*p).position(|c| Some(&c) == f.node_map.get(a)));
                            m.graft(&from, &f.node_map, &seq, &order, &|o| o.clone())?;
                        }
                    }
                }
                _ => {
                    let Some(dn) = &donor else { return Ok(()) };
                    if cap { return Ok(()); }
                    let from = M::of(dn);
                    let cand: Vec<Node> = dn.nodes().collect();
                    // a subtree with some part of it placed elsewhere
                    let e = *r.pick(&cand);
                    let order = from.under(e);
                    let mut roots = vec![(e, n)];
                    let x = *r.pick(&order);
                    if r.bool() && x != e { roots.push((x, *r.pick(&live))); }
                    let mut nodes = order.clone();
                    r.shuffle(&mut nodes);
                    let dup = r.chance(1, 8);
                    if dup { nodes.push(x); }
                    say("insert_view_forest", format!("insert_view_forest {roots:?}"));
                    match h.insert_view_forest(dn, nodes.clone().into_iter(), roots.clone()) {
                        Err(_) => { if !dup { return Err("insert_view_forest failed".into()); } h = before.clone().unwrap(); }
                        Ok(f) => {
                            if dup { return Err("insert_view_forest accepted a repeated node".into()); }
                            let mut seq = roots.clone();
                            seq.sort_by_key(|(a, p)| h.children(*p).position(|c| Some(&c) == f.node_map.get(a)));
                            m.graft(&from, &f.node_map, &seq, &order, &|o| o.clone())?;
                            // siblings follow the order in which the nodes were given
                            for a in &order { let b = f.node_map[a]; let got: Vec<Node> = h.children(b).collect(); let mut x = got.clone(); let mut y = m.nodes[&b].kids.clone(); x.sort(); y.sort(); if x == y { m.nodes.get_mut(&b).unwrap().kids = got; } }
                        }
                    }
                }
            }
            Ok(())
        });
        match res { None => return, Some(Err(e)) => bad = Some(e), Some(Ok(())) => {} }
        if name.is_empty() { continue; }
        o.n("edits"); o.n(name);
        kinds.insert(name);
        let cmp = match bad { Some(e) => Some(Err(e)), None => o.guard("query", || Ok(())).map(|_: Result<(), String>| Ok(())) };
        let mut sub = Obs { verbose: o.verbose, ..Obs::default() };
        if o.verbose { eprintln!("{}", log.last().unwrap()); }
        let cmp = match cmp { Some(Err(e)) => Err(e), _ => match o.guard(&format!("query after {name}"), || m.cmp(&h, &mut sub)) { Some(x) => x, None => return } };
        o.add("comparisons", sub.counts.get("comparisons").copied().unwrap_or(0));
        if let Err(e) = cmp {
            let q: String = e.chars().take_while(|c| c.is_alphabetic() || *c == '_' || *c == ' ').collect();
            o.bad(format!("{name}|{}", q.trim()), format!("after {name}: {e}; history: {}", log.iter().rev().take(8).rev().cloned().collect::<Vec<_>>().join("; ")));
            return;
        }
        o.saw(crate::rng::hash_str(&format!("{}{}{}{}", name, m.nodes.len(), m.links.len(), kinds.len())));
    }
    // a copy is independent of the original
    let c = h.clone();
    let extra = h.add_node_with_parent(h.module_root(), rand_op(&mut r));
    h.set_metadata(extra, "x", 1);
    let mut sub = Obs::default();
    match o.guard("query a copy", || m.cmp(&c, &mut sub)) { Some(Err(e)) => o.bad("clone", format!("a copy changed with the original: {e}")), _ => {} }
    o.note(|| format!("{} edits ending with {} nodes and {} links: {}", log.len(), m.nodes.len(), m.links.len(), log.iter().take(6).cloned().collect::<Vec<_>>().join("; ")));
}
pub fn prop() -> Prop {
    Prop { id: "C06", case, rule: "an edit applied to a graph, counted once per kind of edit, graph size and number of kinds used before", need: &["add_node_with_parent", "add_node_before", "add_node_after", "remove_node", "remove_subtree", "connect", "disconnect", "add_other_edge", "set_metadata", "remove_metadata", "set_parent", "move_before_sibling", "move_after_sibling", "add_ports", "set_num_ports", "insert_ports", "replace_op", "set_entrypoint", "canonicalize_nodes", "copy_descendants", "copy_descendants with types", "insert_hugr", "insert_region", "insert_from_view", "insert_forest", "insert_view_forest"], quick_s: 20, thorough_s: 600, min_cases: 60, max_cases: 30000 }
}
