//! Forcing an order: one chain per region, compatible with dependencies and ranks.
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::mix;
use crate::util::*;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::{OpTag, OpTrait};
use hugr_core::types::EdgeKind;
use hugr_core::{Direction, Hugr, Node};
use hugr_passes::force_order::{force_order, force_order_by_key};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

fn edges(h: &Hugr) -> BTreeSet<String> { h.nodes().flat_map(|n| h.node_outputs(n).flat_map(move |p| h.linked_inputs(n, p).map(move |(t, q)| format!("{n}.{p:?}>{t}.{q:?}")))).collect() }
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 15);
    let cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[20, 60, 150]) } else { *r.pick(&[12, 30, 70]) }, dead_blocks: r.bool(), ..Cfg::default() }.vary(&mut r));
    let Some(p) = prog(o, seed, idx, &cfg) else { return };
    let ins = inputs(&p.ins, &mut r, 2);
    let want = reference(o, &p.hugr, p.main, &ins, 30_000);
    let mut h = p.hugr.clone();
    if r.bool() { crate::spice::any_entry(&mut r, &mut h, p.main); }
    let before = h.clone();
    let conts: Vec<Node> = h.descendants(h.module_root()).filter(|n| h.get_optype(*n).is_container()).collect();
    let root = if r.chance(2, 3) { h.module_root() } else { *r.pick(&conts) };
    let (salt, m) = (r.u64(), *r.pick(&[1u64, 2, 5, 1000]));
    let mode = r.below(3);
    let rank = move |n: Node| -> i64 { match mode { 0 => n.index_() as i64, 1 => -(n.index_() as i64), _ => (mix(&[salt, n.index_() as u64]) % m) as i64 - (m / 2) as i64 } };
    let key = "force_order";
    let by_key = r.bool();
    let res = o.guard(key, || if by_key { force_order_by_key(&mut h, root, |_, n| (rank(n), 0u8)) } else { force_order(&mut h, root, |_, n| rank(n)) });
    match res { None => return, Some(Err(e)) => { o.bad("force_order|error", format!("failed on a valid program: {e}")); return } Some(Ok(())) => {} }
    if h.nodes().count() != before.nodes().count() || before.nodes().any(|n| !h.contains_node(n) || before.get_parent(n) != h.get_parent(n)) { o.bad("force_order|nodes changed", "nodes were added, removed or moved"); return; }
    let (eb, ea) = (edges(&before), edges(&h));
    if let Some(e) = eb.difference(&ea).next() { o.bad("force_order|edge lost", format!("the edge {e} is gone")); return; }
    let mut added: BTreeMap<Node, usize> = BTreeMap::new();
    for n in h.nodes() { for q in h.node_outputs(n) { for (t, tp) in h.linked_inputs(n, q) {
        if eb.contains(&format!("{n}.{q:?}>{t}.{tp:?}")) { continue; }
        o.n("edges_added");
        if h.get_optype(n).port_kind(q) != Some(EdgeKind::StateOrder) || h.get_optype(t).port_kind(tp) != Some(EdgeKind::StateOrder) || h.get_parent(n) != h.get_parent(t) { o.bad("force_order|wrong edge added", format!("{n} {q:?} to {t} {tp:?}")); return; }
        *added.entry(h.get_parent(n).unwrap()).or_default() += 1;
    } } }
    let regions: HashSet<Node> = before.descendants(root).filter(|n| OpTag::DataflowParent.is_superset(before.get_optype(*n).tag())).collect();
    for dp in h.nodes().collect::<Vec<_>>() {
        if !regions.contains(&dp) { if added.contains_key(&dp) { o.bad("force_order|outside", format!("edges were added in {dp}, which is not within {root}")); return; } continue; }
        o.n("regions");
        let ch: Vec<Node> = h.children(dp).collect();
        let set: HashSet<Node> = ch.iter().copied().collect();
        let orderable: Vec<Node> = ch.iter().copied().filter(|n| [Direction::Incoming, Direction::Outgoing].iter().any(|d| h.get_optype(*n).other_port_kind(*d) == Some(EdgeKind::StateOrder))).collect();
        if added.get(&dp).copied().unwrap_or(0) > ch.len() - 1 { o.bad("force_order|too many edges", format!("{} edges were added among the {} children of {dp}", added[&dp], ch.len())); return; }
        // the order that the edges impose
        let oset: HashSet<Node> = orderable.iter().copied().collect();
        let mut indeg: HashMap<Node, usize> = ch.iter().map(|n| (*n, h.input_neighbours(*n).filter(|m| set.contains(m)).count())).collect();
        let mut ready: Vec<Node> = ch.iter().copied().filter(|n| indeg[n] == 0).collect();
        let mut seq = vec![];
        let mut done = 0;
        while let Some(n) = { // unordered nodes come first
            let i = ready.iter().position(|n| !oset.contains(n)).unwrap_or(0);
            if ready.is_empty() { None } else { Some(ready.swap_remove(i)) } } {
            done += 1;
            if oset.contains(&n) { seq.push(n); }
            for t in h.output_neighbours(n).filter(|m| set.contains(m)).collect::<Vec<_>>() { let d = indeg.get_mut(&t).unwrap(); *d -= 1; if *d == 0 { ready.push(t); } }
        }
        if done != ch.len() { o.bad("force_order|cycle", format!("the children of {dp} depend on each other in a cycle")); return; }
        for w in seq.windows(2) { o.n("neighbours"); if !h.output_neighbours(w[0]).any(|x| x == w[1]) { o.bad("force_order|not a chain", format!("nothing orders {} and {} in {dp}", w[0], w[1])); return; } }
        if seq.first() != Some(&ch[0]) || seq.last() != Some(&ch[1]) { o.bad("force_order|ends", format!("the chain of {dp} does not lead from its input to its output")); return; }
        // ranks: whatever was chosen had the least rank of what could have been chosen
        let inner = &seq[1..seq.len() - 1];
        let mut placed: HashSet<Node> = HashSet::from([ch[0]]);
        for (i, n) in inner.iter().enumerate() {
            for later in &inner[i + 1..] {
                if rank(*later) >= rank(*n) { continue; }
                let free = before.input_neighbours(*later).filter(|m| set.contains(m)).all(|m| placed.contains(&m) || (!oset.contains(&m) && rank(m) < rank(*n)));
                o.n("rank_choices");
                if free { o.bad("force_order|rank", format!("{n} of rank {} comes before {later} of rank {}, which depends on nothing later", rank(*n), rank(*later))); return; }
            }
            placed.insert(*n);
        }
        if inner.len() > 2 { o.saws(&format!("{seq:?}")); }
    }
    if !check_valid(o, key, &h) { return; }
    same(o, key, &h, p.main, &want, |x| x.clone());
    o.note(|| format!("program of {} nodes, {} regions, {} edges added", h.num_nodes(), regions.len(), added.values().sum::<usize>()));
}
pub fn prop() -> Prop {
    Prop { id: "C15", case, rule: "a region with more than two nodes to order was ordered (distinct orders)", need: &["regions", "neighbours", "rank_choices", "edges_added", "compared_runs"], quick_s: 20, thorough_s: 400, min_cases: 60, max_cases: 20000 }
}
