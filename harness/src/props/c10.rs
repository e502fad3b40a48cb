//! Dead code and dead function removal: exactly what is not needed goes.
use crate::canon::snapshot;
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::mix;
use crate::util::*;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::types::EdgeKind;
use hugr_core::{Hugr, Node};
use hugr_passes::dead_code::{DeadCodeElimPass, PreserveNode};
use hugr_passes::{ComposablePass, RemoveDeadFuncsPass};
use std::collections::{BTreeSet, HashSet};
use std::sync::Arc;

/// What survives is as it was.
fn kept_intact(o: &mut Obs, key: &str, before: &Hugr, after: &Hugr) -> bool {
    for n in after.nodes() {
        if !before.contains_node(n) { o.bad(format!("{key}|node added"), format!("{key} added {n}")); return false; }
        o.n("kept_nodes");
        if crate::canon::cmp_op(before.get_optype(n), after.get_optype(n), Default::default()).is_err() { o.bad(format!("{key}|node altered"), format!("{key} altered {n}")); return false; }
        if before.get_parent(n) != after.get_parent(n) || crate::canon::meta(before, n) != crate::canon::meta(after, n) { o.bad(format!("{key}|node altered"), format!("{key} moved {n} or changed its metadata")); return false; }
        let f = |h: &Hugr| -> BTreeSet<String> { h.node_outputs(n).flat_map(|p| h.linked_inputs(n, p).filter(|(t, _)| after.contains_node(*t)).map(move |(t, q)| format!("{p:?}>{t}{q:?}")).collect::<Vec<_>>()).collect() };
        if f(before) != f(after) { o.bad(format!("{key}|links altered"), format!("{key} changed the links of {n} ({}): {:?} became {:?}", describe(before.get_optype(n)), f(before), f(after))); return false; }
        let ch: Vec<Node> = before.children(n).filter(|c| after.contains_node(*c)).collect();
        if ch != after.children(n).collect::<Vec<_>>() { o.bad(format!("{key}|children reordered"), format!("{key} changed the order of the children of {n}")); return false; }
    }
    true
}
fn copyable_outs(h: &Hugr, n: Node) -> Vec<(hugr_core::OutgoingPort, bool)> { h.node_outputs(n).filter_map(|p| match h.get_optype(n).port_kind(p) { Some(EdgeKind::Value(t)) => Some((p, t.copyable())), _ => None }).collect() }
/// The nodes that the documentation says are needed, as a least fixed point over all nodes.
fn needed(h: &Hugr, entry_points: &[Node], keep: &dyn Fn(&Hugr, Node) -> PreserveNode) -> HashSet<Node> {
    fn must(h: &Hugr, n: Node, keep: &dyn Fn(&Hugr, Node) -> PreserveNode) -> bool {
        match keep(h, n) { PreserveNode::MustKeep => true, PreserveNode::CanRemoveIgnoringChildren => false, PreserveNode::DeferToChildren => h.children(n).any(|c| must(h, c, keep)) }
    }
    let inside: HashSet<Node> = h.entry_descendants().collect();
    let all: Vec<Node> = h.nodes().collect();
    let preserved: HashSet<Node> = all.iter().copied().filter(|n| must(h, *n, keep)).collect();
    let mut s: HashSet<Node> = entry_points.iter().copied().chain([h.entrypoint()]).collect();
    loop {
        let k = s.len();
        for n in &all {
            if s.contains(n) { continue; }
            let structural = matches!(h.get_optype(*n), OpType::Case(_) | OpType::DataflowBlock(_) | OpType::ExitBlock(_) | OpType::AliasDecl(_) | OpType::AliasDefn(_) | OpType::Input(_) | OpType::Output(_));
            let yes = h.get_parent(*n).is_some_and(|p| s.contains(&p) && (structural || preserved.contains(n)))
                || h.output_neighbours(*n).any(|t| s.contains(&t))
                || (inside.contains(n) && h.children(*n).any(|t| s.contains(&t)))
                || (inside.contains(n) && h.output_neighbours(*n).any(|t| !inside.contains(&t)))
                || h.node_inputs(*n).any(|p| h.linked_outputs(*n, p).any(|(f, q)| s.contains(&f) && copyable_outs(h, f).contains(&(q, false))));
            if yes { s.insert(*n); }
        }
        if s.len() == k { return s; }
    }
}
fn reachable(h: &Hugr, roots: &[Node]) -> HashSet<Node> {
    let top = |n: Node| { let mut n = n; while h.get_parent(n) != Some(h.module_root()) { n = h.get_parent(n)?; } Some(n) };
    let mut s: HashSet<Node> = roots.iter().filter_map(|n| top(*n)).collect();
    loop {
        let k = s.len();
        for f in h.children(h.module_root()) {
            if s.contains(&f) { continue; }
            if h.output_neighbours(f).any(|u| top(u).is_some_and(|g| s.contains(&g))) { s.insert(f); }
        }
        if s.len() == k { return s; }
    }
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 10);
    let cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[20, 60, 120]) } else { *r.pick(&[12, 30, 60]) }, funcs: r.range(1, 7), dead_blocks: r.bool(), ..Cfg::default() }.vary(&mut r));
    let Some(p) = prog(o, seed, idx, &cfg) else { return };
    let ins = inputs(&p.ins, &mut r, 2);
    let want = reference(o, &p.hugr, p.main, &ins, 30_000);
    for round in 0..4 {
        let mut h = p.hugr.clone();
        crate::spice::any_entry(&mut r, &mut h, p.main);
        let before = h.clone();
        if round % 2 == 0 {
            // functions
            let fs: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
            let k = r.below(3);
            let mut roots: Vec<Node> = (0..k).map(|_| *r.pick(&fs)).collect();
            let in_module = h.entrypoint() == h.module_root();
            if in_module && r.bool() { roots.push(p.main); }
            let pass = RemoveDeadFuncsPass::default().with_module_entry_points(roots.clone());
            match o.guard("deadfuncs", || pass.run(&mut h)) { None => return, Some(Err(e)) => { o.bad("deadfuncs|error", format!("failed on a valid program: {e}")); return } Some(Ok(())) => {} }
            if !in_module { roots.push(h.entrypoint()); }
            let live = reachable(&before, &roots);
            for f in before.children(before.module_root()) {
                let is_f = OpTag::Function.is_superset(before.get_optype(f).tag());
                let expect = !is_f || live.contains(&f);
                o.n(if expect { "functions_kept" } else { "functions_removed" });
                if h.contains_node(f) != expect { o.bad(format!("deadfuncs|{}", if expect { "needed function removed" } else { "unneeded function kept" }), format!("{} ({}) from roots {roots:?}", f, describe(before.get_optype(f)))); return; }
            }
            let gone: usize = before.children(before.module_root()).filter(|f| !h.contains_node(*f)).map(|f| before.descendants(f).count()).sum();
            if h.num_nodes() + gone != before.num_nodes() { o.bad("deadfuncs|wrong nodes removed", format!("{} nodes became {}, although the removed functions had {gone}", before.num_nodes(), h.num_nodes())); return; }
            if !kept_intact(o, "deadfuncs", &before, &h) || !check_valid(o, "deadfuncs", &h) { return; }
            if h.contains_node(p.main) && !same(o, "deadfuncs", &h, p.main, &want, |x| x.clone()) { return; }
            let s = snapshot(&h);
            if pass_again(o, || RemoveDeadFuncsPass::default().with_module_entry_points(roots.iter().copied().filter(|n| before.get_optype(*n).is_func_defn())).run(&mut h).is_ok()) && snapshot(&h) != s { o.bad("deadfuncs|second run", "a second run changed the program"); return; }
            if gone > 0 { o.saws(&format!("f{:x}", crate::rng::hash_str(&outline(&h)))); }
        } else {
            // code
            let ns: Vec<Node> = h.entry_descendants().collect();
            let mut eps: Vec<Node> = vec![];
            if h.entrypoint() == h.module_root() { eps.push(p.main); }
            if r.chance(1, 3) { for _ in 0..r.range(1, 3) { eps.push(*r.pick(&ns)); } }
            let mode = if r.bool() { 0 } else { r.range(1, 3) };
            let salt = r.u64();
            let keep = move |h: &Hugr, n: Node| match mode {
                0 => PreserveNode::default_for(h, n),
                1 => if mix(&[salt, n.index_() as u64]) % 8 == 0 { PreserveNode::MustKeep } else { PreserveNode::default_for(h, n) },
                _ => match mix(&[salt, n.index_() as u64]) % 6 { 0 => PreserveNode::MustKeep, 1 => PreserveNode::CanRemoveIgnoringChildren, 2 | 3 => PreserveNode::DeferToChildren, _ => PreserveNode::default_for(h, n) },
            };
            let mut pass = DeadCodeElimPass::<Hugr>::default().with_entry_points(eps.clone());
            if mode != 0 || r.bool() { pass = pass.set_preserve_callback(Arc::new(keep)); }
            let key = format!("deadcode{}", if mode == 2 { "(free choice)" } else { "" });
            match o.guard(&key, || pass.run(&mut h)) { None => return, Some(Err(e)) => { o.bad("deadcode|error", format!("failed on a valid program: {e}")); return } Some(Ok(())) => {} }
            let need = needed(&before, &eps, &keep);
            for n in before.nodes() {
                let inside = n == before.entrypoint() || before.entry_descendants().any(|x| x == n);
                let expect = !inside || need.contains(&n);
                o.n(if expect { "nodes_needed" } else { "nodes_not_needed" });
                if h.contains_node(n) != expect { o.bad(format!("{key}|{}", if expect { "needed node removed" } else { "unneeded node kept" }), format!("{n} ({})", describe(before.get_optype(n)))); if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("eps {eps:?}\nBEFORE\n{}\nAFTER\n{}", outline(&before), outline(&h)); } return; }
            }
            if !kept_intact(o, &key, &before, &h) || !check_valid(o, &key, &h) { if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("eps {eps:?}\nBEFORE\n{}\nAFTER\n{}", outline(&before), outline(&h)); } return; }
            if mode != 2 && h.contains_node(p.main) && !same(o, &key, &h, p.main, &want, |x| x.clone()) { return; }
            let s = snapshot(&h);
            if pass_again(o, || pass.run(&mut h).is_ok()) && snapshot(&h) != s && mode != 2 { o.bad(format!("{key}|second run"), "a second run changed the program"); return; }
            if h.num_nodes() < before.num_nodes() { o.saws(&format!("c{:x}", crate::rng::hash_str(&outline(&h)))); }
        }
    }
    o.note(|| format!("program of {} nodes, {} functions", p.hugr.num_nodes(), p.funcs.len()));
}
fn pass_again(o: &mut Obs, f: impl FnOnce() -> bool) -> bool { o.n("second_runs"); o.guard("second run", f).unwrap_or(false) }
pub fn prop() -> Prop {
    Prop { id: "C10", case, rule: "a pass removed something from a generated program (distinct resulting programs)", need: &["functions_kept", "functions_removed", "nodes_needed", "nodes_not_needed", "kept_nodes", "compared_runs", "second_runs"], quick_s: 25, thorough_s: 600, min_cases: 60, max_cases: 20000 }
}
