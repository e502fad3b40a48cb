//! Localizing edges.
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::util::*;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::OpType;
use hugr_core::types::EdgeKind;
use hugr_core::{Hugr, IncomingPort, Node};
use hugr_passes::non_local::{ensure_no_nonlocal_edges, nonlocal_edges, remove_nonlocal_edges, FindNonLocalEdgesError, LocalizeEdges};
use hugr_passes::ComposablePass;
use std::collections::{BTreeSet, HashSet};

/// Value edges beneath the entrypoint between different regions.
fn nonlocal(h: &Hugr) -> BTreeSet<(Node, IncomingPort)> {
    let inside: HashSet<Node> = h.entry_descendants().collect();
    let mut s = BTreeSet::new();
    for n in h.nodes() {
        for p in h.node_outputs(n) {
            if !matches!(h.get_optype(n).port_kind(p), Some(EdgeKind::Value(_))) { continue; }
            for (t, q) in h.linked_inputs(n, p) { if inside.contains(&n) && inside.contains(&t) && h.get_parent(n) != h.get_parent(t) { s.insert((t, q)); } }
        }
    }
    s
}
fn agree(o: &mut Obs, h: &Hugr, when: &str) -> Option<BTreeSet<(Node, IncomingPort)>> {
    let want = nonlocal(h);
    let got: Vec<_> = o.guard("nonlocal_edges", || nonlocal_edges(h).collect())?;
    if got.len() != want.len() || got.iter().copied().collect::<BTreeSet<_>>() != want { o.bad("nonlocal_edges|wrong", format!("{when}: reported {got:?}, there are {want:?}")); return None; }
    let r = o.guard("ensure", || ensure_no_nonlocal_edges(h))?;
    match r {
        Ok(()) if want.is_empty() => o.n("ensured_none"),
        Err(FindNonLocalEdgesError::Edges(v)) if !want.is_empty() && v.iter().copied().collect::<BTreeSet<_>>() == want => o.n("ensured_some"),
        r => { o.bad("ensure_no_nonlocal_edges|wrong", format!("{when}: {r:?}, there are {want:?}")); return None; }
    }
    Some(want)
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 16);
    let mut cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[20, 60, 150]) } else { *r.pick(&[12, 30, 70]) }, dead_blocks: r.bool(), ..Cfg::default() }.vary(&mut r));
    cfg.nonlocal = cfg.nonlocal || r.chance(2, 3);
    let Some(p) = prog(o, seed, idx, &cfg) else { return };
    let ins = inputs(&p.ins, &mut r, 3);
    let want = reference(o, &p.hugr, p.main, &ins, 30_000);
    if want.is_empty() { o.n("no_reference"); return; }
    for _ in 0..2 {
        let mut h = p.hugr.clone();
        let e = crate::props::c09::pick_entry(&mut r, &h, p.main);
        h.set_entrypoint(e);
        // (a documented assumption: nothing outside the entrypoint is used nonlocally inside it)
        if crate::props::c09::entry_uses_outside(&h) { o.n("open_entry"); continue; }
        let before = h.clone();
        let Some(edges) = agree(o, &h, "before") else { return };
        let key = match h.entrypoint_optype() { OpType::Module(_) | OpType::FuncDefn(_) => "localize".to_string(), op => format!("localize@{}", crate::props::c09::optype_name(op)) };
        let via = r.bool();
        let ok = o.guard(&key, || if via { LocalizeEdges.run(&mut h) } else { remove_nonlocal_edges(&mut h) });
        match ok { None => return, Some(Err(e)) => { o.bad(format!("{key}|error"), format!("{e}")); return } Some(Ok(())) => {} }
        o.add("edges_localized", edges.len() as u64);
        for (n, _) in &edges { o.n(format!("into:{}", before.get_parent(*n).map(|p| crate::props::c09::optype_name(before.get_optype(p))).unwrap_or(""))); }
        let Some(left) = agree(o, &h, "after") else { return };
        if !left.is_empty() { o.bad(format!("{key}|left"), format!("the edges {left:?} are still non-local")); return; }
        if edges.is_empty() && outline(&h) != outline(&before) { o.bad(format!("{key}|needless"), "changed a program without non-local edges"); return; }
        if h.entrypoint() != e || sig_of(&h, e) != sig_of(&before, e) { o.bad(format!("{key}|interface"), format!("the signature of the entrypoint changed from {} to {}", sig_of(&before, e), sig_of(&h, e))); return; }
        if let Some(n) = before.nodes().find(|n| !h.contains_node(*n)) { o.bad(format!("{key}|node gone"), format!("{n} is gone")); return; }
        // only containers, their inputs and outputs and control structure may change
        for n in before.nodes() {
            let (a, b) = (before.get_optype(n), h.get_optype(n));
            if a.is_container() || matches!(a, OpType::Input(_) | OpType::Output(_) | OpType::ExitBlock(_) | OpType::Tag(_)) { continue; }
            o.n("leaves_compared");
            if crate::canon::cmp_op(a, b, Default::default()).is_err() { o.bad(format!("{key}|leaf altered"), format!("{n} {} became {}", describe(a), describe(b))); return; }
        }
        if !check_valid(o, &key, &h) || !same(o, &key, &h, p.main, &want, |x| x.clone()) { if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("BEFORE\n{}\nAFTER\n{}", outline(&before), outline(&h)); } return; }
        if !edges.is_empty() { o.saws(&outline(&h)); }
        o.note(|| format!("program of {} nodes, entry {e}, {} non-local edges", h.num_nodes(), edges.len()));
    }
}
pub fn prop() -> Prop {
    Prop { id: "C16", case, rule: "a generated program with non-local edges was localized (distinct results)", need: &["edges_localized", "ensured_none", "ensured_some", "leaves_compared", "compared_runs", "into:Case", "into:DFG", "into:TailLoop", "into:Block"], quick_s: 20, thorough_s: 400, min_cases: 100, max_cases: 20000 }
}
