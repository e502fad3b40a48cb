//! Rewrites: verify and apply agree, refusals change nothing, applied rewrites keep
//! validity, behaviour and everything outside the nodes they name.
use crate::canon::snapshot;
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::util::*;
use hugr_core::builder::{DFGBuilder, Dataflow, DataflowHugr};
use hugr_core::extension::prelude::Noop;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::patch::consts::{RemoveConst, RemoveLoadConstant};
use hugr_core::hugr::patch::inline_call::InlineCall;
use hugr_core::hugr::patch::inline_dfg::InlineDFG;
use hugr_core::hugr::patch::insert_cut::InsertCut;
use hugr_core::hugr::patch::insert_identity::IdentityInsertion;
use hugr_core::hugr::patch::outline_cfg::OutlineCfg;
use hugr_core::hugr::patch::peel_loop::PeelTailLoop;
use hugr_core::hugr::patch::replace::{NewEdgeKind, NewEdgeSpec, Replacement};
use hugr_core::hugr::patch::{Patch, PatchVerification, SimpleReplacement};
use hugr_core::hugr::views::{HugrView, SiblingSubgraph};
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::types::{EdgeKind, Signature, Type};
use hugr_core::{Direction, Hugr, IncomingPort, Node, OutgoingPort, PortIndex};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

const KINDS: &[&str] = &["inline_call", "inline_dfg", "remove_load", "remove_const", "insert_cut", "identity", "outline", "peel", "replace_copy", "replace_noop", "simple_copy", "simple_noop"];

fn links_from(h: &Hugr, n: Node) -> Vec<(OutgoingPort, Node, IncomingPort)> { h.node_outputs(n).flat_map(|p| h.linked_inputs(n, p).map(move |(t, q)| (p, t, q)).collect::<Vec<_>>()).collect() }
fn links_to(h: &Hugr, n: Node) -> Vec<(IncomingPort, Node, OutgoingPort)> { h.node_inputs(n).flat_map(|p| h.linked_outputs(n, p).map(move |(t, q)| (p, t, q)).collect::<Vec<_>>()).collect() }
fn edge_kind(h: &Hugr, s: Node, sp: OutgoingPort, tp: IncomingPort) -> Option<NewEdgeKind> {
    Some(match h.get_optype(s).port_kind(sp)? {
        EdgeKind::Value(_) => NewEdgeKind::Value { src_pos: sp, tgt_pos: tp },
        EdgeKind::StateOrder => NewEdgeKind::Order,
        EdgeKind::Const(_) | EdgeKind::Function(_) => NewEdgeKind::Static { src_pos: sp, tgt_pos: tp },
        EdgeKind::ControlFlow => NewEdgeKind::ControlFlow { src_pos: sp },
        _ => return None,
    })
}
/// All value, static and control ports are distinguished, order edges are not.
fn describe_edges(h: &Hugr, n: Node) -> String { let mut v: Vec<String> = links_to(h, n).iter().map(|(p, s, q)| format!("{p:?}<{s}{q:?}")).collect(); v.sort(); v.join(" ") }

/// An identity-like replacement of some siblings by copies of themselves.
fn copy_replacement(r: &mut Rng, h: &Hugr, bad: bool) -> Option<Replacement> {
    let parents: Vec<Node> = h.descendants(h.module_root()).filter(|n| *n != h.module_root() && h.get_optype(*n).is_container() && !matches!(h.get_optype(*n), OpType::Conditional(_)) && h.children(*n).count() > 2).collect();
    let p = *r.pick_opt(&parents)?;
    let cand: Vec<Node> = h.children(p).skip(2).filter(|n| *n != h.entrypoint() && !h.descendants(*n).any(|d| d == h.entrypoint())).collect();
    let k = r.range(1, 4);
    let mut s: Vec<Node> = (0..k).filter_map(|_| r.pick_opt(&cand).copied()).collect();
    s.sort(); s.dedup();
    if s.is_empty() { return None; }
    let set: HashSet<Node> = s.iter().copied().collect();
    let mut g = Hugr::new_with_entrypoint(h.get_optype(p).clone()).ok()?;
    let gp = g.entrypoint();
    for c in g.children(gp).collect::<Vec<_>>() { g.remove_subtree(c); }
    let mut map = HashMap::new();
    let mut adoptions = HashMap::new();
    for n in &s {
        let c = g.add_node_with_parent(gp, h.get_optype(*n).clone());
        map.insert(*n, c);
        if h.children(*n).next().is_some() {
            // children come along by adoption or as copies (if they have no edges across)
            let sub: HashSet<Node> = h.descendants(*n).collect();
            let closed = sub.iter().filter(|x| *x != n).all(|x| links_to(h, *x).iter().all(|(_, s, _)| sub.contains(s)) && links_from(h, *x).iter().all(|(_, t, _)| sub.contains(t)));
            if closed && r.bool() {
                for ch in h.children(*n) { g.insert_from_view(c, &h.with_entrypoint(ch)); }
                // links among the children
                let m: HashMap<Node, Node> = h.descendants(*n).zip(g.descendants(c).collect::<Vec<_>>()).collect();
                if h.descendants(*n).zip(g.descendants(c)).any(|(a, b)| h.get_optype(a) != g.get_optype(b)) { return None; }
                for ch in h.children(*n) { for (sp, t, tp) in links_from(h, ch) { if sub.contains(&t) && !g.linked_inputs(m[&ch], sp).any(|y| y == (m[&t], tp)) { g.connect(m[&ch], sp, m[&t], tp); } } }
                for x in sub.iter().filter(|x| h.get_parent(**x) != Some(*n) && *x != n) { for (sp, t, tp) in links_from(h, *x) { if !g.linked_inputs(m[x], sp).any(|y| y == (m[&t], tp)) { g.connect(m[x], sp, m[&t], tp); } } }
            } else { adoptions.insert(c, *n); }
        }
    }
    let (mut mu_inp, mut mu_out) = (vec![], vec![]);
    for n in &s {
        for (sp, t, tp) in links_from(h, *n) {
            if set.contains(&t) { g.connect(map[n], sp, map[&t], tp); continue; }
            mu_out.push(NewEdgeSpec { src: map[n], tgt: t, kind: edge_kind(h, *n, sp, tp)? });
        }
        for (tp, f, sp) in links_to(h, *n) { if !set.contains(&f) { mu_inp.push(NewEdgeSpec { src: f, tgt: map[n], kind: edge_kind(h, f, sp, tp)? }); } }
    }
    if bad {
        // something that must be refused
        match r.below(4) {
            0 => { let other: Vec<Node> = h.children(h.module_root()).collect(); s.push(*r.pick(&other)); }
            1 => { let e = mu_out.first_mut()?; e.tgt = s[0]; }
            2 => { let e = mu_inp.first_mut()?; e.src = s[0]; }
            _ => { let e = mu_inp.first_mut()?; e.tgt = gp; }
        }
    }
    Some(Replacement { removal: s, replacement: g, adoptions, mu_inp, mu_out, mu_new: vec![] })
}
/// A dataflow program that passes everything through, some of it by way of no-ops.
fn pass_through(r: &mut Rng, tys: Vec<Type>) -> Option<Hugr> {
    let mut b = DFGBuilder::new(Signature::new_endo(tys.clone())).unwrap();
    let ws: Vec<_> = b.input_wires().collect();
    let outs: Vec<_> = ws.into_iter().zip(tys).map(|(w, t)| { let mut w = w; for _ in 0..r.below(3) { w = b.add_dataflow_op(Noop::new(t.clone()), [w]).unwrap().outputs().next().unwrap(); } w }).collect();
    b.finish_hugr_with_outputs(outs).ok()
}
struct Res { verify: Result<(), String>, apply: Result<BTreeSet<Node>, String>, unchanged: bool }
fn run<P, T>(h: &mut Hugr, p: P) -> Res where P: Patch<Hugr, Outcome = T> + PatchVerification<Node = Node>, P::Error: std::fmt::Debug {
    let verify = p.verify(h).map_err(|e| format!("{e:?}"));
    let inv: BTreeSet<Node> = p.invalidated_nodes(h).collect();
    let unchanged = P::UNCHANGED_ON_FAILURE;
    let apply = p.apply(h).map(|_| inv).map_err(|e| format!("{e:?}"));
    Res { verify, apply, unchanged }
}
/// A subgraph of some siblings, with a program to put in its place.
fn simple(r: &mut Rng, h: &Hugr, noop: bool) -> Option<SimpleReplacement> {
    let parents: Vec<Node> = h.descendants(h.module_root()).filter(|n| OpTag::DataflowParent.is_superset(h.get_optype(*n).tag()) && h.children(*n).count() > 2).collect();
    let p = *r.pick_opt(&parents)?;
    let all: Vec<Node> = h.children(p).skip(2).filter(|n| !h.descendants(*n).any(|d| d == h.entrypoint())).collect();
    let mut s: HashSet<Node> = HashSet::from([*r.pick_opt(&all)?]);
    for _ in 0..r.below(5) { let x = *r.pick(&s.iter().copied().collect::<Vec<_>>()); let nb: Vec<Node> = h.all_neighbours(x).filter(|y| all.contains(y)).collect(); if let Some(y) = r.pick_opt(&nb) { s.insert(*y); } }
    let mut s: Vec<Node> = s.into_iter().collect();
    s.sort();
    let sub = SiblingSubgraph::try_from_nodes(s, h).ok()?;
    if !sub.function_calls().is_empty() { return None; }
    let mut rep = sub.extract_subgraph(h, "sub");
    // the replacement is a DFG
    let f = rep.entrypoint();
    if let OpType::FuncDefn(fd) = rep.get_optype(f).clone() {
        let sig = fd.signature().body().clone();
        let mut b = Hugr::new_with_entrypoint(hugr_core::ops::DFG { signature: sig }).ok()?;
        for c in b.children(b.entrypoint()).collect::<Vec<_>>() { b.remove_subtree(c); }
        let be = b.entrypoint();
        let nodes: Vec<Node> = rep.descendants(f).skip(1).collect();
        let roots: Vec<(Node, Node)> = rep.children(f).map(|c| (c, be)).collect();
        b.insert_view_forest(&rep, nodes.into_iter(), roots).ok()?;
        rep = b;
    }
    if noop {
        // a no-op on some edge of the replacement
        let e: Vec<(Node, IncomingPort)> = rep.children(rep.entrypoint()).flat_map(|n| links_to(&rep, n).into_iter().filter(|(p, s, q)| { let _ = p; matches!(rep.get_optype(*s).port_kind(*q), Some(EdgeKind::Value(_))) }).map(move |(p, _, _)| (n, p)).collect::<Vec<_>>()).collect();
        for _ in 0..r.range(1, 3) { if let Some((n, p)) = r.pick_opt(&e) { rep.apply_patch(IdentityInsertion::new(*n, *p)).ok()?; } }
        rep.validate().ok()?;
    }
    SimpleReplacement::try_new(sub, h, rep).ok()
}
fn patch(r: &mut Rng, kind: &str, h: &mut Hugr, cyc: &mut bool) -> Option<Res> {
    let nodes: Vec<Node> = h.nodes().collect();
    let any = *r.pick(&nodes);
    let wild = r.chance(1, 6);
    let of = |r: &mut Rng, f: &dyn Fn(&OpType) -> bool| -> Option<Node> { if wild { return Some(any); } let v: Vec<Node> = nodes.iter().copied().filter(|n| f(h.get_optype(*n))).collect(); r.pick_opt(&v).copied() };
    Some(match kind {
        "inline_call" => { let n = of(r, &|o| o.is_call())?; run(h, InlineCall::new(n)) }
        "inline_dfg" => { let n = of(r, &|o| o.is_dfg())?; run(h, InlineDFG(n.into())) }
        "remove_load" => { let n = of(r, &|o| o.is_load_constant())?; run(h, RemoveLoadConstant(n)) }
        "remove_const" => { let unused: Vec<Node> = nodes.iter().copied().filter(|n| h.get_optype(*n).is_const() && h.output_neighbours(*n).next().is_none()).collect(); let n = if let (false, Some(n)) = (wild, r.pick_opt(&unused)) { *n } else { of(r, &|o| o.is_const())? }; run(h, RemoveConst(n)) }
        "peel" => { let n = of(r, &|o| o.is_tail_loop())?; run(h, PeelTailLoop::new(n)) }
        "identity" => {
            let n = any;
            if n == h.module_root() { return None; }
            let k = h.num_inputs(n);
            if k == 0 { return None; }
            let p = IncomingPort::from(r.below(k));
            let pk = h.get_optype(n).port_kind(p);
            // (a value edge exists for each value port of a valid program)
            let _ = pk;
            // its verification is documented to be incomplete
            let q = IdentityInsertion::new(n, p);
            let inv: BTreeSet<Node> = PatchVerification::invalidated_nodes(&q, h).collect();
            let res = h.apply_patch(q).map(|_| inv).map_err(|e| format!("{e:?}"));
            Res { verify: res.clone().map(|_| ()), apply: res, unchanged: true }
        }
        "insert_cut" => {
            let ns: Vec<Node> = nodes.iter().copied().filter(|n| h.get_parent(*n).is_some_and(|p| OpTag::DataflowParent.is_superset(h.get_optype(p).tag())) && h.get_optype(*n).dataflow_signature().is_some_and(|s| s.input_count() > 0)).collect();
            let n = *r.pick_opt(&ns)?;
            let sig = h.get_optype(n).dataflow_signature()?.into_owned();
            let mut ports: Vec<usize> = (0..sig.input_count()).filter(|_| r.chance(2, 3)).collect();
            r.shuffle(&mut ports);
            if ports.is_empty() { return None; }
            let tys = ports.iter().map(|p| sig.input()[*p].clone()).collect();
            let mut ins = pass_through(r, tys)?;
            let mut targets: Vec<(Node, IncomingPort)> = ports.iter().map(|p| (n, IncomingPort::from(*p))).collect();
            let mut parent = h.get_parent(n)?;
            if wild { match r.below(4) { 0 => parent = any, 1 => { targets.pop(); } 2 => { let m = ins.module_root(); ins.set_entrypoint(m); } _ => { targets[0].1 = IncomingPort::from(h.num_inputs(n) - 1) } } }
            if parent != h.get_parent(n)? { *cyc = true; }
            if wild { *cyc = true; }
            run(h, InsertCut::new(parent, targets, ins))
        }
        "outline" => {
            let cs: Vec<Node> = nodes.iter().copied().filter(|n| h.get_optype(*n).is_cfg()).collect();
            let c = *r.pick_opt(&cs)?;
            let bbs: Vec<Node> = h.children(c).filter(|n| h.get_optype(*n).is_dataflow_block()).collect();
            let mut s: BTreeSet<Node> = BTreeSet::from([*r.pick(&bbs)]);
            for _ in 0..r.below(5) { let x = *r.pick(&s.iter().copied().collect::<Vec<_>>()); let nb: Vec<Node> = h.all_neighbours(x).filter(|y| bbs.contains(y)).collect(); if let Some(y) = r.pick_opt(&nb) { s.insert(*y); } }
            if wild { s.insert(any); }
            run(h, OutlineCfg::new(s))
        }
        "replace_copy" => { let p = copy_replacement(r, h, wild)?; *cyc = wild; run(h, p) }
        "replace_noop" => {
            let n = of(r, &|o| o.cast::<Noop>().is_some())?;
            if wild || h.all_neighbours(n).count() < 2 || n == h.entrypoint() { return None; }
            let (tp, f, sp) = *links_to(h, n).first()?;
            if tp.index() != 0 || links_to(h, n).len() > 1 || links_from(h, n).iter().any(|l| l.0.index() != 0) { return None; }
            let mut g = Hugr::new_with_entrypoint(h.get_optype(h.get_parent(n)?).clone()).ok()?;
            for c in g.children(g.entrypoint()).collect::<Vec<_>>() { g.remove_subtree(c); }
            let mu_new = links_from(h, n).into_iter().map(|(_, t, q)| NewEdgeSpec { src: f, tgt: t, kind: NewEdgeKind::Value { src_pos: sp, tgt_pos: q } }).collect();
            run(h, Replacement { removal: vec![n], replacement: g, adoptions: HashMap::new(), mu_inp: vec![], mu_out: vec![], mu_new })
        }
        "simple_copy" | "simple_noop" => { let p = simple(r, h, kind == "simple_noop")?; run(h, p) }
        _ => unreachable!(),
    })
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 7);
    let cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[20, 50, 100, 200]) } else { *r.pick(&[12, 25, 50, 80]) }, dead_blocks: r.bool(), ..Cfg::default() }.vary(&mut r));
    let Some(p) = prog(o, seed, idx, &cfg) else { return };
    let ins = inputs(&p.ins, &mut r, 2);
    let mut want = reference(o, &p.hugr, p.main, &ins, 40_000);
    if want.is_empty() { o.n("no_reference"); return; }
    let mut h = p.hugr.clone();
    if r.chance(1, 3) { crate::spice::any_entry(&mut r, &mut h, p.main); }
    let only = std::env::var("HV_PASSES").unwrap_or_default();
    let pool: Vec<&str> = if only.is_empty() { KINDS.to_vec() } else { only.split(',').collect() };
    let mut done: Vec<&str> = vec![];
    for _ in 0..if o.thorough { 30 } else { 14 } {
        if h.num_nodes() > 1500 { break; }
        let kind = *r.pick(&pool);
        let before = h.clone();
        let mut rp = Rng::new(r.u64());
        let mut loose = false;
        let key = format!("rewrite:{kind}");
        let Some(res) = o.guard(&key, || { let mut h2 = before.clone(); let x = patch(&mut rp, kind, &mut h2, &mut loose); (x, h2) }) else { if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("BEFORE\n{}", outline(&before)); } return };
        let (Some(res), h2) = res else { continue };
        o.n(format!("tried:{kind}"));
        match (&res.verify, &res.apply) {
            (Ok(()), Err(e)) if !loose || kind != "insert_cut" => { o.bad(format!("{key}|verified but failed"), format!("{kind} verified, but failed with {e}")); return; }
            (Err(e), Ok(_)) => { o.bad(format!("{key}|refused but applied"), format!("{kind} was refused with {e}, but applied")); return; }
            (Err(a), Err(b)) => {
                o.n(format!("refused:{kind}"));
                let cls = |s: &str| s.chars().take_while(|c| c.is_alphanumeric()).collect::<String>();
                if cls(a) != cls(b) { o.bad(format!("{key}|errors differ"), format!("verification says {a}, application {b}")); }
            }
            _ => {}
        }
        let Ok(inv) = res.apply else {
            if res.unchanged { o.n("refusals_checked"); if snapshot(&h2) != snapshot(&before) { o.bad(format!("{key}|changed on failure"), format!("{kind} failed, but changed the program")); return; } }
            continue;
        };
        o.n(format!("applied:{kind}"));
        done.push(kind);
        if loose { continue; } // nothing is promised for a malformed request that went through
        h = h2;
        o.saws(&format!("{kind}{:x}", crate::rng::hash_str(&outline(&h))));
        // nodes that are not named as invalidated stay as they are
        for n in before.nodes() {
            if inv.contains(&n) || before_anc(&before, n).iter().any(|a| inv.contains(a)) { continue; }
            o.n("kept_nodes");
            if !h.contains_node(n) { o.bad(format!("{key}|node gone"), format!("{kind} removed {n} ({}), which it does not name as invalidated", describe(before.get_optype(n)))); return; }
            if crate::canon::cmp_op(before.get_optype(n), h.get_optype(n), Default::default()).is_err() { o.bad(format!("{key}|node altered"), format!("{kind} altered {n} ({}), which it does not name as invalidated", describe(before.get_optype(n)))); return; }
            if before.get_parent(n) != h.get_parent(n) { o.bad(format!("{key}|node moved"), format!("{kind} moved {n}, which it does not name as invalidated")); return; }
            let (a, b): (BTreeMap<_, _>, BTreeMap<_, _>) = (crate::canon::meta(&before, n), crate::canon::meta(&h, n));
            if a != b { o.bad(format!("{key}|metadata altered"), format!("{kind} changed the metadata of {n}")); return; }
        }
        if h.module_root() != before.module_root() { o.bad(format!("{key}|module root"), "the module root changed"); return; }
        // values of outlined blocks that are used by blocks that stay outside
        let dom = kind == "outline" && inv.iter().any(|b| before.children(*b).any(|n| links_from(&before, n).iter().any(|(_, t, _)| { let a = before_anc(&before, *t); !a.contains(b) && a.contains(&before.get_parent(*b).unwrap()) && !a.iter().any(|x| inv.contains(x)) })));
        let vkey = if dom { format!("{key}, values used outside") } else { key.clone() };
        let ok = check_valid(o, &vkey, &h);
        let Some(m) = func_named(&h, "main") else { o.bad(format!("{key}|main lost"), "main is gone"); return };
        let (fine, outs) = if ok { same_out(o, &key, &h, m, &want, |x| x.clone()) } else { (false, vec![]) };
        if !fine { if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("BEFORE\n{}\nAFTER\n{}", outline(&before), outline(&h)); } return; }
        if outs.is_empty() { return; }
        want = outs;
    }
    let _ = (describe_edges as fn(&Hugr, Node) -> String, Direction::Incoming);
    o.note(|| format!("program of {} nodes, rewrites {done:?}", p.hugr.num_nodes()));
}
fn before_anc(h: &Hugr, n: Node) -> Vec<Node> { let mut v = vec![]; let mut n = n; while let Some(p) = h.get_parent(n) { v.push(p); n = p; } v }
pub fn prop() -> Prop {
    Prop { id: "C07", case, rule: "a rewrite was applied to a generated program (distinct kinds and resulting programs)", need: &["applied:inline_call", "applied:inline_dfg", "applied:remove_load", "applied:remove_const", "applied:insert_cut", "applied:identity", "applied:outline", "applied:peel", "applied:replace_copy", "applied:replace_noop", "applied:simple_copy", "applied:simple_noop", "refusals_checked", "compared_runs", "kept_nodes"], quick_s: 30, thorough_s: 900, min_cases: 60, max_cases: 12000 }
}
