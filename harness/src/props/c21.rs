//! Nesting of control-flow regions: edge classes, the regions found, and the nested programs.
use crate::driver::{quiet_catch, Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::util::*;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::OpType;
use hugr_core::{Hugr, Node};
use hugr_passes::nest_cfgs::*;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// A graph of its own, that records the nesting asked for.
#[derive(Clone, Debug)]
struct G { succ: BTreeMap<usize, Vec<usize>>, entry: usize, exit: usize, next: usize, nested: Vec<((usize, usize), (usize, usize), BTreeSet<usize>, usize)>, bad: Vec<String> }
impl G {
    fn preds(&self, n: usize) -> Vec<usize> { let mut v = vec![]; for (s, l) in &self.succ { for t in l { if *t == n { v.push(*s); } } } v }
    fn edges(&self) -> Vec<(usize, usize)> { self.succ.iter().flat_map(|(s, l)| l.iter().map(move |t| (*s, *t))).collect() }
    fn set(&self) -> BTreeSet<(usize, usize)> { self.edges().into_iter().collect() }
}
fn reach(es: &[(usize, usize)], from: usize, fwd: bool) -> BTreeSet<usize> {
    let mut s = BTreeSet::from([from]); let mut q = vec![from];
    while let Some(n) = q.pop() { for (a, b) in es { let (a, b) = if fwd { (*a, *b) } else { (*b, *a) }; if a == n && s.insert(b) { q.push(b); } } }
    s
}
impl CfgNodeMap<usize> for G {
    fn entry_node(&self) -> usize { self.entry }
    fn exit_node(&self) -> usize { self.exit }
    fn successors(&self, n: usize) -> impl Iterator<Item = usize> { self.succ.get(&n).cloned().unwrap_or_default().into_iter() }
    fn predecessors(&self, n: usize) -> impl Iterator<Item = usize> { self.preds(n).into_iter() }
}
impl CfgNester<usize> for G {
    fn nest_sese_region(&mut self, e: (usize, usize), x: (usize, usize)) -> usize {
        let es = self.edges();
        // the blocks between: reachable from the entry edge without crossing the exit edge
        let inner: Vec<_> = es.iter().copied().filter(|y| *y != x).collect();
        let blocks = reach(&inner, e.1, true);
        let ins: Vec<_> = es.iter().filter(|(a, b)| !blocks.contains(a) && blocks.contains(b)).collect();
        let outs: Vec<_> = es.iter().filter(|(a, b)| blocks.contains(a) && !blocks.contains(b)).collect();
        if ins != [&e] { self.bad.push(format!("entered|region from {e:?} to {x:?} of {es:?} is entered by {ins:?}")); }
        if outs != [&x] { self.bad.push(format!("left|region from {e:?} to {x:?} of {es:?} is left by {outs:?}")); }
        if blocks.contains(&self.entry) || blocks.contains(&self.exit) { self.bad.push(format!("ends|region from {e:?} to {x:?} contains the entry or exit")); }
        match region_blocks(self, e, x) { Ok(b) => { let b: BTreeSet<usize> = b.into_iter().collect(); if b != blocks { self.bad.push(format!("region_blocks|{b:?} instead of {blocks:?}")); } } Err(err) => self.bad.push(format!("region_blocks refuses|{err:?}")) }
        let n = self.next; self.next += 1;
        self.nested.push((e, x, blocks.clone(), n));
        for b in &blocks { self.succ.remove(b); }
        for l in self.succ.values_mut() { for t in l.iter_mut() { if blocks.contains(t) { *t = n; } } }
        self.succ.insert(n, vec![x.1]);
        n
    }
}
/// Random control flow. Every node is reachable from the entry, unless `loose`.
fn graph(r: &mut Rng, multi: bool, selfs: bool, loose: bool) -> G {
    loop {
        let n = r.range(2, *r.clone().pick(&[4, 6, 8, 10, 14]));
        let mut succ: BTreeMap<usize, Vec<usize>> = BTreeMap::new();
        let shape = r.below(3);
        for k in (0..n).filter(|k| *k != 1) {
            let d = *r.pick(&[1usize, 1, 1, 2, 2, 3]);
            let mut l = vec![];
            for _ in 0..d { let t = match shape { 0 => r.below(n), 1 => if r.chance(4, 5) { if k + 1 >= n { 1 } else { r.range(k.max(1) + 1, n.max(k.max(1) + 1)) } } else { r.below(n) }, _ => { let lo = k.saturating_sub(3); let hi = (k + 3).min(n - 1); if r.chance(1, 8) { 1 } else { r.range(lo, hi) } } }; let t = if t >= n { 1 } else { t }; if (multi || !l.contains(&t)) && (selfs || t != k) { l.push(t); } }
            succ.insert(k, l);
        }
        if multi { for l in succ.values_mut() { if !l.is_empty() && r.chance(1, 5) { let t = *r.pick(l); l.push(t); } } }
        if selfs && r.chance(1, 2) { let ks: Vec<usize> = succ.keys().copied().collect(); let k = *r.pick(&ks); succ.get_mut(&k).unwrap().push(k); }
        let mut g = G { succ, entry: 0, exit: 1, next: 1000, nested: vec![], bad: vec![] };
        if !loose {
            let f = reach(&g.edges(), 0, true);
            if !f.contains(&1) { continue }
            g.succ.retain(|k, _| f.contains(k));
        }
        g.succ.insert(1, vec![]);
        return g;
    }
}
/// Edges (as a set) within the part that is reachable from the entry and reaches the exit; with the extra edge.
fn core(g: &G) -> Vec<(usize, usize)> {
    let es: Vec<_> = g.set().into_iter().collect();
    let (f, b) = (reach(&es, g.entry, true), reach(&es, g.exit, false));
    es.into_iter().filter(|(x, y)| [x, y].iter().all(|n| f.contains(n) && b.contains(n))).collect()
}
/// Whether every cycle through `a` also goes through `b`.
fn implied(es: &[(usize, usize)], a: (usize, usize), b: (usize, usize)) -> bool { let left: Vec<_> = es.iter().copied().filter(|e| *e != b).collect(); !reach(&left, a.1, true).contains(&a.0) }

fn abstract_(o: &mut Obs, r: &mut Rng) {
    let (multi, selfs, loose) = (r.chance(1, 4), r.chance(1, 4), r.chance(1, 4));
    let g = graph(r, multi, selfs, loose);
    let es = core(&g);
    let count = |e: &(usize, usize)| g.edges().iter().filter(|x| *x == e).count();
    let odd = if g.edges().iter().any(|(a, b)| a == b) { "+selfloop" } else if g.edges().len() != g.set().len() { "+multiedge" } else { let (f, b) = (reach(&g.edges(), g.entry, true), reach(&g.edges(), g.exit, false)); if !b.contains(&g.entry) { "+noexit" } else if g.succ.keys().any(|k| !f.contains(k)) { "+unreachable" } else if g.succ.keys().any(|k| !b.contains(k)) { "+deadend" } else { "" } };
    o.n(format!("graphs{odd}"));
    o.saw(crate::rng::hash_str(&format!("{:?}", g.succ)));
    let mut closed = es.clone(); closed.push((g.exit, g.entry));
    // classes
    let cls = match quiet_catch(|| EdgeClassifier::get_edge_classes(&g)) { Ok(c) => c, Err(p) => { if p.harness() { o.n("harness_panic"); } o.bad(format!("classes{odd}|panic"), format!("{} on {:?}", p.msg, g.succ)); return } };
    o.n("classified");
    for e in &es { if !cls.contains_key(e) && e.0 != e.1 { o.bad(format!("classes{odd}|missing"), format!("{e:?} of {:?} has no class", g.succ)); } }
    for e in cls.keys() { if !es.contains(e) { o.bad(format!("classes{odd}|invented"), format!("{e:?} of {:?} has a class", g.succ)); } }
    for (k, a) in es.iter().enumerate() { for b in &es[k + 1..] {
        let (Some(x), Some(y)) = (cls.get(a), cls.get(b)) else { continue };
        let same = implied(&closed, *a, *b) && implied(&closed, *b, *a);
        o.n(if same { "equivalent pairs" } else { "different pairs" });
        if same && x != y { o.bad(format!("classes{odd}|apart"), format!("{a:?} and {b:?} of {:?} are on the same cycles but have classes {x} and {y}", g.succ)); return }
        if !same && x == y { o.bad(format!("classes{odd}|together"), format!("{a:?} and {b:?} of {:?} are on different cycles but share a class", g.succ)); return }
    } }
    // nesting
    let mut h = g.clone();
    match quiet_catch(|| { transform_cfg_to_nested(&mut h); h }) {
        Err(p) => { if p.harness() { o.n("harness_panic"); } o.bad(format!("nest{odd}|panic"), format!("{} on {:?}", p.msg, g.succ)) }
        Ok(h) => {
            o.add("regions", h.nested.len() as u64);
            for b in &h.bad { let (k, m) = b.split_once('|').unwrap(); o.bad(format!("nest{odd}|{k}"), format!("{m} (nesting {:?})", g.succ)); }
            // a region is missed only if it is a single block (left out on purpose)
            if odd.is_empty() && h.bad.is_empty() {
                let mut want: BTreeSet<BTreeSet<usize>> = BTreeSet::new();
                for a in &es { for b in &es { if a != b && count(a) == 1 && count(b) == 1 && implied(&closed, *a, *b) && implied(&closed, *b, *a) {
                    // a before b, with nothing of the class in between
                    let left: Vec<_> = es.iter().copied().filter(|e| e != b).collect();
                    let blocks = reach(&left, a.1, true);
                    if blocks.contains(&g.entry) || blocks.contains(&g.exit) { continue }
                    if es.iter().any(|c| c != a && c != b && blocks.contains(&c.0) && blocks.contains(&c.1) && implied(&closed, *a, *c) && implied(&closed, *c, *a)) { continue }
                    // (a block with other ways out is only a region if it was reached by its own loop)
                    if a.1 == b.0 && !g.edges().iter().any(|e| e.0 == b.0 && e != b) { continue }
                    want.insert(blocks);
                } } }
                // what was nested, in terms of the original blocks
                let mut parts: HashMap<usize, BTreeSet<usize>> = HashMap::new();
                let mut got = BTreeSet::new();
                for (_, _, b, n) in &h.nested { let s: BTreeSet<usize> = b.iter().flat_map(|x| parts.get(x).cloned().unwrap_or_else(|| BTreeSet::from([*x]))).collect(); parts.insert(*n, s.clone()); got.insert(s); }
                for w in &want { if !got.contains(w) { o.bad("nest|missed", format!("blocks {w:?} of {:?} are a region but were not nested: {got:?}", g.succ)); break } }
                for w in &got { if !want.contains(w) { o.bad("nest|invented", format!("blocks {w:?} of {:?} are no region between neighbouring edges: {want:?}", g.succ)); break } }
                o.add("regions expected", want.len() as u64);
            }
        }
    }
    // region_blocks on arbitrary pairs
    for _ in 0..5 {
        let all = g.edges(); if all.is_empty() { break }
        let (a, b) = (*r.pick(&all), if r.chance(1, 8) { (r.below(5), r.below(5)) } else { *r.pick(&all) });
        let left: Vec<_> = all.iter().copied().filter(|e| *e != b).collect();
        let blocks = reach(&left, a.1, true);
        let mut outer: Vec<usize> = g.preds(a.1).into_iter().filter(|p| !blocks.contains(p)).collect(); outer.sort(); outer.dedup();
        let want = if blocks.contains(&b.0) && !all.contains(&b) { "ExitEdgeNotPresent" } else if blocks.contains(&a.0) { "EntryEdgeSourceInRegion" } else if !outer.contains(&a.0) { "EntryEdgeNotPresent" } else if outer.len() > 1 { "UnexpectedEntryEdges" } else { "" };
        match quiet_catch(|| region_blocks(&g, a, b)) {
            Err(p) => o.bad("region_blocks|panic", p.msg),
            Ok(x) => { o.n("region queries"); let ok = match &x { Ok(s) => want.is_empty() && s.iter().copied().collect::<BTreeSet<_>>() == blocks, Err(e) => { o.n("region queries refused"); !want.is_empty() && format!("{e:?}").starts_with(want) } }; if !ok { o.bad("region_blocks|answer", format!("{x:?} for {a:?} to {b:?} of {:?}, expected {want} {blocks:?}", g.succ)); } }
        }
    }
}

/// Blocks of a CFG, its edges, and whether values cross blocks.
fn real(o: &mut Obs, r: &mut Rng, seed: u64, idx: u64) {
    let cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[30, 60, 120, 240]) } else { *r.pick(&[20, 40, 80]) }, dead_blocks: r.chance(1, 4), ..Cfg::default() }.vary(r));
    let Some(p) = prog(o, seed, idx, &cfg) else { return };
    let mut h = p.hugr;
    let cfgs: Vec<Node> = h.nodes().filter(|n| h.get_optype(*n).is_cfg()).collect();
    if cfgs.is_empty() { o.n("no control flow"); return }
    let ins = inputs(&p.ins, r, 3);
    let mut want = reference(o, &h, p.main, &ins, 60_000);
    if want.is_empty() { o.n("no_reference"); return }
    let whole = r.bool();
    let e = if whole { h.module_root() } else { *r.pick(&cfgs) };
    h.set_entrypoint(e);
    let shape = super::c09::cfg_shape(&h);
    // values used by other blocks than their own
    let scope: Vec<Node> = h.entry_descendants().collect();
    let dom = scope.iter().any(|n| h.get_optype(*n).is_dataflow_block() && h.descendants(*n).any(|m| m != *n && h.output_neighbours(m).any(|t| { let mut x = Some(t); while let Some(y) = x { if y == *n { return false } x = h.get_parent(y); } true })));
    let key = if dom { "program+values between blocks".to_string() } else { format!("program{shape}") };
    let before = h.clone();
    let Some(h2) = o.guard(&key, || { let mut h = h.clone(); if whole { transform_all_cfgs(&mut h); } else { transform_cfg_to_nested(&mut IdentityCfgMap::new(&mut h)); } h }) else { if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("{}", outline(&before)); } return };
    o.n("programs nested");
    if dom { o.n("values between blocks"); }
    let more = h2.num_nodes() - before.num_nodes();
    if more > 0 { o.n("programs changed"); o.saw(crate::rng::hash_str(&outline(&h2))); }
    // the blocks are still there, with their contents, in the same order of flow
    let ops = |h: &Hugr| { let mut m: BTreeMap<Node, String> = BTreeMap::new(); for n in h.nodes() { m.insert(n, if h.get_optype(n).is_const() { "const".into() } else { h.get_optype(n).to_string() }); } m };
    let (a, b) = (ops(&before), ops(&h2));
    for (n, x) in &a { if b.get(n) != Some(x) { o.bad(format!("{key}|node"), format!("{n} {x} became {:?}", b.get(n))); break } }
    // a block in the way of a path: exits of inner CFGs lead on from the block around
    let flow = |h: &Hugr, top: Node| -> BTreeSet<(Node, usize, Node)> {
        fn first(h: &Hugr, mut b: Node, old: &HashSet<Node>) -> Node { while !old.contains(&b) { if h.get_optype(b).is_exit_block() { let c = h.get_parent(b).unwrap(); let bl = h.get_parent(c).unwrap(); b = h.output_neighbours(bl).next().unwrap(); } else { let c = h.children(b).find(|c| h.get_optype(*c).is_cfg()).unwrap(); b = h.children(c).next().unwrap(); } } b }
        let old: HashSet<Node> = before.children(top).collect();
        let mut s = BTreeSet::new();
        for b in before.children(top).filter(|b| h.get_optype(*b).is_dataflow_block()) { for port in h.node_outputs(b) { for (t, _) in h.linked_inputs(b, port) { s.insert((b, hugr_core::PortIndex::index(port), first(h, t, &old))); } } }
        s
    };
    for c in cfgs.iter().filter(|c| whole && scope.contains(c) || **c == e) {
        match quiet_catch(|| (flow(&before, *c), flow(&h2, *c), { let mut x = h2.children(*c).next().unwrap(); let old: HashSet<Node> = before.children(*c).collect(); while !old.contains(&x) { let i = h2.children(x).find(|k| h2.get_optype(*k).is_cfg()).unwrap(); x = h2.children(i).next().unwrap(); } x })) {
            Ok((x, y, first)) => { o.n("flows compared"); if x != y { o.bad(format!("{key}|flow"), format!("paths {:?} became {:?}", x.difference(&y).collect::<Vec<_>>(), y.difference(&x).collect::<Vec<_>>())); } if Some(first) != before.children(*c).next() { o.bad(format!("{key}|first block"), format!("{first}")); } }
            Err(p) => o.bad(format!("{key}|flow unreadable"), p.msg),
        }
    }
    if h2.entrypoint() != e { o.bad(format!("{key}|entrypoint"), format!("{}", h2.entrypoint())); }
    let ok = check_valid(o, &key, &h2);
    if ok { let (fine, outs) = same_out(o, &key, &h2, p.main, &want, |x| x.clone()); if fine { want = outs; } else if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("BEFORE\n{}\nAFTER\n{}", outline(&before), outline(&h2)); } }
    // once more changes nothing that matters
    if ok && !want.is_empty() && r.chance(1, 3) {
        let key = format!("{key}:twice");
        if let Some(h3) = o.guard(&key, || { let mut h = h2.clone(); transform_all_cfgs(&mut h); h }) { if check_valid(o, &key, &h3) { same_out(o, &key, &h3, p.main, &want, |x| x.clone()); o.n("nested twice"); } }
    }
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 210);
    let _ = OpType::default();
    if idx % 8 == 0 { real(o, &mut r, seed, idx) } else { for _ in 0..20 { abstract_(o, &mut r); if !o.viol.is_empty() { break } } }
}
pub fn prop() -> Prop {
    Prop { id: "C21", case, rule: "random control-flow graphs (reducible and not, loops, parallel edges, dead ends, unreachable parts) with brute-force cycle equivalence, an own graph recording the nesting, and generated programs nested and executed; distinct graphs and results are counted",
        need: &["classified", "equivalent pairs", "different pairs", "regions", "regions expected", "programs changed", "flows compared", "compared_runs", "region queries refused"], quick_s: 25, thorough_s: 600, min_cases: 2000, max_cases: 2_000_000 }
}
