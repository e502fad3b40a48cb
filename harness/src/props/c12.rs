//! Linking.
use crate::canon;
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::util::*;
use hugr_core::core::Direction;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::internal::HugrMutInternals;
use hugr_core::hugr::linking::{HugrLinking, NodeLinkingDirective as D};
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::{FuncDecl, OpType};
use hugr_core::{Hugr, Node, PortIndex};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};

/// A directive, in the harness's own terms.
#[derive(Clone, Debug)]
enum Dir { Add(Vec<Node>), Use(Node) }
type Link = (usize, Node, usize);
/// Every link out of a node, as (own port, other node, its port).
fn outs(h: &Hugr, n: Node) -> Vec<Link> {
    let mut v: Vec<Link> = h.node_outputs(n).flat_map(|p| h.linked_inputs(n, p).map(move |(m, q)| (p.index(), m, q.index())).collect::<Vec<_>>()).collect();
    v.sort_by_key(|x| (x.0, x.1.index_(), x.2));
    v
}
fn inside(h: &Hugr, n: Node, top: Node) -> bool { std::iter::successors(Some(n), |x| h.get_parent(*x)).any(|x| x == top) }
/// Turns a defined function into a declaration of it.
fn undefine(h: &mut Hugr, f: Node) {
    let OpType::FuncDefn(d) = h.get_optype(f).clone() else { return };
    let kids: Vec<Node> = h.children(f).collect();
    for k in kids { h.remove_subtree(k); }
    h.replace_op(f, FuncDecl::new_vis(d.func_name().clone(), d.signature().clone(), d.visibility().clone()));
}
fn statics(h: &Hugr) -> Vec<Node> { h.children(h.module_root()).filter(|n| matches!(h.get_optype(*n), OpType::FuncDefn(_) | OpType::FuncDecl(_) | OpType::Const(_))).collect() }

/// What linking must give, as a set of nodes named by where they come from.
#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
enum From { T(usize), S(usize) }
struct Want { nodes: BTreeMap<From, (Node, Option<From>)>, links: Vec<(From, usize, From, usize)> }
fn expect(t: &Hugr, s: &Hugr, parent: Option<Node>, ds: &HashMap<Node, Dir>) -> Want {
    let mut gone: HashSet<Node> = HashSet::new();
    let mut by: HashMap<Node, Node> = HashMap::new();
    for (c, d) in ds { if let Dir::Add(rs) = d { for r in rs { gone.extend(t.descendants(*r)); by.insert(*r, *c); } } }
    let mut nodes = BTreeMap::new();
    for n in t.nodes().filter(|n| !gone.contains(n)) { nodes.insert(From::T(n.index_()), (n, t.get_parent(n).map(|p| From::T(p.index_())))); }
    let mut kept: HashMap<Node, Option<From>> = HashMap::new();
    if let Some(p) = parent { for n in s.entry_descendants() { let up = if n == s.entrypoint() { From::T(p.index_()) } else { From::S(s.get_parent(n).unwrap().index_()) }; kept.insert(n, Some(up)); } }
    for (c, d) in ds { if let Dir::Add(_) = d { for n in s.descendants(*c) { let up = if n == *c { From::T(t.module_root().index_()) } else { From::S(s.get_parent(n).unwrap().index_()) }; kept.insert(n, Some(up)); } } }
    for (n, up) in &kept { nodes.insert(From::S(n.index_()), (*n, *up)); }
    let mut links = vec![];
    // the source of the links of a node of the host
    let t_src = |n: Node| match by.get(&n) { Some(c) => From::S(c.index_()), None => From::T(n.index_()) };
    for n in t.nodes() {
        if gone.contains(&n) && !by.contains_key(&n) { continue; }
        for (p, m, q) in outs(t, n) { if !gone.contains(&m) { links.push((t_src(n), p, From::T(m.index_()), q)); } }
    }
    for n in s.nodes() {
        let src = match ds.get(&n) { Some(Dir::Use(x)) => t_src(*x), _ if kept.contains_key(&n) => From::S(n.index_()), _ => continue };
        for (p, m, q) in outs(s, n) { if kept.contains_key(&m) { links.push((src, p, From::S(m.index_()), q)); } }
    }
    links.sort();
    Want { nodes, links }
}
fn check(t: &Hugr, s: &Hugr, h: &Hugr, map: &HashMap<Node, Node>, want: &Want) -> Result<(), String> {
    let mut at: HashMap<From, Node> = HashMap::new();
    for (f, (n, _)) in &want.nodes { at.insert(*f, match f { From::T(_) => *n, From::S(_) => *map.get(n).ok_or(format!("{n} of the guest is not in the node map"))? }); }
    for k in map.keys() { if !want.nodes.contains_key(&From::S(k.index_())) { return Err(format!("the node map mentions {k}, which is not to be inserted")); } }
    let back: HashMap<Node, From> = at.iter().map(|(a, b)| (*b, *a)).collect();
    if back.len() != at.len() { return Err("two nodes were given the same place".into()); }
    for n in h.nodes() { if !back.contains_key(&n) { return Err(format!("{n} ({}) comes from nowhere", describe(h.get_optype(n)))); } }
    let mut links = vec![];
    for (f, (n, up)) in &want.nodes {
        let (src, me) = (match f { From::T(_) => t, From::S(_) => s }, at[f]);
        if !h.contains_node(me) { return Err(format!("{f:?} ({}) is gone", describe(src.get_optype(*n)))); }
        canon::cmp_op(src.get_optype(*n), h.get_optype(me), Default::default()).map_err(|e| format!("{f:?}: {e}"))?;
        if canon::meta(src, *n) != canon::meta(h, me) { return Err(format!("metadata of {f:?} ({})", describe(src.get_optype(*n)))); }
        if h.get_parent(me) != up.map(|u| at[&u]) { return Err(format!("parent of {f:?} ({})", describe(src.get_optype(*n)))); }
        for d in [Direction::Incoming, Direction::Outgoing] { if src.num_ports(*n, d) != h.num_ports(me, d) { return Err(format!("number of ports of {f:?} ({})", describe(src.get_optype(*n)))); } }
        // the children that were there are in the same order
        let mine: Vec<Node> = src.children(*n).filter_map(|c| { let k = match f { From::T(_) => From::T(c.index_()), From::S(_) => From::S(c.index_()) }; want.nodes.get(&k).filter(|(_, up)| *up == Some(*f)).map(|_| at[&k]) }).collect();
        let got: Vec<Node> = h.children(me).filter(|c| mine.contains(c)).collect();
        if got != mine || h.children(me).take(mine.len()).collect::<Vec<_>>() != mine { return Err(format!("order of the children of {f:?} ({})", describe(src.get_optype(*n)))); }
        for (p, m, q) in outs(h, me) { links.push((*f, p, back[&m], q)); }
    }
    links.sort();
    if links != want.links {
        let (a, b): (BTreeSet<_>, BTreeSet<_>) = (want.links.iter().collect(), links.iter().collect());
        return Err(format!("links missing {:?}, added {:?}", a.difference(&b).take(3).collect::<Vec<_>>(), b.difference(&a).take(3).collect::<Vec<_>>()));
    }
    Ok(())
}
fn wrong(t: &Hugr, s: &Hugr, parent: Option<Node>, ds: &HashMap<Node, Dir>) -> Vec<&'static str> {
    let mut v = vec![];
    let mut seen = HashSet::new();
    for (c, d) in ds {
        if s.get_parent(*c) != Some(s.module_root()) { v.push("child"); }
        if let Dir::Add(rs) = d { for r in rs { if !seen.insert(*r) { v.push("multiple"); } } }
        if parent.is_some() && s.entrypoint() != s.module_root() && (s.entrypoint() == *c || matches!(d, Dir::Add(_)) && inside(s, s.entrypoint(), *c)) { v.push("contains"); }
    }
    if parent.is_some() && s.entrypoint() == s.module_root() && !ds.is_empty() { v.push("whole"); }
    let _ = t;
    v
}
/// Links with both methods (and through views), checks against the expectation; returns the result.
fn link(o: &mut Obs, key: &str, r: &mut Rng, t: &Hugr, s: &Hugr, parent: Option<Node>, ds: &HashMap<Node, Dir>) -> Option<(Hugr, HashMap<Node, Node>)> {
    let bad = wrong(t, s, parent, ds);
    let dirs = || ds.iter().map(|(c, d)| (*c, match d { Dir::Add(v) if v.is_empty() => D::add(), Dir::Add(v) => D::replace(v.clone()), Dir::Use(n) => D::UseExisting(*n) })).collect::<HashMap<_, _>>();
    let want = bad.is_empty().then(|| expect(t, s, parent, ds));
    let before = canon::snapshot(t);
    let mut out = None;
    for how in ["view", "rerooted", "hugr"] {
        let mut h = t.clone();
        let key = format!("{key}:{how}");
        let res = match how {
            "view" => o.guard(&key, || h.insert_link_view_by_node(parent, s, dirs()).map(|x| x.node_map).map_err(|e| e.to_string())),
            "rerooted" => { let e = s.entrypoint(); let mut q = s.clone(); q.set_entrypoint(*r.pick(&q.nodes().collect::<Vec<_>>())); let v = q.with_entrypoint(e); o.guard(&key, || { let mut m = h.with_entrypoint_mut(t.module_root()); m.insert_link_view_by_node(parent, &v, dirs()).map(|x| x.node_map).map_err(|e| e.to_string()) }) }
            _ => o.guard(&key, || h.insert_link_hugr_by_node(parent, s.clone(), dirs()).map(|x| x.node_map).map_err(|e| e.to_string())),
        };
        match (res?, &want) {
            (Err(e), Some(_)) => { o.bad(format!("{key}|refused"), format!("{ds:?} with parent {parent:?}: {e}")); return None; }
            (Ok(_), None) => { o.bad(format!("{key}|accepted"), format!("{bad:?}: {ds:?} with parent {parent:?}")); return None; }
            (Err(e), None) => {
                let fit = |b: &str| match b { "child" => e.contains("was not a child"), "multiple" => e.contains("is to be replaced by two"), "contains" => e.contains("contains the entrypoint"), _ => e.contains("whole Hugr") };
                if !bad.iter().any(|b| fit(b)) { o.bad(format!("{key}|wrong error"), format!("{bad:?}: {e}")); return None; }
                if canon::snapshot(&h) != before { o.bad(format!("{key}|changed on error"), format!("{bad:?}: {e}")); return None; }
                for b in &bad { o.n(&format!("refused_{b}")); }
            }
            (Ok(map), Some(w)) => {
                if let Err(e) = check(t, s, &h, &map, w) { o.bad(format!("{key}|{}", short(&e)), format!("{e}; {ds:?} parent {parent:?}")); return None; }
                o.add("placed_nodes", map.len() as u64); o.add("links_checked", w.links.len() as u64);
                out = Some((h, map));
            }
        }
    }
    out
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 12);
    let cfg = |r: &mut Rng, o: &Obs| dev_cfg(Cfg { size: if o.thorough { *r.pick(&[12, 40, 90]) } else { *r.pick(&[8, 20, 45]) }, funcs: r.range(2, 9), ..Cfg::default() }.vary(r));
    let c = cfg(&mut r, o);
    let Some(p) = prog(o, seed, idx, &c) else { return };
    o.saw(canon::shape(&p.hugr));
    let root = p.hugr.module_root();
    if r.bool() {
        // one program, split in two
        o.n("split");
        let ins = inputs(&p.ins, &mut r, 2);
        let want = reference(o, &p.hugr, p.main, &ins, 20_000);
        let (mut t, mut s) = (p.hugr.clone(), p.hugr.clone());
        t.set_entrypoint(root); s.set_entrypoint(root);
        let mut ds: HashMap<Node, Dir> = HashMap::new();
        let placed = r.chance(1, 4) && outs(&p.hugr, p.main).is_empty(); // main comes as the entrypoint of the guest
        for f in statics(&p.hugr) {
            let defn = matches!(p.hugr.get_optype(f), OpType::FuncDefn(_));
            if f == p.main { if placed { t.remove_subtree(f); s.set_entrypoint(f); } else { ds.insert(f, if r.bool() { Dir::Use(f) } else { undefine(&mut t, f); Dir::Add(vec![f]) }); } continue; }
            match r.below(4) {
                // only the host has it
                0 if defn => { undefine(&mut s, f); ds.insert(f, Dir::Use(f)); o.n("used_existing_for_declared"); }
                // only the guest has it
                1 if defn => { undefine(&mut t, f); ds.insert(f, Dir::Add(vec![f])); o.n("defined_a_declared"); }
                // both
                2 => { ds.insert(f, Dir::Add(vec![f])); o.n("replaced"); }
                _ => { ds.insert(f, Dir::Use(f)); o.n("used_existing"); }
            }
        }
        let parent = placed.then_some(root);
        let m0 = p.main;
        let Some((h, map)) = link(o, "split", &mut r, &t, &s, parent, &ds) else { return };
        let main = if placed { map[&m0] } else { match &ds[&m0] { Dir::Add(_) => map[&m0], Dir::Use(n) => *n } };
        if placed { o.n("entry_placed"); }
        if !check_valid(o, "split", &h) || !same(o, "split", &h, main, &want, |x| x.clone()) { return; }
    } else {
        // two programs, joined in any way
        o.n("join");
        let c = cfg(&mut r, o);
        let Some(q) = prog(o, seed, idx ^ 0x9999_0000, &c) else { return };
        let (mut t, mut s) = (p.hugr.clone(), q.hugr.clone());
        t.set_entrypoint(root);
        let (sr, all) = (s.module_root(), s.nodes().collect::<Vec<_>>());
        let ts = statics(&t);
        let k_of = |h: &Hugr, n: Node| matches!(h.get_optype(n), OpType::Const(_));
        let mut parent = None;
        match r.below(4) {
            0 => { s.set_entrypoint(q.main); if r.chance(2, 3) { parent = Some(root); } }
            1 => { // an inner region, below any other
                let regions: Vec<Node> = all.iter().copied().filter(|n| *n != sr && s.first_child(*n).is_some() && s.get_parent(*n) != Some(sr)).collect();
                if let Some(e) = r.pick_opt(&regions) { s.set_entrypoint(*e); let homes: Vec<Node> = t.nodes().filter(|n| t.first_child(*n).is_some()).collect(); parent = Some(*r.pick(&homes)); }
            }
            2 => { s.set_entrypoint(sr); if r.chance(1, 3) { parent = Some(root); } }
            _ => s.set_entrypoint(*r.pick(&all.iter().copied().filter(|n| *n != sr).collect::<Vec<_>>())),
        }
        let mut ds: HashMap<Node, Dir> = HashMap::new();
        let mut free: Vec<Node> = ts.iter().copied().filter(|n| parent.is_none_or(|p| !inside(&t, p, *n))).collect();
        r.shuffle(&mut free);
        let e = s.entrypoint();
        for c in statics(&s) {
            let hit = parent.is_some() && e != sr && inside(&s, e, c);
            if hit && r.chance(5, 6) && (e == c || r.bool()) || r.chance(1, 3) { continue; }
            let k = k_of(&s, c);
            if (hit && r.chance(5, 6)) || r.chance(1, 3) { if let Some(x) = r.pick_opt(&ts.iter().copied().filter(|n| k_of(&t, *n) == k).collect::<Vec<_>>()) { ds.insert(c, Dir::Use(*x)); o.n("used_existing"); continue; } }
            if hit && r.chance(5, 6) { continue; }
            let n = *r.pick(&[0, 0, 1, 1, 2, 3]);
            let mut rs = vec![];
            while rs.len() < n { match free.iter().position(|x| k_of(&t, *x) == k) { Some(i) => { let x = free[i]; if !r.chance(1, 25) { free.remove(i); } rs.push(x); } None => break } }
            if !rs.is_empty() { o.n("replaced"); }
            ds.insert(c, Dir::Add(rs));
        }
        if r.chance(1, 20) { ds.insert(*r.pick(&all.iter().copied().filter(|n| s.get_parent(*n) != Some(sr)).collect::<Vec<_>>()), Dir::Add(vec![])); }
        if parent.is_some() && e == sr && r.chance(2, 3) { ds.clear(); }
        if parent.is_some() { o.n("with_parent"); }
        let Some(_) = link(o, "join", &mut r, &t, &s, parent, &ds) else { return };
    }
    o.note(|| "linked".into());
}
pub fn prop() -> Prop {
    Prop { id: "C12", case, rule: "two modules were linked (distinct sets of operations)", need: &["split", "join", "used_existing_for_declared", "defined_a_declared", "replaced", "used_existing", "entry_placed", "with_parent", "placed_nodes", "links_checked", "refused_child", "refused_multiple", "refused_contains", "refused_whole", "compared_runs"], quick_s: 20, thorough_s: 600, min_cases: 300, max_cases: 20_000 }
}
