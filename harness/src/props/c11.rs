//! Monomorphization.
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::spice::{rand_args, rand_str};
use crate::util::*;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::dataflow::IOTrait;
use hugr_core::ops::{FuncDecl, FuncDefn, Input, LoadFunction, OpType, Output};
use hugr_core::std_extensions::arithmetic::int_types::int_type;
use hugr_core::types::type_param::Term;
use hugr_core::types::{PolyFuncType, Signature, Type, TypeBound};
use hugr_core::{Hugr, Node, Visibility};
use hugr_passes::{ComposablePass, MonomorphizePass};
use std::collections::{BTreeMap, HashMap, HashSet};

fn is_poly(h: &Hugr, n: Node) -> bool { match h.get_optype(n) { OpType::FuncDefn(f) => !f.signature().params().is_empty(), _ => false } }
fn args_of(h: &Hugr, n: Node) -> Option<Vec<Term>> { match h.get_optype(n) { OpType::Call(c) => Some(c.type_args.clone()), OpType::LoadFunction(c) => Some(c.type_args.clone()), _ => None } }
fn top(h: &Hugr, n: Node) -> Node { let mut n = n; while let Some(p) = h.get_parent(n) { if p == h.module_root() { return n; } n = p; } n }
/// Functions with unusual parameters, loaded (but not called) by main.
fn extra(o: &mut Obs, r: &mut Rng, h: &mut Hugr, main: Node) {
    let m = h.module_root();
    let sig = Signature::new_endo(vec![int_type(5)]);
    let params = vec![Term::StringType, Term::ListType(Box::new(Term::max_nat_type())), Term::TupleType(Box::new(vec![Term::StringType, TypeBound::Copyable.into()].into())), Term::BytesType, Term::FloatType];
    let args = rand_args(r);
    let keep = r.range(1, 5);
    let at = r.below(6 - keep);
    let (params, args) = (params[at..at + keep].to_vec(), args[at..at + keep].to_vec());
    let poly = PolyFuncType::new(params.clone(), sig.clone());
    let name = if r.bool() { "poly".to_string() } else { format!("odd{}", rand_str(r)) };
    let decl = r.chance(1, 3);
    let f = if decl { h.add_node_with_parent(m, FuncDecl::new(name, poly.clone())) } else {
        let f = h.add_node_with_parent(m, FuncDefn::new_vis(name, poly.clone(), if r.bool() { Visibility::Public } else { Visibility::Private }));
        let i = h.add_node_with_parent(f, Input::new(vec![int_type(5)])); let u = h.add_node_with_parent(f, Output::new(vec![int_type(5)]));
        let mut cur = i;
        if r.bool() {
            // passes (some of) its parameters on
            let op = match keep { 5 => Some(crate::ext::op("args", params.iter().enumerate().map(|(i, p)| Term::new_var_use(i, p.clone())).collect::<Vec<_>>())), _ => None };
            if let Some(op) = op { let n = h.add_node_with_parent(f, op); h.connect(cur, 0, n, 0); cur = n; }
        }
        h.connect(cur, 0, u, 0);
        f
    };
    for _ in 0..r.range(1, 3) {
        let a = if r.chance(3, 4) { args.clone() } else { rand_args(r)[at..at + keep].to_vec() };
        let Ok(l) = LoadFunction::try_new(poly.clone(), a) else { o.n("extra_refused"); continue };
        let l = h.add_node_with_parent(main, l);
        let (sp, tp) = (h.get_optype(f).static_output_port().unwrap(), h.get_optype(l).static_input_port().unwrap());
        h.connect(f, sp, l, tp);
        o.n(if decl { "extra_decl" } else { "extra_defn" });
    }
    let _ = Type::UNIT;
}
fn kinds(h: &Hugr, n: Node) -> Vec<String> { let mut v: Vec<String> = h.descendants(n).skip(1).map(|c| match h.get_optype(c) { OpType::ExtensionOp(e) => e.qualified_id().to_string(), op => format!("{:?}", std::mem::discriminant(op)) }).collect(); v.sort(); v }
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 11);
    let mut cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[20, 60, 120]) } else { *r.pick(&[12, 30, 60]) }, funcs: r.range(2, 8), dead_blocks: r.bool(), ..Cfg::default() }.vary(&mut r));
    cfg.poly = true; cfg.calls = true;
    let Some(mut p) = prog(o, seed, idx, &cfg) else { return };
    let unusual = r.chance(1, 3);
    if unusual { extra(o, &mut r, &mut p.hugr, p.main); if let Err(e) = p.hugr.validate() { o.n("extra_invalid"); if o.verbose { eprintln!("{e}"); } return; } }
    let ins = inputs(&p.ins, &mut r, 2);
    let want = reference(o, &p.hugr, p.main, &ins, 30_000);
    let mut h = p.hugr.clone();
    let e = match r.below(4) { 0 => h.module_root(), 1 => p.main, _ => { let mut q = h.clone(); crate::spice::any_entry(&mut r, &mut q, p.main); q.entrypoint() } };
    h.set_entrypoint(e);
    let before = h.clone();
    let in_poly = e != h.module_root() && e != top(&h, e) && is_poly(&h, top(&h, e));
    let key = if in_poly { "mono(entry inside a polymorphic function)" } else { "mono" };
    if o.guard(key, || MonomorphizePass.run(&mut h).map_err(|_| ())).is_none() { if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("BEFORE\n{}", outline(&before)); } return; }
    if !check_valid(o, key, &h) || !same(o, key, &h, p.main, &want, |x| x.clone()) { if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("BEFORE\n{}\nAFTER\n{}", outline(&before), outline(&h)); } return; }
    if h.entrypoint() != e || sig_of(&h, e) != sig_of(&before, e) { o.bad("mono|interface", "the entrypoint or its signature changed"); return; }
    if is_poly(&before, e) && outline(&h) != outline(&before) { o.bad("mono|polymorphic entry", "a program with a polymorphic entrypoint was changed"); return; }
    // what was there is still there; only calls were redirected
    for n in before.nodes() {
        if !h.contains_node(n) || before.get_parent(n) != h.get_parent(n) { o.bad("mono|node gone", format!("{n} ({}) is gone or moved", describe(before.get_optype(n)))); return; }
        let inside = in_poly && std::iter::successors(Some(n), |x| before.get_parent(*x)).any(|x| x == e); // the program being monomorphized
        let poly = n != before.module_root() && !inside && is_poly(&before, top(&before, n));
        let changed = crate::canon::cmp_op(before.get_optype(n), h.get_optype(n), Default::default()).is_err();
        let redirect = args_of(&before, n).is_some_and(|a| !a.is_empty());
        if changed && (poly || !redirect) { if o.verbose && std::env::var("HV_DUMP").is_ok() { eprintln!("poly {poly} redirect {redirect} {:?}\n{:?}\n{:?}\nE {e}\nBEFORE\n{}\nAFTER\n{}", key, before.get_optype(n), h.get_optype(n), outline(&before), outline(&h)); } o.bad("mono|node altered", format!("{n} {} became {}", describe(before.get_optype(n)), describe(h.get_optype(n)))); return; }
        if crate::canon::meta(&before, n) != crate::canon::meta(&h, n) { o.bad("mono|metadata altered", format!("the metadata of {n} changed")); return; }
        let srcs = |h: &Hugr| -> Vec<String> { let st = h.get_optype(n).static_input_port(); h.node_inputs(n).filter(|q| !redirect || Some(*q) != st).flat_map(|q| h.linked_outputs(n, q).map(|x| format!("{x:?}")).collect::<Vec<_>>()).collect() };
        if srcs(&before) != srcs(&h) { o.bad("mono|links altered", format!("the inputs of {n} changed")); return; }
        o.n("kept_nodes");
    }
    // nothing polymorphic is used from monomorphic code
    let fresh: Vec<Node> = h.children(h.module_root()).filter(|n| !before.contains_node(*n)).collect();
    let fset: HashSet<Node> = fresh.iter().copied().collect();
    if !is_poly(&before, e) && !in_poly {
        let code: Vec<Node> = h.descendants(e).filter(|n| *n == h.module_root() || !is_poly(&h, top(&h, *n))).chain(fresh.iter().flat_map(|f| h.descendants(*f).collect::<Vec<_>>())).collect();
        for n in code {
            let Some(a) = args_of(&h, n) else { continue };
            o.n("uses_checked");
            let Some(f) = h.static_source(n) else { continue };
            if !a.is_empty() && h.get_optype(f).is_func_defn() { o.bad("mono|polymorphic use left", format!("{n} still uses {} with {} type arguments", describe(h.get_optype(f)), a.len())); return; }
        }
    }
    // the new functions: closed, used, and each once
    let mut seen: HashMap<(String, String), Node> = HashMap::new();
    let mut first_use: BTreeMap<Node, Node> = BTreeMap::new();
    for n in h.nodes() { if args_of(&h, n).is_some() { if let Some(f) = h.static_source(n) { if top(&h, n) != f { first_use.entry(f).or_insert(n); } } } }
    for f in &fresh {
        o.n("instances");
        let OpType::FuncDefn(d) = h.get_optype(*f) else { o.bad("mono|odd node added", format!("{f} {}", describe(h.get_optype(*f)))); return };
        if !d.signature().params().is_empty() { o.bad("mono|polymorphic instance", format!("the new {} is polymorphic", describe(h.get_optype(*f)))); return; }
        if *d.visibility() != Visibility::Private { o.bad("mono|public instance", format!("the new {} is public", describe(h.get_optype(*f)))); return; }
        if !first_use.contains_key(f) { o.bad("mono|unused instance", format!("the new {} is not used", describe(h.get_optype(*f)))); return; }
        // its original is the polymorphic function before it
        let ch: Vec<Node> = h.children(h.module_root()).collect();
        let i = ch.iter().position(|x| x == f).unwrap();
        let Some(orig) = ch[..i].iter().rev().find(|x| !fset.contains(x)) else { o.bad("mono|place", "an instance comes before every original"); return };
        if !is_poly(&h, *orig) || kinds(&h, *orig) != kinds(&h, *f) { o.bad("mono|body", format!("{} does not have the operations of {}", describe(h.get_optype(*f)), describe(h.get_optype(*orig)))); return; }
        let body: String = h.descendants(*f).skip(1).map(|n| describe(h.get_optype(n))).collect::<Vec<_>>().join(";");
        let k = (format!("{orig}"), format!("{} {body}", describe(h.get_optype(*f))));
        if let Some(g) = seen.insert(k, *f) { o.bad("mono|instantiated twice", format!("{f} and {g} are the same instance of {orig}: {}", describe(h.get_optype(*f)))); return; }
    }
    let s = crate::canon::snapshot(&h);
    o.n("second_runs");
    if o.guard("second run", || MonomorphizePass.run(&mut h).map_err(|_| ())).is_some() && crate::canon::snapshot(&h) != s { o.bad("mono|second run", "a second run changed the program"); return; }
    if !fresh.is_empty() { o.saws(&outline(&h)); }
    o.note(|| format!("program of {} nodes, {} functions, {} instances made", before.num_nodes(), p.funcs.len(), fresh.len()));
}
pub fn prop() -> Prop {
    Prop { id: "C11", case, rule: "instances of polymorphic functions were made (distinct results)", need: &["instances", "uses_checked", "kept_nodes", "compared_runs", "second_runs", "extra_defn", "extra_decl"], quick_s: 20, thorough_s: 400, min_cases: 100, max_cases: 20000 }
}
