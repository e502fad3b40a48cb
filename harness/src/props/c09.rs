//! Optimisation passes keep behaviour: differential execution against the reference interpreter.
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::interp::{outcome, Prog};
use crate::rng::Rng;
use crate::util::*;
use crate::val::V;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::{OpTag, OpTrait, OpType};
use hugr_core::{Hugr, Node};
use hugr_passes::composable::ComposablePass;
use hugr_passes::const_fold::ConstantFoldPass;
use hugr_passes::inline_dfgs::InlineDFGsPass;
use hugr_passes::normalize_cfgs::{merge_basic_blocks, normalize_cfg, NormalizeCFGPass};
use hugr_passes::untuple::UntupleRecursive;
use hugr_passes::*;

pub const PASSES: &[&str] = &["constfold", "constfold_inputs", "constfold_term", "constfold_fn", "dce", "deadfuncs", "inline_dfgs", "inline_calls", "normalize", "normalize_one", "merge_bbs", "untuple", "localize", "force_order", "mono"];

pub struct St { pub h: Hugr, pub main: Node }

/// Entry points that make sense: main itself, the module, or a container somewhere inside main.
pub fn pick_entry(r: &mut Rng, h: &Hugr, main: Node) -> Node {
    match r.below(4) {
        0 | 1 => main,
        2 => h.module_root(),
        _ => {
            let cs: Vec<Node> = h.descendants(h.module_root()).filter(|n| { let t = h.get_optype(*n).tag(); matches!(h.get_optype(*n), OpType::DFG(_) | OpType::CFG(_) | OpType::Conditional(_) | OpType::TailLoop(_) | OpType::DataflowBlock(_) | OpType::Case(_)) && t != OpTag::Input }).collect();
            r.pick_opt(&cs).copied().unwrap_or(main)
        }
    }
}
/// Runs one pass; Ok(name) when it was applied.
pub fn apply(r: &mut Rng, name: &str, h: &mut Hugr, main: Node, consts: &[(usize, hugr_core::ops::Value)]) -> Result<String, String> {
    let at_module = h.entrypoint() == h.module_root();
    let all_fns: Vec<Node> = h.children(h.module_root()).filter(|n| h.get_optype(*n).is_func_defn()).collect();
    let none: [(usize, hugr_core::ops::Value); 0] = [];
    match name {
        "constfold" => {
            let mut p = ConstantFoldPass::default();
            if at_module { for f in all_fns { p = p.with_inputs(f, none.clone()); } }
            p.run(h).map_err(|e| e.to_string())?;
        }
        "constfold_inputs" => {
            let mut p = ConstantFoldPass::default();
            if !at_module && h.entrypoint() != main { return Err("skip".into()); }
            if at_module { for f in all_fns { p = p.with_inputs(f, none.clone()); } }
            p = p.with_inputs(main, consts.to_vec());
            p.run(h).map_err(|e| e.to_string())?;
        }
        "constfold_term" => {
            let mut p = ConstantFoldPass::default().allow_increase_termination();
            if at_module { for f in all_fns { p = p.with_inputs(f, none.clone()); } }
            p.run(h).map_err(|e| e.to_string())?;
        }
        "constfold_fn" => const_fold::constant_fold_pass(&mut *h),
        "dce" => {
            let mut p = DeadCodeElimPass::<Hugr>::default();
            if at_module { p = p.with_entry_points([main]); }
            p.run(h).map_err(|e| e.to_string())?;
        }
        "deadfuncs" => {
            let mut p = RemoveDeadFuncsPass::default();
            if at_module || r.bool() { p = p.with_module_entry_points([main]); }
            else if h.entrypoint() != main { p = p.with_module_entry_points([main]); }
            p.run(h).map_err(|e| e.to_string())?;
        }
        "inline_dfgs" => InlineDFGsPass.run(h).map_err(|e| e.to_string())?,
        "inline_calls" => {
            let lim = r.range(1, 40);
            let n = std::cell::Cell::new(0usize);
            let mode = r.below(3);
            let salt = r.u64();
            inline_acyclic(h, |_, c| { n.set(n.get() + 1); n.get() <= lim && match mode { 0 => true, 1 => crate::rng::mix(&[salt, c.index_() as u64]) & 1 == 0, _ => n.get() % 2 == 0 } }).map_err(|e| e.to_string())?;
        }
        "normalize" => { NormalizeCFGPass::default().run(h).map_err(|e| e.to_string())?; }
        "normalize_one" | "merge_bbs" => {
            let cs: Vec<Node> = h.entry_descendants().filter(|n| h.get_optype(*n).is_cfg() && *n != h.entrypoint()).collect();
            let Some(c) = r.pick_opt(&cs) else { return Err("skip".into()) };
            if name == "merge_bbs" { merge_basic_blocks(&mut h.with_entrypoint_mut(*c)).map_err(|e| e.to_string())?; }
            else { normalize_cfg(&mut h.with_entrypoint_mut(*c)).map_err(|e| e.to_string())?; }
        }
        "untuple" => {
            let rec = if r.chance(3, 4) { UntupleRecursive::Recursive } else { UntupleRecursive::NonRecursive };
            let mut p = UntuplePass::new(rec);
            if r.chance(1, 3) { p = p.set_parent(main); }
            p.run(h).map_err(|e| e.to_string())?;
        }
        "localize" => non_local::LocalizeEdges.run(h).map_err(|e| e.to_string())?,
        "force_order" => {
            let salt = r.u64();
            let root = if r.bool() { h.module_root() } else { h.entrypoint() };
            force_order(h, root, |_, n| (crate::rng::mix(&[salt, n.index_() as u64]) % 100) as i64).map_err(|e| e.to_string())?;
        }
        "mono" => { MonomorphizePass.run(h).map_err(|e| e.to_string())?; }
        "nest" => nest_cfgs::transform_all_cfgs(h),
        _ => unreachable!(),
    }
    Ok(name.to_string())
}
/// A documented refusal: untupling where order edges meet the tuple operations.
fn untuple_order_edges(h: &Hugr) -> bool {
    h.nodes().any(|n| {
        let op = h.get_optype(n);
        (op.cast::<hugr_core::extension::prelude::MakeTuple>().is_some() || op.cast::<hugr_core::extension::prelude::UnpackTuple>().is_some())
            && (op.other_input_port().is_some_and(|p| h.is_linked(n, p)) || op.other_output_port().is_some_and(|p| h.is_linked(n, p)))
    })
}
/// The least convenient feature of any CFG within the entrypoint.
pub fn cfg_shape(h: &Hugr) -> &'static str {
    let mut worst = (0, "");
    for c in h.entry_descendants().filter(|n| h.get_optype(*n).is_cfg()) {
        let bbs: Vec<Node> = h.children(c).filter(|n| h.get_optype(*n).is_dataflow_block() || h.get_optype(*n).is_exit_block()).collect();
        let closure = |start: Node, fwd: bool| { let mut s = std::collections::HashSet::from([start]); let mut q = vec![start]; while let Some(n) = q.pop() { let ns: Vec<Node> = if fwd { h.output_neighbours(n).collect() } else { h.input_neighbours(n).collect() }; for m in ns { if s.insert(m) { q.push(m) } } } s };
        let (fw, bw) = (closure(bbs[0], true), closure(bbs[1], false));
        let mut f = |k, n| if k > worst.0 { worst = (k, n) };
        for b in &bbs {
            let succ: Vec<Node> = h.output_neighbours(*b).collect();
            let uniq: std::collections::HashSet<Node> = succ.iter().copied().collect();
            if uniq.contains(b) { f(1, "+selfloop"); }
            if uniq.len() != succ.len() { f(2, "+multiedge"); }
            if !fw.contains(b) { f(3, "+unreachable"); }
            if !bw.contains(b) { f(4, "+noexit"); }
        }
    }
    worst.1
}
pub fn entry_uses_outside(h: &Hugr) -> bool {
    let inside: std::collections::HashSet<Node> = h.entry_descendants().collect();
    if matches!(h.entrypoint_optype(), OpType::Module(_) | OpType::FuncDefn(_)) { return false; }
    h.entry_descendants().filter(|n| *n != h.entrypoint() && h.get_parent(*n) != Some(h.module_root())).any(|n| h.get_optype(n).dataflow_signature().is_some_and(|s| (0..s.input_count()).any(|p| h.single_linked_output(n, hugr_core::IncomingPort::from(p)).is_some_and(|(m, _)| !inside.contains(&m)))))
}
pub fn optype_name(op: &OpType) -> &'static str {
    match op { OpType::DFG(_) => "DFG", OpType::CFG(_) => "CFG", OpType::Conditional(_) => "Conditional", OpType::TailLoop(_) => "TailLoop", OpType::DataflowBlock(_) => "Block", OpType::Case(_) => "Case", _ => "other" }
}
pub fn to_const(t: &crate::gen_::Ty, v: &V) -> Option<hugr_core::ops::Value> {
    use hugr_core::ops::Value;
    use hugr_core::std_extensions::arithmetic::{float_types::ConstF64, int_types::ConstInt};
    use crate::gen_::Ty;
    Some(match (t, v) {
        (Ty::Int(w), V::Int(_, x)) => ConstInt::new_u(*w, *x).ok()?.into(),
        (Ty::F64, V::F(b)) if f64::from_bits(*b).is_finite() => ConstF64::new(f64::from_bits(*b)).into(),
        (Ty::Usize, V::Usize(u)) => hugr_core::extension::prelude::ConstUsize::new(*u).into(),
        (Ty::Sum(rs), V::Sum(tag, vs)) => {
            let vals: Option<Vec<Value>> = rs[*tag].iter().zip(vs).map(|(t, v)| to_const(t, v)).collect();
            Value::sum(*tag, vals?, hugr_core::types::SumType::new(rs.iter().map(|r| crate::gen_::row(r)))).ok()?
        }
        _ => return None,
    })
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 9);
    let cfg = Cfg { size: if o.thorough { *r.pick(&[30, 60, 120, 240]) } else { *r.pick(&[20, 40, 60, 100]) }, dead_blocks: r.bool(), ..Cfg::default() }.vary(&mut r);
    let cfg = dev_cfg(cfg);
    let Some(p) = prog(o, seed, idx, &cfg) else { return };
    // some inputs are shared by all runs, so that they may be given as known
    let fixed: Vec<V> = p.ins.iter().map(|t| t.rand_val(&mut r)).collect();
    let known: Vec<(usize, hugr_core::ops::Value)> = p.ins.iter().enumerate().filter(|_| r.bool()).filter_map(|(i, t)| to_const(t, &fixed[i]).map(|v| (i, v))).collect();
    let ins: Vec<Vec<V>> = inputs(&p.ins, &mut r, if o.thorough { 4 } else { 3 }).into_iter().map(|mut v| { for (i, _) in &known { v[*i] = fixed[*i].clone(); } v }).collect();
    let want = reference(o, &p.hugr, p.main, &ins, 60_000);
    if want.is_empty() { o.n("no_reference"); return; }
    for _ in 0..3 {
        let mut h = p.hugr.clone();
        let mut rr = Rng::new(r.u64());
        let e = pick_entry(&mut rr, &h, p.main);
        h.set_entrypoint(e);
        let len = if rr.bool() || std::env::var("HV_PASSES").is_ok() { 1 } else { rr.range(2, 5) };
        let mut names: Vec<String> = vec![];
        // each pass is compared with the program it was given
        let mut want = want.clone();
        for step in 0..len {
            let only = std::env::var("HV_PASSES").unwrap_or_default();
            let pool: Vec<&str> = if only.is_empty() { PASSES.to_vec() } else { only.split(',').collect() };
            let name = *rr.pick(&pool);
            let before = sig_of(&h, h.entrypoint());
            let ep = h.entrypoint();
            if name == "untuple" && untuple_order_edges(&h) { o.n("untuple_with_order_edges"); continue; }
            // (a documented assumption: nothing outside the entrypoint is used nonlocally inside it)
            if name == "localize" && entry_uses_outside(&h) { o.n("localize_open_entry"); continue; }
            // an effect that an earlier pass left demanded through values only may legitimately go
            if step > 0 && demand_effects(&mut h) > 0 {
                let Some(m) = func_named(&h, "main") else { break };
                o.n("effects_demanded_again");
                let Some(w) = o.attempt("demanded", || { let p = Prog::new(h.clone()); want.iter().map(|(i, w)| outcome(&p, m, &[], i.clone(), w.steps * 20 + 20_000).ok().map(|x| (i.clone(), x))).collect::<Option<Vec<_>>>() }).flatten() else { break };
                want = w;
            }
            let prev = if o.verbose { Some(h.clone()) } else { None };
            let Some(main) = func_named(&h, "main") else { o.bad(format!("{}|main lost", names.join(",")), "the public main function is gone"); break };
            let cur = h.clone();
            let mut rp = Rng::new(rr.u64());
            let kind = match h.entrypoint_optype() { OpType::Module(_) | OpType::FuncDefn(_) => String::new(), op => format!("@{}", optype_name(op)) };
            let kind = if name == "nest" { cfg_shape(&h).to_string() } else { kind };
            let key = format!("pass:{name}{kind}");
            let Some(res) = o.guard(&key, || { let mut h2 = cur; let x = apply(&mut rp, name, &mut h2, main, &known); (x, h2) }) else { if let (Some(p), true) = (prev, std::env::var("HV_DUMP").is_ok()) { eprintln!("BEFORE\n{}\nAFTER\n", outline(&p)); } break };
            match res.0 {
                Err(e) if e == "skip" => continue,
                Err(e) => { o.bad(format!("{key}|error|{}", short(&e)), format!("{name} failed on a valid program: {e}")); break }
                Ok(_) => {}
            }
            let h2 = res.1;
            o.n(format!("pass:{name}"));
            let changed = h2.num_nodes() != h.num_nodes() || outline(&h2) != outline(&h);
            if changed { o.n(format!("changed:{name}")); o.saws(&format!("{name}{:x}", crate::rng::hash_str(&outline(&h2)))); }
            h = h2;
            names.push(name.to_string());
            let ok = check_valid(o, &key, &h);
            if !h.contains_node(h.entrypoint()) { o.bad(format!("{key}|entrypoint gone"), format!("{key}: entrypoint node {ep} no longer exists")); break; }
            let after = sig_of(&h, h.entrypoint());
            // (normalizing a CFG that is itself the entrypoint is documented to change its signature)
            if (after != before && !(name == "normalize" && kind == "@CFG")) || h.entrypoint() != ep { o.bad(format!("{key}|interface"), format!("{key}: entrypoint {ep} {before} became {} {after}", h.entrypoint())); }
            let Some(m2) = func_named(&h, "main") else { o.bad(format!("{key}|main lost"), "the public main function is gone"); break };
            let (fine, outs) = if ok { same_out(o, &key, &h, m2, &want, |x| x.clone()) } else { (false, vec![]) };
            if fine { want = outs; if want.is_empty() { break; } }
            else {
                if let Some(p) = prev { if std::env::var("HV_DUMP").is_ok() { eprintln!("BEFORE\n{}\nAFTER\n{}", outline(&p), outline(&h)); } }
                break;
            }
        }
        o.note(|| format!("program of {} nodes, entry {e}, passes {names:?}, {} runs, {} events", p.hugr.num_nodes(), want.len(), want[0].1.events.len()));
    }
}
pub fn prop() -> Prop {
    Prop { id: "C09", case, rule: "a pass changed a generated program (distinct resulting programs)", need: &["compared_runs", "changed:constfold", "changed:dce", "changed:inline_dfgs", "changed:inline_calls", "changed:normalize", "changed:untuple", "reference_events"], quick_s: 35, thorough_s: 600, min_cases: 400, max_cases: u64::MAX / 2 }
}
