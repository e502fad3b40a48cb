//! Extension resolution and registries.
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::spice::{rand_meta, spice, Spice};
use crate::util::*;
use hugr_core::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr_core::extension::{Extension, ExtensionId, ExtensionRegistry, TypeDefBound, Version};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::{AliasDefn, Call, ExtensionOp, FuncDecl, FuncDefn, Input, OpType, Output};
use hugr_core::ops::dataflow::IOTrait;
use hugr_core::package::Package;
use hugr_core::std_extensions::arithmetic::int_types::int_type;
use hugr_core::types::type_param::{Term, TypeArg, TypeParam};
use hugr_core::types::{CustomType, PolyFuncType, Signature, Type, TypeBound, TypeEnum, TypeName};
use hugr_core::{Hugr, Visibility};
use serde_json::Value as J;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::{Arc, Weak};

const IDS: [&str; 3] = ["c19.x", "c19.y.sub", "c19.z"];
fn id(e: usize) -> ExtensionId { ExtensionId::new(IDS[e]).unwrap() }
#[derive(Clone, Debug, PartialEq)]
enum T { Ext(usize, String, Vec<T>), Sum(Vec<Vec<T>>), Fun(Vec<T>, Vec<T>), Bool, Int }
#[derive(Clone, Debug, PartialEq)]
struct TypeS { name: String, params: usize, copy: bool }
#[derive(Clone, Debug, PartialEq)]
struct OpS { name: String, ins: Vec<T>, outs: Vec<T> }
#[derive(Clone, Debug)]
struct Spec { e: usize, v: Version, types: Vec<TypeS>, ops: Vec<OpS> }

fn rand_ty(r: &mut Rng, types: &[Vec<TypeS>], upto: usize, d: usize) -> T {
    let have: Vec<usize> = (0..=upto).filter(|e| !types[*e].is_empty()).collect();
    match r.below(if d == 0 { 4 } else { 9 }) {
        0 => T::Bool, 1 => T::Int,
        2..=5 if !have.is_empty() => { let e = *r.pick(&have); let t = r.pick(&types[e]).clone(); T::Ext(e, t.name, (0..t.params).map(|_| rand_ty(r, types, upto, d.saturating_sub(1))).collect()) }
        6 => T::Sum((0..r.range(1, 3)).map(|_| (0..r.below(3)).map(|_| rand_ty(r, types, upto, d - 1)).collect()).collect()),
        7 => T::Fun((0..r.below(3)).map(|_| rand_ty(r, types, upto, d - 1)).collect(), (0..r.below(3)).map(|_| rand_ty(r, types, upto, d - 1)).collect()),
        _ => T::Int,
    }
}
/// With the bounds that the author of the program knew.
fn to_type(t: &T, base: &[Spec], at: &dyn Fn(usize) -> Weak<Extension>) -> Type {
    match t {
        T::Bool => hugr_core::extension::prelude::bool_t(), T::Int => int_type(4),
        T::Sum(rows) => Type::new_sum(rows.iter().map(|r| r.iter().map(|t| to_type(t, base, at)).collect::<Vec<_>>())),
        T::Fun(a, b) => Type::new_function(Signature::new(a.iter().map(|t| to_type(t, base, at)).collect::<Vec<_>>(), b.iter().map(|t| to_type(t, base, at)).collect::<Vec<_>>())),
        T::Ext(e, n, args) => {
            let s = base[*e].types.iter().find(|s| s.name == *n).unwrap();
            let args: Vec<Type> = args.iter().map(|t| to_type(t, base, at)).collect();
            let copy = s.copy && args.iter().all(|a| a.copyable());
            CustomType::new(TypeName::new(n), args.into_iter().map(TypeArg::from).collect::<Vec<_>>(), id(*e), if copy { TypeBound::Copyable } else { TypeBound::Linear }, &at(*e)).into()
        }
    }
}
fn row(ts: &[T], base: &[Spec], at: &dyn Fn(usize) -> Weak<Extension>) -> Vec<Type> { ts.iter().map(|t| to_type(t, base, at)).collect() }
fn build(s: &Spec, base: &[Spec], made: &[Option<Arc<Extension>>]) -> Arc<Extension> {
    Extension::new_arc(id(s.e), s.v.clone(), |ext, w| {
        for t in &s.types {
            let bound = if !t.copy { TypeDefBound::any() } else if t.params > 0 { TypeDefBound::from_params((0..t.params).collect::<Vec<_>>()) } else { TypeDefBound::copyable() };
            ext.add_type(TypeName::new(&t.name), vec![TypeParam::from(TypeBound::Linear); t.params], "".into(), bound, w).unwrap();
        }
        let at = |e: usize| if e == s.e { w.clone() } else { made.get(e).and_then(|m| m.as_ref()).map(Arc::downgrade).unwrap_or_default() };
        for op in &s.ops { ext.add_op(op.name.as_str().into(), "".into(), Signature::new(row(&op.ins, base, &at), row(&op.outs, base, &at)), w).unwrap(); }
    })
}
fn build_all(specs: &[Option<Spec>], base: &[Spec]) -> Vec<Option<Arc<Extension>>> {
    let mut v: Vec<Option<Arc<Extension>>> = vec![];
    for s in specs { let e = s.as_ref().map(|s| build(s, base, &v)); v.push(e); }
    v
}
fn base_specs(r: &mut Rng) -> Vec<Spec> {
    let types: Vec<Vec<TypeS>> = vec![
        vec![TypeS { name: "t0".into(), params: 0, copy: true }, TypeS { name: "t1".into(), params: 0, copy: false }, TypeS { name: "b".into(), params: 1, copy: true }],
        vec![TypeS { name: "u".into(), params: 2, copy: true }, TypeS { name: "w".into(), params: 0, copy: false }],
        if r.bool() { vec![] } else { vec![TypeS { name: "t0".into(), params: 0, copy: false }] }];
    (0..3).map(|e| Spec { e, v: Version::new(r.below(2) as u64, 3, 2), types: types[e].clone(), ops: (0..r.below(4)).map(|k| OpS { name: format!("{}o{k}", ["", "p.", "a.b."][r.below(3)]), ins: (0..r.below(3)).map(|_| rand_ty(r, &types, e, 2)).collect(), outs: (0..r.below(3)).map(|_| rand_ty(r, &types, e, 2)).collect() }).collect() }).collect()
}
/// Another version of the extension: what it changes.
fn mutate(r: &mut Rng, s: &Spec) -> Spec {
    let mut s = s.clone();
    for _ in 0..r.range(0, 2) {
        match r.below(7) {
            0 if !s.ops.is_empty() => { let k = r.below(s.ops.len()); s.ops.remove(k); }
            1 if !s.ops.is_empty() => { let k = r.below(s.ops.len()); let o = &mut s.ops[k]; match r.below(3) { 0 => o.ins.push(T::Bool), 1 => o.outs.insert(0, T::Int), _ => std::mem::swap(&mut o.ins, &mut o.outs) } }
            2 if !s.types.is_empty() => { let k = r.below(s.types.len()); s.types.remove(k); }
            3 if !s.types.is_empty() => { let k = r.below(s.types.len()); s.types[k].copy ^= true; }
            4 if !s.types.is_empty() => { let k = r.below(s.types.len()); s.types[k].params ^= 1; }
            5 => { s.ops.push(OpS { name: "fresh".into(), ins: vec![T::Bool], outs: vec![] }); if s.ops.iter().filter(|o| o.name == "fresh").count() > 1 { s.ops.pop(); } }
            _ => { s.types.push(TypeS { name: "freshtype".into(), params: 0, copy: true }); if s.types.iter().filter(|o| o.name == "freshtype").count() > 1 { s.types.pop(); } }
        }
    }
    s.v = match r.below(6) { 0 => Version::new(s.v.major, s.v.minor, s.v.patch + 1), 1 => Version::new(s.v.major, s.v.minor + 1, 0), 2 => Version::new(s.v.major + 1, 0, 0), 3 => Version::new(s.v.major, s.v.minor, s.v.patch - 1), 4 => Version::new(s.v.major, s.v.minor - 1, 9), _ => s.v };
    s
}

#[derive(Default, Debug)]
struct Mentions { exts: BTreeSet<String>, ops: BTreeSet<(String, String)>, types: BTreeSet<(String, String)>, copied: BTreeSet<(String, String)> }
/// Everything with the form of a type, operation or constant in the saved text.
fn mentions(j: &J, m: &mut Mentions) {
    match j {
        J::Object(o) => {
            let s = |k: &str| o.get(k).and_then(|x| x.as_str()).map(|s| s.to_string());
            if s("t").as_deref() == Some("Opaque") { if let (Some(e), Some(i)) = (s("extension"), s("id")) { m.exts.insert(e.clone()); if s("bound").as_deref() == Some("C") { m.copied.insert((e.clone(), i.clone())); } m.types.insert((e, i)); } }
            if matches!(s("t").as_deref(), Some("Q" | "I")) && o.len() == 1 { m.exts.insert("prelude".into()); }
            if s("op").as_deref() == Some("Extension") { if let (Some(e), Some(n)) = (s("extension"), s("name")) { m.exts.insert(e.clone()); m.ops.insert((e, n)); } }
            for (k, v) in o { if k != "metadata" { mentions(v, m); } }
        }
        J::Array(a) => for v in a { mentions(v, m) },
        _ => {}
    }
}
/// The same without the definitions of aliases and the kinds of parameters.
fn plainly(j: &J) -> J {
    match j {
        J::Object(o) => J::Object(o.iter().filter(|(k, _)| *k != "params" && !(*k == "definition" && o.get("op").and_then(|x| x.as_str()) == Some("AliasDefn"))).map(|(k, v)| (k.clone(), plainly(v))).collect()),
        J::Array(a) => J::Array(a.iter().map(plainly).collect()),
        x => x.clone(),
    }
}
fn payload(text: &str) -> J { let i = text.find('{').unwrap_or(0); serde_json::from_str(&text[i..]).unwrap_or(J::Null) }

fn case(o: &mut Obs, seed: u64, idx: u64) {
    match idx % 8 { 5 => registry_ops(seed, idx, o), 6 => extension_sets(seed, idx, o), _ => programs(seed, idx, o) }
}

fn programs(seed: u64, idx: u64, o: &mut Obs) {
    let mut r = rng(seed, idx, 190);
    let base = base_specs(&mut r);
    let made = build_all(&base.iter().cloned().map(Some).collect::<Vec<_>>(), &base);
    let arcs: Vec<Arc<Extension>> = made.iter().flatten().cloned().collect();
    let at = |e: usize| Arc::downgrade(&arcs[e]);
    let mut cfg = Cfg::default().vary(&mut r); cfg.poly = r.bool();
    let mut h = if r.chance(1, 3) { match prog(o, seed, idx, &cfg) { Some(p) => p.hugr, None => return } } else { Hugr::default() };
    let small = h.num_nodes() < 3;
    if !small && r.bool() { spice(&mut r, &mut h, Spice { fn_consts: false, names: false, shuffle: false, meta: false, args: true, gaps: false, opaque_consts: false }); }
    let module = h.module_root();
    // one function for each operation that the program uses
    let all: Vec<(usize, OpS)> = base.iter().flat_map(|s| s.ops.iter().map(move |op| (s.e, op.clone()))).collect();
    for (k, (e, op)) in all.iter().enumerate() {
        if r.bool() { continue; }
        let (i, u) = (row(&op.ins, &base, &at), row(&op.outs, &base, &at));
        let f = h.add_node_with_parent(module, FuncDefn::new(format!("c19f{k}"), Signature::new(i.clone(), u.clone())));
        let a = h.add_node_with_parent(f, Input::new(i.clone())); let b = h.add_node_with_parent(f, Output::new(u.clone()));
        let x = h.add_node_with_parent(f, ExtensionOp::new(arcs[*e].get_op(&op.name).unwrap().clone(), []).unwrap());
        for p in 0..i.len() { h.connect(a, p, x, p); }
        for p in 0..u.len() { h.connect(x, p, b, p); }
    }
    let types: Vec<Vec<TypeS>> = base.iter().map(|s| s.types.clone()).collect();
    for k in 0..r.below(4) {
        let t = to_type(&rand_ty(&mut r, &types, 2, 2), &base, &at);
        match r.below(5) {
            0 => { h.add_node_with_parent(module, FuncDecl::new(format!("c19d{k}"), Signature::new(vec![t], vec![]))); o.n("declaration"); }
            1 => { h.add_node_with_parent(module, AliasDefn { name: format!("c19a{k}").into(), definition: t }); o.n("alias definition"); }
            2 => { h.add_node_with_parent(module, FuncDecl::new(format!("c19p{k}"), PolyFuncType::new([TypeParam::new_const(t)], Signature::new(vec![], vec![])))); o.n("parameter of a constant type"); }
            _ => {
                // only mentioned by an argument of a call
                let d = h.add_node_with_parent(module, FuncDecl::new(format!("c19q{k}"), PolyFuncType::new([TypeParam::new_list_type(TypeBound::Linear)], Signature::new(vec![], vec![]))));
                let f = h.add_node_with_parent(module, FuncDefn::new(format!("c19r{k}"), Signature::new(vec![], vec![])));
                h.add_node_with_parent(f, Input::new(vec![])); h.add_node_with_parent(f, Output::new(vec![]));
                let sig = h.get_optype(d).as_func_decl().unwrap().signature().clone();
                let c = h.add_node_with_parent(f, Call::try_new(sig, [TypeArg::List(vec![t.into()])]).unwrap());
                h.connect(d, 0, c, 0); o.n("argument of a call");
            }
        }
    }
    let _ = Visibility::Public;
    if h.validate().is_err() { o.n("program not valid"); return; }
    // the versions of the extensions that the program was made with
    let mut noted: Vec<(String, Version)> = vec![];
    let noting = r.chance(1, 3);
    if noting {
        for e in 0..3 { if r.bool() { let v = mutate(&mut r, &base[e]).v; noted.push((IDS[e].into(), v)); } }
        let j: Vec<J> = noted.iter().map(|(n, v)| serde_json::json!({"name": n, "version": v.to_string()})).collect();
        h.set_metadata(module, hugr_core::envelope::USED_EXTENSIONS_KEY, J::Array(j));
    } else if r.chance(1, 4) { h.set_metadata(module, "k", rand_meta(&mut r, 2)); }

    // what is there when it is loaded
    let mut reg_specs: Vec<Option<Spec>> = base.iter().map(|s| match r.below(6) { 0 => None, 1 | 2 => Some(mutate(&mut r, s)), _ => Some(s.clone()) }).collect();
    let mut packed: Vec<Option<Spec>> = vec![None, None, None];
    if r.chance(1, 3) { for e in 0..3 { if r.bool() { packed[e] = Some(if r.bool() { base[e].clone() } else { mutate(&mut r, &base[e]) }); if r.chance(1, 3) { reg_specs[e] = None; } } } }
    if r.chance(1, 4) { reg_specs = base.iter().cloned().map(Some).collect(); }
    let others = crate::spice::registry();
    let mut gone: BTreeSet<String> = BTreeSet::new();
    if r.chance(1, 4) { for _ in 0..r.range(1, 3) { let ids: Vec<_> = others.ids().cloned().collect(); gone.insert(r.pick(&ids).to_string()); } }
    let reg_exts: Vec<Option<Arc<Extension>>> = reg_specs.iter().map(|s| s.as_ref().map(|s| build(s, &base, &made))).collect();
    let mut reg = ExtensionRegistry::new(others.iter().filter(|e| !gone.contains(&e.name().to_string())).cloned().chain(reg_exts.iter().flatten().cloned()));
    let packed_exts = build_all(&packed, &base);
    let pack = ExtensionRegistry::new(packed_exts.iter().flatten().cloned());
    let pack_text = serde_json::to_value(&pack).unwrap();
    let Ok(text) = h.store_str_with_exts(EnvelopeConfig::text(), &pack) else { o.bad("store".to_string(), "the program cannot be stored".to_string()); return };
    let mut m = Mentions::default();
    mentions(&payload(&text)["modules"], &mut m);
    let mut plain = Mentions::default();
    mentions(&plainly(&payload(&text)["modules"]), &mut plain);
    if m.exts.is_empty() { o.n("mentions nothing"); }
    // the newest of both
    let eff: Vec<Option<&Spec>> = (0..3).map(|e| match (&reg_specs[e], &packed[e]) { (Some(a), Some(b)) => Some(if a.v >= b.v { a } else { b }), (a, b) => a.as_ref().or(b.as_ref()) }).collect();
    let present = |n: &str| IDS.iter().position(|i| *i == n).map(|e| eff[e].is_some()).unwrap_or_else(|| reg.contains(n));
    // why it must be refused: each with the words of which the error has to contain one
    let mut reasons: Vec<(&str, String)> = vec![];
    for e in &m.exts { if !present(e) { reasons.push(("missing extension", e.clone())); } }
    for (e, n) in &m.ops {
        let Some(k) = IDS.iter().position(|i| i == e) else { continue };
        let Some(s) = eff[k] else { continue };
        match s.ops.iter().find(|x| x.name == *n) { None => reasons.push(("missing operation", n.clone())), Some(x) => if Some(x) != base[k].ops.iter().find(|x| x.name == *n) { reasons.push(("another signature", n.clone())); } }
    }
    let mut deep: BTreeSet<usize> = BTreeSet::new();
    for (e, n) in &m.types {
        let Some(k) = IDS.iter().position(|i| i == e) else { continue };
        let Some(s) = eff[k] else { continue };
        match s.types.iter().find(|x| x.name == *n) { None => reasons.push(("missing type", n.clone())), Some(x) => { let b = base[k].types.iter().find(|x| x.name == *n); if Some(x) != b && (b.is_none_or(|b| b.params != x.params || x.copy) || m.copied.contains(&(e.clone(), n.clone()))) { reasons.push(("another type", n.clone())); } else { continue } } }
        let key = (e.clone(), n.clone()); let bound_only = s.types.iter().find(|x| x.name == *n).is_some_and(|x| base[k].types.iter().any(|b| b.name == *n && b.params == x.params && b.copy && !x.copy));
        if !plain.types.contains(&key) || bound_only && !plain.copied.contains(&key) { deep.insert(reasons.len() - 1); }
    }
    for (n, v) in &noted {
        let e = IDS.iter().position(|i| i == n).unwrap();
        let Some(s) = eff[e] else { continue };
        if s.v.major != v.major || (v.major == 0 && s.v.minor != v.minor) || s.v < *v { reasons.push(("incompatible version", n.clone())); }
    }
    let mut pm = Mentions::default();
    mentions(&pack_text, &mut pm);
    for e in &pm.exts { if !(reg.contains(e) || pack.contains(e)) { reasons.push(("packaged extension needs a missing one", e.clone())); } }

    let formats: &[EnvelopeFormat] = if r.bool() { &[EnvelopeFormat::PackageJson] } else { &[EnvelopeFormat::PackageJson, EnvelopeFormat::ModelTextWithExtensions] };
    for (k, &f) in formats.iter().enumerate() {
        let text = if k == 0 { text.clone() } else { match crate::driver::quiet_catch(|| h.store_str_with_exts(EnvelopeConfig::new(f), &pack)) { Ok(Ok(t)) => t, _ => { o.n("not for the text format"); continue } } };
        let fname = if k == 0 { "json" } else { "model" };
        if k == 1 { // only what the format can carry
            let full = ExtensionRegistry::new(others.iter().cloned().chain(arcs.iter().cloned()));
            match h.store_str(EnvelopeConfig::new(EnvelopeFormat::ModelText)).ok().map(|t| Hugr::load_str(t, Some(&full))) { Some(Ok(g)) if g.validate().is_ok() => { let mut b = Mentions::default(); mentions(&payload(&g.store_str(EnvelopeConfig::text()).unwrap_or_default())["modules"], &mut b); if b.exts != m.exts { o.n("format drops a mention"); continue; } } _ => { o.n("not for the text format"); continue } }
        }
        let reg2 = reg.clone();
        let res = o.guard(&format!("load {fname}"), || Hugr::load_str(&text, Some(&reg2)));
        drop(reg2);
        let Some(res) = res else { continue };
        let res = match res { Ok(g) => match g.validate() { Ok(()) => Ok(g), Err(e) => Err(("validate", chain(&e))) }, Err(e) => Err(("load", chain(&e))) };
        o.n(if reasons.is_empty() { "all available" } else { "something amiss" });
        match res {
            Err((when, e)) => {
                o.n(&format!("refused at {when}"));
                if reasons.is_empty() { o.bad(format!("{fname}|refused|{when}|{}", short(&e)), format!("everything is available ({:?}), but: {e}", m)); continue; }
                for x in &reasons { o.n(x.0); }
                if !reasons.iter().any(|x| e.contains(&x.1) || x.0 == "another type" && e.contains("operation") && (e.contains("Bound on CustomType") || e.contains("Type arguments of node"))) { o.bad(format!("{fname}|unnamed|{}|{}", reasons[0].0, short(&e)), format!("the error does not name any of {reasons:?}: {e}")); }
            }
            Ok(g) => {
                if k == 1 && reasons.iter().all(|x| x.0 == "another type") { o.n("bounds are not part of the format"); continue }
                if let Some(x) = reasons.first() { let kinds: BTreeSet<&str> = reasons.iter().map(|x| x.0).collect(); let hidden = (0..reasons.len()).all(|k| deep.contains(&k)); o.bad(format!("{fname}|accepted|{}{}", x.0, if hidden { "|in an alias or the kind of a parameter" } else { "" }), format!("accepted in spite of {kinds:?} {reasons:?} {}", outline(&g))); continue; }
                let got: BTreeSet<String> = g.extensions().ids().map(|i| i.to_string()).collect();
                if got != m.exts { o.bad(format!("{fname}|recorded|{}", if got.is_subset(&m.exts) { "too few" } else { "too many" }), format!("records {got:?} but mentions {:?}", m.exts)); continue; }
                for e in 0..3 { if let (Some(s), Some(x)) = (eff[e], g.extensions().get(IDS[e])) {
                    o.n("version recorded");
                    if *x.version() != s.v { o.bad(format!("{fname}|version"), format!("{} in version {} but the newest is {}", IDS[e], x.version(), s.v)); }
                    if let (Some(a), Some(ext)) = (&reg_specs[e], &reg_exts[e]) { if a.v == s.v && !Arc::ptr_eq(ext, x) { o.bad(format!("{fname}|instance"), format!("{} is not the registered one", IDS[e])); } }
                } }
                // the program keeps all it needs
                if !alive(o, fname, &g) { continue; }
                let own = g.extensions().clone();
                let mut g2 = g.clone();
                if let Err(e) = g2.resolve_extension_defs(&own) { o.bad(format!("{fname}|resolve again"), format!("what is recorded does not suffice: {}", chain(&e))); continue; }
                if *g2.extensions() != own { o.bad(format!("{fname}|resolve again"), "resolving again records something else".to_string()); }
                kept.with(|k| k.borrow_mut().push((fname, g)));
            }
        }
    }
    // everything else is dropped
    drop(h); reg = ExtensionRegistry::default(); drop(reg); drop(reg_exts); drop(packed_exts); drop(pack); drop(made); drop(arcs);
    for (fname, g) in kept.with(|k| std::mem::take(&mut *k.borrow_mut())) {
        o.n("after all was dropped");
        if !alive(o, &format!("{fname} after dropping"), &g) { continue; }
        if let Err(e) = g.validate() { o.bad(format!("{fname}|after dropping|{}", short(&chain(&e))), chain(&e)); }
        o.saw(m.exts.len() as u64 * 1000 + g.num_nodes() as u64);
    }
    o.saw(crate::rng::hash_str(&format!("{:?}{:?}", m.ops.len(), reasons)));
}
thread_local! { #[allow(non_upper_case_globals)] static kept: std::cell::RefCell<Vec<(&'static str, Hugr)>> = const { std::cell::RefCell::new(vec![]) }; }

fn term_types(t: &Term, v: &mut Vec<Type>) {
    match t {
        Term::Runtime(t) => v.push(t.clone()),
        Term::ConstType(t) => v.push((**t).clone()),
        Term::List(a) | Term::Tuple(a) | Term::ListConcat(a) | Term::TupleConcat(a) => for t in a.iter() { term_types(t, v) },
        Term::ListType(t) => term_types(t, v), Term::TupleType(t) => term_types(t, v),
        _ => {}
    }
}
/// Every extension pointer reaches the recorded instance.
fn alive(o: &mut Obs, fname: &str, g: &Hugr) -> bool {
    for n in g.nodes() {
        let op = g.get_optype(n);
        let mut types: Vec<Type> = vec![];
        match op {
            OpType::OpaqueOp(x) => { o.bad(format!("{fname}|unresolved operation"), x.qualified_id().to_string()); return false }
            OpType::ExtensionOp(x) => {
                let e = x.def().extension().upgrade();
                if e.is_none() || !g.extensions().get(&x.def().extension_id().to_string()).is_some_and(|r| Arc::ptr_eq(r, e.as_ref().unwrap())) { o.bad(format!("{fname}|pointer|operation definition"), format!("{n} {} points to {}", describe(op), if e.is_none() { "nothing" } else { "another instance" })); return false; }
                for a in x.args() { term_types(a, &mut types); }
            }
            OpType::AliasDefn(a) => types.push(a.definition.clone()),
            OpType::FuncDecl(f) => for p in f.signature().params() { term_types(p, &mut types) },
            OpType::FuncDefn(f) => for p in f.signature().params() { term_types(p, &mut types) },
            OpType::Call(c) => for a in &c.type_args { term_types(a, &mut types) },
            OpType::LoadFunction(c) => for a in &c.type_args { term_types(a, &mut types) },
            OpType::Const(c) => types.push(c.get_type()),
            _ => {}
        }
        use hugr_core::ops::OpTrait;
        if let Some(s) = op.dataflow_signature() { types.extend(s.input.iter().cloned()); types.extend(s.output.iter().cloned()); }
        match op.used_extensions() {
            Err(e) => { o.bad(format!("{fname}|pointer|{}", optype(op)), format!("{n} {}: {}", describe(op), chain(&e))); return false }
            Ok(u) => for e in u.iter() { if !g.extensions().get(&e.name().to_string()).is_some_and(|r| Arc::ptr_eq(r, e)) { o.bad(format!("{fname}|pointer|{}", optype(op)), format!("{n} {} uses {} which is not the recorded instance", describe(op), e.name())); return false; } },
        }
        while let Some(t) = types.pop() {
            match t.as_type_enum() {
                TypeEnum::Extension(c) => {
                    let e = c.extension_ref().upgrade(); o.n("type pointers");
                    if e.is_none() || !g.extensions().get(&c.extension().to_string()).is_some_and(|r| Arc::ptr_eq(r, e.as_ref().unwrap())) { o.bad(format!("{fname}|pointer|type in {}", optype(op)), format!("{n} {}: {t} points to {}", describe(op), if e.is_none() { "nothing" } else { "another instance" })); return false; }
                    for a in c.args() { term_types(a, &mut types); }
                }
                TypeEnum::Sum(s) => for v in s.variants() { for t in v.iter() { if let Ok(t) = Type::try_from(t.clone()) { types.push(t) } } },
                TypeEnum::Function(f) => for t in f.input.iter().chain(f.output.iter()) { if let Ok(t) = Type::try_from(t.clone()) { types.push(t) } },
                _ => {}
            }
        }
    }
    true
}
fn optype(op: &OpType) -> String { let s = format!("{op:?}"); s.chars().take_while(|c| c.is_alphanumeric()).collect() }

/// Histories of registrations against a map.
fn registry_ops(seed: u64, idx: u64, o: &mut Obs) {
    let mut r = rng(seed, idx, 191);
    let names = ["a", "a.b", "b", "c", "prelude"];
    // a pool of extensions; some do not validate
    let pool: Vec<(Arc<Extension>, bool)> = (0..r.range(3, 12)).map(|k| {
        let n = *r.pick(&names); let v = Version::parse(["0.1.0", "0.1.1", "0.2.0", "1.0.0", "1.0.0-alpha", "1.0.0-alpha.1", "2.0.0", "0.1.0+7", "10.0.0", "9.9.9"][r.below(10)]).unwrap();
        let invalid = r.chance(1, 6);
        (Extension::new_arc(ExtensionId::new(n).unwrap(), v, |e, w| {
            e.add_op(format!("k{k}").as_str().into(), "".into(), Signature::new(vec![if invalid { Type::new_var_use(3, TypeBound::Copyable) } else { int_type(3) }], vec![]), w).unwrap();
        }), invalid)
    }).collect();
    let bad = |e: &Arc<Extension>| pool.iter().any(|(p, i)| *i && Arc::ptr_eq(p, e));
    let mut reg = ExtensionRegistry::default();
    let mut model: BTreeMap<String, Arc<Extension>> = BTreeMap::new();
    let upd = |m: &mut BTreeMap<String, Arc<Extension>>, e: &Arc<Extension>| { let k = e.name().to_string(); if m.get(&k).is_none_or(|p| p.version() < e.version()) { m.insert(k, e.clone()); } };
    let mut hist = String::new();
    for _ in 0..r.range(3, 25) {
        let (e, _) = r.pick(&pool).clone();
        let what = r.below(9);
        hist.push_str(&format!("{what}:{}@{} ", e.name(), e.version()));
        match what {
            0 | 1 => { let got = reg.register(e.clone()); let had = model.contains_key(&e.name().to_string());
                match got { Ok(()) if had => { o.bad("register|replaced", hist.clone()); return } Err(x) if !had => { o.bad("register|refused", format!("{x} {hist}")); return }
                    Err(x) => { o.n("already registered"); let t = x.to_string(); let p = model[&e.name().to_string()].version().to_string(); if !(t.contains(&e.name().to_string()) && t.contains(&p) && t.contains(&e.version().to_string())) { o.bad("register|error", t); return } }
                    Ok(()) => { model.insert(e.name().to_string(), e); } } }
            2 => { reg.register_updated(e.clone()); upd(&mut model, &e); }
            3 => { reg.register_updated_ref(&e); upd(&mut model, &e); }
            4 => { let es: Vec<_> = (0..r.below(4)).map(|_| r.pick(&pool).0.clone()).collect(); if r.bool() { reg.extend(es.iter()); } else { reg.extend(es.clone()); } for e in &es { upd(&mut model, e); } }
            5 => { let got = reg.remove_extension(e.name()); let exp = model.remove(&e.name().to_string()); if got.as_ref().map(Arc::as_ptr) != exp.as_ref().map(Arc::as_ptr) { o.bad("remove", hist.clone()); return } }
            6 => { let c = reg.clone(); if c != reg { o.bad("clone", hist.clone()); return } reg = c; }
            7 => { let v = reg.validate(); o.n("validations"); let exp: Vec<String> = model.values().filter(|e| bad(e)).map(|e| e.name().to_string()).collect();
                match v { Ok(()) if !exp.is_empty() => { o.bad("validate|accepted", format!("{exp:?} do not validate: {hist}")); return } Err(x) => if !exp.iter().any(|n| x.to_string().contains(n)) { o.bad("validate|refused", format!("{x}: {hist}")); return }, _ => {} } }
            _ => { // all at once, in any order
                let mut es: Vec<_> = pool.iter().map(|p| p.0.clone()).collect(); r.shuffle(&mut es);
                let a = ExtensionRegistry::new(es.clone()); let mut m2 = BTreeMap::new(); for e in &es { upd(&mut m2, e); }
                if a.iter().map(Arc::as_ptr).ne(m2.values().map(Arc::as_ptr)) { o.bad("new", hist.clone()); return }
                r.shuffle(&mut es);
                let b = ExtensionRegistry::new(es);
                let ver = |x: &ExtensionRegistry| x.iter().map(|e| (e.name().clone(), e.version().clone())).collect::<Vec<_>>();
                if ver(&a).iter().zip(ver(&b).iter()).any(|(x, y)| x != y) || a.len() != b.len() { o.bad("order of registration", format!("{:?} {:?}", ver(&a), ver(&b))); return }
                o.n("orders compared");
            }
        }
        if reg.iter().map(Arc::as_ptr).ne(model.values().map(Arc::as_ptr)) || reg.len() != model.len() || reg.is_empty() != model.is_empty() || reg.ids().map(|i| i.to_string()).ne(model.keys().cloned()) { o.bad(format!("content|{what}"), format!("{:?} instead of {:?}: {hist}", reg.iter().map(|e| format!("{}@{}", e.name(), e.version())).collect::<Vec<_>>(), model.values().map(|e| format!("{}@{}", e.name(), e.version())).collect::<Vec<_>>())); return }
        for n in names { if reg.contains(n) != model.contains_key(n) || reg.get(n).map(Arc::as_ptr) != model.get(n).map(Arc::as_ptr) { o.bad("lookup", format!("{n}: {hist}")); return } }
        o.n("registry operations");
    }
    o.saw(crate::rng::hash_str(&hist));
}

/// Sets of extensions which mention each other, saved and loaded.
fn extension_sets(seed: u64, idx: u64, o: &mut Obs) {
    let mut r = rng(seed, idx, 192);
    let mut base = base_specs(&mut r);
    let types: Vec<Vec<TypeS>> = base.iter().map(|s| s.types.clone()).collect();
    for s in base.iter_mut() { s.ops = (0..r.range(1, 3)).map(|k| OpS { name: format!("o{k}"), ins: (0..r.below(3)).map(|_| rand_ty(&mut r, &types, 2, 2)).collect(), outs: vec![rand_ty(&mut r, &types, 2, 2)] }).collect(); }
    let made: Vec<Arc<Extension>> = base.iter().map(|s| build(s, &base, &[])).collect();
    let mut list: Vec<usize> = (0..3).filter(|_| r.chance(3, 4)).collect();
    r.shuffle(&mut list);
    let mut exts: Vec<Arc<Extension>> = list.iter().map(|e| made[*e].clone()).collect();
    // the same one again, in another version
    let twice = !list.is_empty() && r.chance(1, 4);
    if twice { let e = *r.pick(&list); let mut s = base[e].clone(); s.v = mutate(&mut r, &s).v; let at = r.below(exts.len() + 1); exts.insert(at, build(&s, &base, &[])); }
    let text = serde_json::to_value(&exts.iter().map(|e| e.as_ref()).collect::<Vec<_>>()).unwrap();
    let mut others: Vec<Arc<Extension>> = hugr_core::std_extensions::STD_REG.iter().cloned().collect();
    for e in 0..3 { if r.chance(1, 4) { let mut s = base[e].clone(); s.v = mutate(&mut r, &s).v; others.push(build(&s, &base, &[])); } }
    let others = ExtensionRegistry::new(others);
    let mut m = Mentions::default(); mentions(&text, &mut m);
    let missing: Vec<&String> = m.exts.iter().filter(|e| !others.contains(e) && !exts.iter().any(|x| x.name().to_string() == **e)).collect();
    let Some(res) = o.guard("load extensions", || ExtensionRegistry::load_json(text.to_string().as_bytes(), &others)) else { return };
    let how = if twice { "twice" } else { "once" };
    match res {
        Err(e) => { o.n("sets refused"); let e = chain(&e); if missing.is_empty() { o.bad(format!("set|refused|{}", short(&e)), e); } else if !missing.iter().any(|m| e.contains(m.as_str())) { o.bad("set|unnamed", format!("{missing:?}: {e}")); } }
        Ok(reg) => {
            o.n("sets loaded");
            if !missing.is_empty() { o.bad("set|accepted", format!("{missing:?} missing")); return }
            let mut want: BTreeMap<String, &Arc<Extension>> = BTreeMap::new();
            for e in &exts { let k = e.name().to_string(); if want.get(&k).is_none_or(|p| p.version() < e.version()) { want.insert(k, e); } }
            if reg.iter().map(|e| (e.name().to_string(), e.version().clone())).ne(want.iter().map(|(k, e)| (k.clone(), e.version().clone()))) { o.bad(format!("set|{how}|content"), format!("{:?}", reg.iter().map(|e| format!("{}@{}", e.name(), e.version())).collect::<Vec<_>>())); return }
            for e in reg.iter() {
                if serde_json::to_value(e.as_ref()).unwrap() != serde_json::to_value(want[&e.name().to_string()].as_ref()).unwrap() { o.bad(format!("set|{how}|changed"), format!("{}", e.name())); return }
                let ok = |w: &Weak<Extension>, id: &ExtensionId| w.upgrade().is_some_and(|x| x.name() == id && (reg.get(id).is_some_and(|y| Arc::ptr_eq(&x, y)) || others.get(id).is_some_and(|y| Arc::ptr_eq(&x, y))));
                let mine = |w: &Weak<Extension>| w.upgrade().is_some_and(|x| Arc::ptr_eq(&x, e));
                for (n, t) in e.types() { if !mine(&t.extension()) { o.bad(format!("set|{how}|own pointer of a type"), format!("{} {n}: {:?}", e.name(), t.extension().upgrade().map(|x| x.version().clone()))); return } }
                for (n, op) in e.operations() {
                    if !mine(&op.extension()) { o.bad(format!("set|{how}|own pointer of an operation"), format!("{} {n}: {:?}", e.name(), op.extension().upgrade().map(|x| x.version().clone()))); return }
                    let Ok(s) = op.compute_signature(&[]) else { o.bad("set|signature", n.to_string()); return };
                    let mut types: Vec<Type> = s.input.iter().chain(s.output.iter()).cloned().collect();
                    while let Some(t) = types.pop() { match t.as_type_enum() {
                        TypeEnum::Extension(c) => { o.n("type pointers"); if !ok(&c.extension_ref(), c.extension()) { o.bad(format!("set|{how}|pointer of a type"), format!("{} {n}: {t} {:?}", e.name(), c.extension_ref().upgrade().map(|x| format!("{}@{}", x.name(), x.version())))); return } for a in c.args() { term_types(a, &mut types); } }
                        TypeEnum::Sum(s) => for v in s.variants() { for t in v.iter() { if let Ok(t) = Type::try_from(t.clone()) { types.push(t) } } },
                        TypeEnum::Function(f) => for t in f.input.iter().chain(f.output.iter()) { if let Ok(t) = Type::try_from(t.clone()) { types.push(t) } },
                        _ => {}
                    } }
                }
                
            }
            if let Err(x) = reg.validate() { o.bad(format!("set|{how}|validate|{}", short(&x.to_string())), format!("{x}")); return }
            let p = { let mut p = Package::new([]); p.extensions = reg.clone(); p };
            let mut buf = vec![]; let _ = p.store(&mut buf, EnvelopeConfig::text()).map(|_| o.n("packages of extensions"));
            o.saw(crate::rng::hash_str(&text.to_string()));
        }
    }
}
pub fn prop() -> Prop {
    Prop { id: "C19", case, rule: "programs mentioning versions of a family of extensions in operations, types, arguments, parameters, aliases and constants, loaded from both formats against registries with extensions removed, changed or packaged along; an independent reading of the saved text says what is mentioned, an independent comparison of the extension tables what is amiss; registries against a map over histories; sets of extensions which mention each other saved and loaded",
        need: &["all available", "something amiss", "refused at load", "refused at validate", "after all was dropped", "registry operations", "sets loaded", "incompatible version", "type pointers"], quick_s: 20, thorough_s: 600, min_cases: 2000, max_cases: 2_000_000 }
}
/// A family of extensions, for other checks.
pub fn sample(r: &mut Rng) -> Vec<Arc<Extension>> { let base = base_specs(r); build_all(&base.iter().cloned().map(Some).collect::<Vec<_>>(), &base).into_iter().flatten().collect() }
