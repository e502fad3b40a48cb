//! The same work done again gives the same bytes.
use crate::driver::{quiet_catch, Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::spice::{registry, spice, Spice, ALL};
use crate::util::*;
use hugr_core::envelope::{EnvelopeConfig, EnvelopeFormat};
use hugr_core::extension::ExtensionRegistry;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::linking::{HugrLinking, NodeLinkingDirective as D};
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::OpType;
use hugr_core::package::Package;
use hugr_core::{Hugr, Node};

/// Every run of `f` starts from a program of its own, and every table from a hash seed of its own.
fn again(o: &mut Obs, what: &str, f: &dyn Fn(&mut Rng) -> Result<Vec<u8>, String>, r: &mut Rng) {
    let start = r.clone();
    let mut first: Option<Result<Vec<u8>, String>> = None;
    for k in 0..4 {
        *r = start.clone();
        let x = match quiet_catch(|| f(r)) { Ok(x) => x, Err(p) => Err(format!("panic {}", p.msg)) };
        o.n("runs");
        match &first {
            None => { if x.is_err() { o.n("errors"); } first = Some(x); }
            Some(y) => if *y != x {
                let (a, b) = match (y, &x) { (Ok(a), Ok(b)) => (String::from_utf8_lossy(a).into_owned(), String::from_utf8_lossy(b).into_owned()), (a, b) => (format!("{:?}", a.as_ref().map(|x| x.len())), format!("{:?}", b.as_ref().map(|x| x.len()))) };
                let at = a.bytes().zip(b.bytes()).position(|(x, y)| x != y).unwrap_or(a.len().min(b.len()));
                let cut = |s: &str| { let mut i = at.saturating_sub(60); while !s.is_char_boundary(i) { i -= 1; } s[i..].chars().take(160).collect::<String>() };
                let kind = if y.is_err() && x.is_err() { "message" } else { "bytes" };
                o.bad(format!("{what}|{kind}"), format!("run {k} differs at byte {at} ({} and {} bytes): …{}… instead of …{}…", a.len(), b.len(), cut(&b), cut(&a)));
                return;
            }
        }
    }
    o.n(format!("repeated {what}"));
}
fn save(h: &Hugr) -> Vec<u8> { let mut b = vec![]; match h.store(&mut b, EnvelopeConfig::text()) { Ok(()) => b, Err(e) => chain(&e).into_bytes() } }

fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 290);
    let cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[20, 60, 150]) } else { *r.pick(&[10, 30, 60]) }, funcs: r.range(1, 5), poly: r.bool(), dead_blocks: r.bool(), ..Cfg::default() }.vary(&mut r));
    let Some(p) = prog(o, seed, idx, &cfg) else { return };
    let mut h = p.hugr;
    let with = r.bool(); if r.bool() { spice(&mut r, &mut h, if with { ALL } else { Spice { fn_consts: false, ..ALL } }); }
    let reg = registry();
    if h.resolve_extension_defs(&reg).is_err() { return }
    let main_name = match h.get_optype(p.main) { OpType::FuncDefn(f) => f.func_name().to_string(), _ => return };
    let entry = crate::props::c09::pick_entry(&mut r, &h, p.main);
    h.set_entrypoint(entry);
    let text = save(&h);
    let fresh = || -> Result<(Hugr, Node), String> { let h = Hugr::load(&text[..], Some(&registry())).map_err(|e| chain(&e))?; let m = h.children(h.module_root()).find(|n| matches!(h.get_optype(*n), OpType::FuncDefn(f) if *f.func_name() == main_name)).ok_or("main")?; Ok((h, m)) };
    if fresh().is_err() { o.n("does not load"); return }
    o.saw(crate::rng::hash_str(&String::from_utf8_lossy(&text)));
    // generation and building
    again(o, "build", &|_| Ok(save(&prog(&mut Obs::default(), seed, idx, &cfg).ok_or("none")?.hugr)), &mut r);
    // writers
    for (n, f) in [("json", EnvelopeFormat::PackageJson), ("model", EnvelopeFormat::Model), ("model-exts", EnvelopeFormat::ModelWithExtensions), ("model-text", EnvelopeFormat::ModelText)] {
        if !r.chance(1, 2) { continue }
        let z = r.bool();
        again(o, &format!("write {n}"), &|_| { let (h, _) = fresh()?; let mut p = Package::new([h]); p.extensions = ExtensionRegistry::new(registry().iter().filter(|e| e.name().len() % 3 == 0).cloned()); let c = EnvelopeConfig::new(f); let mut b = vec![]; p.store(&mut b, if z { c.with_zstd(Default::default()) } else { c }).map_err(|e| chain(&e))?; Ok(b) }, &mut r);
    }
    if r.chance(1, 4) { again(o, "write extensions", &|_| { let mut v = vec![]; for e in registry().iter() { serde_json::to_writer(&mut v, &**e).unwrap(); } Ok(v) }, &mut r); }
    let fns = String::from_utf8_lossy(&text).contains("\"Function\"");
    if r.chance(1, 3) && !fns { again(o, "draw", &|_| { let (h, _) = fresh()?; Ok(format!("{}\n{}", h.mermaid_string(), h.dot_string()).into_bytes()) }, &mut r); }
    // describing, from every format
    if r.chance(1, 2) { let f = *r.pick(&super::c32::FORMATS); again(o, "describe", &|_| { let (h, _) = fresh()?; let mut b = vec![]; h.store(&mut b, EnvelopeConfig::new(f)).map_err(|e| chain(&e))?; let (d, p) = hugr_core::envelope::read_envelope(&b[..], &registry()).map_err(|e| chain(&e))?; let mut v = serde_json::to_vec(&d).unwrap(); v.extend(save(&p.modules[0])); Ok(v) }, &mut r); }
    // refusing
    if r.chance(1, 3) { let cut = r.range(10, text.len()); again(o, "refuse", &|_| { match Hugr::load(&text[..cut.min(text.len() - 1)], Some(&registry())) { Ok(h) => Ok(save(&h)), Err(e) => Err(chain(&e)) } }, &mut r); }
    if r.chance(1, 3) { again(o, "refuse without extensions", &|_| { match Hugr::load(&text[..], Some(&ExtensionRegistry::default())) { Ok(h) => Ok(save(&h)), Err(e) => Err(chain(&e)) } }, &mut r); }
    if r.chance(1, 3) { let k = r.u64(); again(o, "validate", &|_| { let (mut h, _) = fresh()?; let l: Vec<_> = h.nodes().collect(); for j in 0..3u64 { let n = l[(crate::rng::mix(&[k, j]) as usize) % l.len()]; if h.num_inputs(n) > 0 { h.disconnect(n, hugr_core::IncomingPort::from(0)); } } h.validate().map(|()| vec![]).map_err(|e| chain(&e)) }, &mut r); }
    // passes
    for _ in 0..4 {
        let name = *r.pick(super::c09::PASSES);
        again(o, &format!("pass {name}"), &|r| { let (mut h, m) = fresh()?; super::c09::apply(r, name, &mut h, m, &[])?; Ok(save(&h)) }, &mut r);
    }
    // several passes after one another
    if r.chance(1, 3) { let l: Vec<&str> = (0..3).map(|_| *r.pick(&["constfold", "dce", "inline_dfgs", "normalize", "untuple", "mono", "deadfuncs"])).collect(); again(o, "passes", &|r| { let (mut h, m) = fresh()?; for n in &l { super::c09::apply(r, n, &mut h, m, &[])?; } Ok(save(&h)) }, &mut r); }
    // linking
    if r.chance(1, 2) {
        let view = r.bool();
        again(o, if view { "link view" } else { "link" }, &|_| { let (mut h, _) = fresh()?; let (g, _) = fresh()?; let mut fs: Vec<Node> = h.children(h.module_root()).filter(|n| matches!(h.get_optype(*n), OpType::FuncDefn(_) | OpType::FuncDecl(_))).collect(); fs.sort(); let gf = fs.clone(); let dirs = gf.into_iter().enumerate().map(|(k, n)| (n, if k % 3 == 0 { D::replace([fs[k]]) } else if k % 3 == 1 { D::UseExisting(fs[k]) } else { D::add() })); let d = dirs.collect::<std::collections::HashMap<_, _>>(); if view { h.insert_link_view_by_node(None, &g, d).map_err(|e| e.to_string())?; } else { h.insert_link_hugr_by_node(None, g, d).map_err(|e| e.to_string())?; } Ok(save(&h)) }, &mut r);
        again(o, "insert", &|_| { let (mut h, m) = fresh()?; let (g, _) = fresh()?; if g.entrypoint() == g.module_root() { return Err("module".into()); } h.insert_hugr(m, g); Ok(save(&h)) }, &mut r);
    }
}
pub fn prop() -> Prop {
    Prop { id: "C29", case, rule: "generated programs built, written, drawn, described, refused, transformed and linked four times over, each time from a fresh copy and with new hash seeds; distinct programs are counted",
        need: &["runs", "repeated build", "repeated link", "errors"], quick_s: 25, thorough_s: 600, min_cases: 300, max_cases: 1_000_000 }
}
