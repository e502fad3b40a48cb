//! The descriptions of packages against their contents.
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::rng::Rng;
use crate::spice::{any_entry, rand_str, registry, spice, Spice, ALL};
use crate::util::*;
use hugr_core::envelope::description::{op_string, ModuleDesc, PackageDesc};
use hugr_core::envelope::{read_envelope, EnvelopeConfig, EnvelopeFormat, ReadError, GENERATOR_KEY, USED_EXTENSIONS_KEY};
use hugr_core::extension::{ExtensionRegistry, Version};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::ops::{FuncDecl, OpType};
use hugr_core::package::Package;
use hugr_core::types::Signature;
use hugr_core::{Hugr, Visibility};
use serde_json::{json, Value as J};

/// What is true of a module, taken from the program that was saved.
pub struct Truth { pub generator: Option<String>, pub claimed: Option<Vec<(String, Version)>>, pub publics: Vec<(String, String)> }
pub fn truth(h: &Hugr) -> Truth {
    let g = h.get_metadata(h.module_root(), GENERATOR_KEY).map(|g| match g {
        J::String(s) => s.clone(),
        J::Object(o) => match (o.get("name").and_then(|x| x.as_str()), o.get("version").and_then(|x| x.as_str())) { (Some(n), Some(v)) => format!("{n}-v{v}"), (Some(n), None) => n.to_string(), _ => g.to_string() },
        g => g.to_string(),
    });
    let claimed = h.get_metadata(h.module_root(), USED_EXTENSIONS_KEY).map(|l| l.as_array().unwrap().iter().map(|e| (e["name"].as_str().unwrap().to_string(), Version::parse(e["version"].as_str().unwrap()).unwrap())).collect());
    let mut publics = vec![];
    for n in h.children(h.module_root()) { match h.get_optype(n) {
        OpType::FuncDefn(f) if *f.visibility() == Visibility::Public => publics.push((f.func_name().to_string(), f.signature().to_string())),
        OpType::FuncDecl(f) if *f.visibility() == Visibility::Public => publics.push((f.func_name().to_string(), f.signature().to_string())),
        _ => {}
    } }
    Truth { generator: g, claimed, publics }
}
fn unbounded(x: &str) -> String {
    let mut x = x.to_string();
    while let Some(a) = x.find("BoundedNat[") { let Some(b) = x[a..].find(']') else { break }; x.replace_range(a..=a + b, "Nat"); }
    x
}
/// A package with what descriptions talk about.
pub fn package(o: &mut Obs, r: &mut Rng, seed: u64, idx: u64, for_model: bool) -> Option<Package> {
    let mut hs = vec![];
    for k in 0..if r.chance(1, 3) { r.below(4) } else { 1 } {
        let mut cfg = Cfg::default().vary(r);
        cfg.size = 3 + r.below(12); cfg.funcs = r.below(4);
        let mut h;
        if r.chance(1, 8) { h = Hugr::new(); } else {
            let p = prog(o, seed ^ (k as u64) << 40, idx, &cfg)?;
            h = p.hugr;
            if r.bool() { spice(r, &mut h, if for_model { Spice { fn_consts: false, names: false, shuffle: true, meta: false, args: true, gaps: true, opaque_consts: false } } else { ALL }); }
            if r.bool() { any_entry(r, &mut h, p.main); } else if r.bool() { h.set_entrypoint(h.module_root()); }
        }
        let root = h.module_root();
        for k in 0..r.below(3) { let n = if for_model { format!("pub.decl{k}") } else { format!("p{k}{}", rand_str(r)) }; h.add_node_with_parent(root, FuncDecl::new(n, Signature::new_endo(vec![hugr_core::extension::prelude::usize_t()]))); }
        match r.below(6) {
            0 => h.set_metadata(root, GENERATOR_KEY, J::String(if for_model { "gen é \"x\"\n".into() } else { rand_str(r) })),
            1 => h.set_metadata(root, GENERATOR_KEY, json!({"name": "tool", "version": format!("0.{k}.1")})),
            2 => h.set_metadata(root, GENERATOR_KEY, json!({"name": "tool", "other": 1})),
            3 => h.set_metadata(root, GENERATOR_KEY, json!({"nom": [1, null]})),
            4 if r.chance(1, 3) => h.set_metadata(root, GENERATOR_KEY, json!([k])),
            _ => {}
        }
        if r.chance(1, 3) { let all = registry(); let l: Vec<J> = (0..r.below(4)).map(|_| if r.chance(1, 4) { json!({"name": "nowhere.at.all", "version": "7.8.9-a.1"}) } else { let e = all.iter().nth(r.below(all.len())).unwrap(); json!({"name": e.name().to_string(), "version": e.version().to_string()}) }).collect(); h.set_metadata(root, USED_EXTENSIONS_KEY, J::Array(l)); }
        hs.push(h);
    }
    let mut p = Package::new(hs);
    let some = r.chance(1, 3);
    let few: Vec<_> = registry().iter().filter(|_| r.chance(1, 12)).cloned().collect();
    let more = if some { super::c19::sample(r) } else { vec![] };
    p.extensions = ExtensionRegistry::new(few.into_iter().chain(more));
    Some(p)
}
pub const FORMATS: [EnvelopeFormat; 5] = [EnvelopeFormat::PackageJson, EnvelopeFormat::Model, EnvelopeFormat::ModelWithExtensions, EnvelopeFormat::ModelText, EnvelopeFormat::ModelTextWithExtensions];
pub fn with_exts(f: EnvelopeFormat) -> bool { !matches!(f, EnvelopeFormat::Model | EnvelopeFormat::ModelText) }

macro_rules! say { ($o:ident, $k:expr, $got:expr, $exp:expr) => {{ let (g, e) = (&$got, &$exp); $o.n("facts"); if g != e { $o.bad($k, format!("states {g:?} but it is {e:?}")); } }} }

/// A description with all facts.
fn full(o: &mut Obs, f: &str, d: &ModuleDesc, h: &Hugr, t: &Truth) {
    say!(o, format!("{f}|nodes"), d.num_nodes, Some(h.nodes().count()));
    say!(o, format!("{f}|entrypoint"), d.entrypoint.as_ref().map(|e| (e.node, op_string(&e.optype))), Some((h.entrypoint(), op_string(h.get_optype(h.entrypoint())))));
    say!(o, format!("{f}|generator"), d.generator, t.generator);
    say!(o, format!("{f}|claimed extensions"), d.used_extensions_generator.as_ref().map(|v| v.iter().map(|e| (e.name.clone(), e.version.clone())).collect::<Vec<_>>()), t.claimed);
    let mut exts: Vec<(String, Version)> = h.nodes().flat_map(|n| { let op = h.get_optype(n); let mut v: Vec<(String, Version)> = op.used_extensions().into_iter().flat_map(|r| r.iter().map(|e| (e.name().to_string(), e.version().clone())).collect::<Vec<_>>()).collect(); if let OpType::ExtensionOp(x) = op { if let Some(e) = x.def().extension().upgrade() { v.push((e.name().to_string(), e.version().clone())); } } v }).collect();
    exts.sort(); exts.dedup();
    let mut got: Vec<(String, Version)> = d.used_extensions_resolved.iter().flatten().map(|e| (e.name.clone(), e.version.clone())).collect(); got.sort();
    say!(o, format!("{f}|resolved extensions"), got, exts);
    let mut got = d.public_symbols.clone().unwrap_or_default(); got.sort();
    let mut exp: Vec<String> = t.publics.iter().map(|(n, s)| format!("{n}: {s}")).collect(); exp.sort();
    if f == "model" { // bounds of numbers are no part of this format
        for l in [&mut got, &mut exp] { for x in l.iter_mut() { *x = unbounded(x); } l.sort(); }
    }
    say!(o, format!("{f}|public symbols"), got, exp);
}
/// A description in which facts may be missing.
fn partial(o: &mut Obs, f: &str, d: &ModuleDesc, h: &Hugr, t: &Truth, model: bool) {
    o.n("partial descriptions");
    if let Some(n) = d.num_nodes { o.n("salvaged counts"); if n != h.nodes().count() { o.bad(format!("{f}|salvaged nodes"), format!("states {n} but it is {}", h.nodes().count())); } }
    if let Some(g) = &d.generator { o.n("salvaged generators"); say!(o, format!("{f}|salvaged generator"), Some(g), t.generator.as_ref()); }
    if let Some(e) = &d.entrypoint { o.n("salvaged entrypoints"); let a = op_string(&e.optype); let b = op_string(h.get_optype(h.entrypoint())); if a != b && !model { o.bad(format!("{f}|salvaged entrypoint"), format!("states {a} but it is {b}")); } if a.split('(').next() != b.split('(').next() { o.bad(format!("{f}|salvaged entrypoint kind"), format!("states {a} but it is {b}")); } }
    if let Some(c) = &d.used_extensions_generator { o.n("salvaged claims"); say!(o, format!("{f}|salvaged claims"), Some(c.iter().map(|e| (e.name.clone(), e.version.clone())).collect::<Vec<_>>()), t.claimed); }
    for s in d.public_symbols.iter().flatten() { o.n("salvaged symbols"); if !t.publics.iter().any(|(n, x)| *s == *n || *s == format!("{n}: {x}") || model && *s == unbounded(&format!("{n}: {x}"))) { o.bad(format!("{f}|salvaged symbol"), format!("{s:?} is not public in {:?}", t.publics)); } }
}

fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 320);
    let f = *r.pick(&FORMATS);
    let model = f != EnvelopeFormat::PackageJson;
    let Some(mut p) = package(o, &mut r, seed, idx, model) else { return };
    if !with_exts(f) { p.extensions = ExtensionRegistry::default(); }
    let zstd = r.chance(1, 3);
    let cfg = if zstd { EnvelopeConfig::new(f).with_zstd(Default::default()) } else { EnvelopeConfig::new(f) };
    let fname = if model { "model" } else { "json" };
    let mut buf = vec![];
    match crate::driver::quiet_catch(|| p.store(&mut buf, cfg)) { Ok(Ok(())) => {} _ => { o.n("cannot be saved"); return } }
    let reg = registry();
    let truths: Vec<Truth> = p.modules.iter().map(truth).collect();
    let header = |o: &mut Obs, d: &PackageDesc| { o.n("headers"); let h = d.header().config(); if h.format != f || h.zstd.is_some() != zstd { o.bad(format!("{fname}|header"), format!("{} instead of {cfg:?}", d.header())); } };
    match crate::driver::quiet_catch(|| read_envelope(&buf[..], &reg)) {
        Ok(Ok((d, q))) => {
            o.n("described");
            header(o, &d);
            say!(o, format!("{fname}|number of modules"), d.n_modules(), p.modules.len());
            say!(o, format!("{fname}|number of modules loaded"), q.modules.len(), p.modules.len());
            say!(o, format!("{fname}|number of extensions"), d.n_packaged_extensions(), p.extensions.len());
            say!(o, format!("{fname}|packaged extensions"), d.packaged_extensions().map(|e| (e.name.clone(), e.version.clone())).collect::<Vec<_>>(), p.extensions.iter().map(|e| (e.name().to_string(), e.version().clone())).collect::<Vec<_>>());
            for (k, m) in d.modules().enumerate() { match m { None => o.bad(format!("{fname}|module missing"), format!("module {k} has no description")), Some(m) => full(o, fname, m, &q.modules[k], &truths[k]) } }
            let mut gens: Vec<String> = vec![]; for t in &truths { if let Some(g) = &t.generator { if !gens.contains(g) { gens.push(g.clone()); } } }
            say!(o, format!("{fname}|generators"), d.generator(), (!gens.is_empty()).then(|| gens.join(", ")));
            if d.modules().count() > 1 { o.n("several modules"); }
            // as text for others
            let j = serde_json::to_value(&d).unwrap();
            say!(o, format!("{fname}|as json"), j["modules"].as_array().map(|a| a.len()), Some(p.modules.len()));
            for (k, m) in j["modules"].as_array().into_iter().flatten().enumerate() { say!(o, format!("{fname}|as json nodes"), m["num_nodes"].as_u64(), Some(q.modules[k].num_nodes() as u64)); say!(o, format!("{fname}|as json generator"), m["generator"].as_str().map(|s| s.to_string()), truths[k].generator.clone()); }
            // the original
            if !model { for (a, b) in p.modules.iter().zip(&q.modules) { say!(o, format!("{fname}|nodes of the original"), b.num_nodes(), a.num_nodes()); } }
        }
        _ => o.n("not loadable"),
    }
    // damaged
    for _ in 0..3 {
        let mut b = buf.clone(); let mut reg2 = reg.clone();
        let how = r.below(4);
        match how {
            0 | 1 => for _ in 0..r.range(1, 3) { let ids: Vec<_> = reg2.ids().cloned().collect(); if !ids.is_empty() { reg2.remove_extension(r.pick(&ids)); } },
            2 => { if b.len() < 12 { continue } let n = r.range(10, b.len() - 1); b.truncate(n); }
            _ => { if zstd { continue } // the last of the modules is hurt
                let at = b.len() - 1 - r.below((b.len() - 10).min(400)); b[at] = r.below(256) as u8; if b[at] == buf[at] { continue } }
        }
        let Ok(res) = crate::driver::quiet_catch(|| read_envelope(&b[..], &reg2)) else { o.n("crash on damage"); continue };
        match res {
            Ok(_) => o.n("still loadable"),
            Err(ReadError::Payload { partial_description: d, source: e }) => {
                o.n("salvaged"); o.n(["salvaged: missing extension", "salvaged: missing extension", "salvaged: truncated", "salvaged: byte"][how]);
                header(o, &d);
                if how == 3 { continue } // names and numbers may have been hit
                if d.n_modules() != 0 { say!(o, format!("{fname}|salvaged number of modules"), d.n_modules(), p.modules.len()); }
                if d.n_packaged_extensions() != 0 { say!(o, format!("{fname}|salvaged number of extensions"), d.n_packaged_extensions(), p.extensions.len()); }
                for (k, m) in d.modules().enumerate() { if let (Some(m), Some(t)) = (m, truths.get(k)) { partial(o, fname, m, &p.modules[k], t, model); } }
                if how < 2 {
                    // the description of the module names what is missing
                    let gone: Vec<String> = reg.ids().filter(|i| !reg2.contains(i)).map(|i| i.to_string()).collect();
                    let text = chain(&e);
                    let last = d.modules().flatten().filter(|m| m.used_extensions_resolved.is_some()).last();
                    if let Some(m) = last { for e in m.used_extensions_resolved.iter().flatten() { if e.version == Version::new(0, 0, 0) { o.n("missing extensions named"); if !gone.contains(&e.name) || !text.contains(&e.name) { o.bad(format!("{fname}|salvaged missing extension"), format!("{} is said to be missing, but {gone:?} are, {text}", e.name)); } } } }
                }
            }
            Err(e) => { o.n("no description"); if how < 2 { o.bad(format!("{fname}|no description|{how}"), chain(&e)); } }
        }
    }
    for h in &p.modules { o.saw(crate::canon::shape(h)); }
}
pub fn prop() -> Prop {
    Prop { id: "C32", case, rule: "packages of up to three generated programs with generators, claimed extensions, entrypoints and public symbols of all kinds, in all five formats with and without compression; every stated fact compared with one recomputed from the programs; after removing extensions, cutting and hurting bytes the facts that are still stated",
        need: &["described", "several modules", "salvaged", "salvaged: missing extension", "salvaged: truncated", "salvaged generators", "missing extensions named", "headers", "facts"], quick_s: 20, thorough_s: 600, min_cases: 400, max_cases: 1_000_000 }
}
