//! What is saved as JSON conforms to the published schema.
use crate::canon::shape;
use crate::driver::{Obs, Prop};
use crate::gen_::Cfg;
use crate::spice::{any_entry, registry, spice, Spice, ALL};
use crate::util::*;
use hugr_core::envelope::EnvelopeConfig;
use hugr_core::extension::ExtensionRegistry;
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::package::Package;
use jsonschema::{Draft, Validator};
use serde_json::{json, Value as J};
use std::collections::BTreeMap;
use std::sync::LazyLock;

pub struct Schemas { root: Validator, defs: BTreeMap<String, Validator> }
fn read(name: &str) -> Schemas {
    let dir = std::env::var("HV_REPO").unwrap_or("/repo".into());
    let j: J = serde_json::from_str(&std::fs::read_to_string(format!("{dir}/specification/schema/{name}")).expect("schema file")).expect("schema text");
    let make = |j: &J| Validator::options().with_draft(Draft::Draft202012).build(j).expect("schema");
    let defs = j["$defs"].as_object().unwrap();
    Schemas { root: make(&j), defs: defs.keys().map(|k| (k.clone(), make(&json!({"$ref": format!("#/$defs/{k}"), "$defs": j["$defs"]})))).collect() }
}
static SCHEMAS: LazyLock<[(&str, Schemas); 2]> = LazyLock::new(|| [("live", read("hugr_schema_live.json")), ("strict", read("hugr_schema_strict_live.json"))]);

fn trim(s: &str) -> String { let mut s: String = s.chars().filter(|c| !c.is_ascii_digit()).collect(); if s.len() > 60 { s = s.chars().take(25).chain("…".chars()).chain(s.chars().rev().take(30).collect::<Vec<_>>().into_iter().rev()).collect(); } s }
/// The smallest part which does not conform, by the name of its form.
fn part(s: &Schemas, j: &J, at: &str) -> Option<(String, String)> {
    let form = |j: &J| -> Option<String> {
        let o = j.as_object()?;
        let t = |k: &str| o.get(k).and_then(|x| x.as_str());
        if let Some(op) = t("op") { return Some(format!("op {op}")); }
        if let Some(v) = t("v") { return Some(format!("value {v}")); }
        if let Some(x) = t("tp") { return Some(format!("parameter {x}")); }
        if let Some(x) = t("tya") { return Some(format!("argument {x}")); }
        if let Some(x) = t("t") { return Some(format!("type {x}")); }
        None
    };
    let fails = |def: &str, j: &J| s.defs.get(def).and_then(|v| v.iter_errors(j).next().map(|e| format!("{e} at {}", e.instance_path)));
    if let Some(f) = form(j) {
        let def = match f.split(' ').next().unwrap() { "op" => "OpType", "value" => "Value", "parameter" => "TypeParam", "argument" => "TypeArg", _ => "Type" };
        match j { J::Object(o) => for (k, v) in o { if (k == "v" || k == "c") && f.starts_with("value") { continue } if k == "value" && f == "value Extension" { continue } if let Some(p) = part(s, v, k) { return Some(p) } }, _ => {} }
        return fails(def, j).map(|e| (f, e));
    }
    match j {
        J::Object(o) => { for (k, v) in o { if k == "metadata" || k == "misc" || k == "value" && at == "value" { continue } if let Some(p) = part(s, v, k) { return Some(p) } } None }
        J::Array(a) => a.iter().find_map(|v| part(s, v, at)),
        _ => None,
    }
}
pub fn conforms(o: &mut Obs, what: &str, package: &J) -> bool {
    let mut ok = true;
    for (name, s) in SCHEMAS.iter() {
        let mut checks: Vec<(&str, &J)> = vec![("Package", package)];
        checks.extend(package["modules"].as_array().into_iter().flatten().map(|m| ("SerialHugr", m)));
        checks.extend(package["extensions"].as_array().into_iter().flatten().map(|m| ("Extension", m)));
        for (def, j) in checks {
            o.n("documents");
            if let Some(e) = s.defs[def].iter_errors(j).next() {
                ok = false;
                let (k, t) = part(s, j, "").unwrap_or_else(|| (format!("{def} {}", trim(&e.instance_path.to_string())), String::new()));
                o.bad(format!("{what}|{name}|{k}|{}", trim(&short(&e.to_string()))), format!("{} {}: {t} / {}", name, def, e.to_string().chars().take(400).collect::<String>()));
                break;
            }
            let _ = def;
            if !s.root.is_valid(j) { ok = false; o.bad(format!("{what}|{name}|{def} under the root"), s.root.iter_errors(j).next().map(|e| e.to_string().chars().take(300).collect::<String>()).unwrap_or_default()); break; }
        }
    }
    ok
}
fn count(j: &J, o: &mut Obs) { match j { J::Object(m) => { for k in ["op", "v", "tp", "tya", "t", "s", "b"] { if let Some(x) = m.get(k).and_then(|x| x.as_str()) { o.n(&format!("{k}={x}")); } } for v in m.values() { count(v, o) } } J::Array(a) => for v in a { count(v, o) }, _ => {} } }
/// Nested envelopes.
fn nested(j: &J, v: &mut Vec<J>) { match j { J::String(s) if s.starts_with("HUGRiHJv") => { if let Some(i) = s.find('{') { if let Ok(x) = serde_json::from_str(&s[i..]) { v.push(x) } } } J::Object(m) => for x in m.values() { nested(x, v) }, J::Array(a) => for x in a { nested(x, v) }, _ => {} } }

fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 330);
    let some = r.chance(1, 3);
    let exts = ExtensionRegistry::new(registry().iter().filter(|_| r.chance(1, 6)).cloned().chain(some.then(|| super::c19::sample(&mut crate::rng::Rng::new(seed ^ idx))).into_iter().flatten()));
    let mut hs = vec![];
    for k in 0..if r.chance(1, 5) { r.below(3) } else { 1 } {
        let mut cfg = Cfg::default().vary(&mut r);
        if r.bool() { cfg.size /= 2; }
        let Some(p) = prog(o, seed ^ (k as u64) << 40, idx, &cfg) else { return };
        let (mut h, main) = (p.hugr, p.main);
        let full = r.bool();
        if r.bool() { spice(&mut r, &mut h, if full { Spice { opaque_consts: false, ..ALL } } else { Spice { fn_consts: false, opaque_consts: false, ..ALL } }); }
        if r.bool() { any_entry(&mut r, &mut h, main); } else if r.bool() { h.set_entrypoint(h.module_root()); }
        hs.push(h);
    }
    let mut buf = vec![];
    let res = if hs.len() == 1 && r.bool() { let h = &hs[0]; h.store_with_exts(&mut buf, EnvelopeConfig::text(), &exts) } else { let mut p = Package::new(hs.clone()); p.extensions = exts.clone(); p.store(&mut buf, EnvelopeConfig::text()) };
    if let Err(e) = res { o.bad("store".to_string(), chain(&e)); return }
    let Some(i) = buf.iter().position(|c| *c == b'{') else { o.bad("payload".to_string(), "no object".to_string()); return };
    let j: J = match serde_json::from_slice(&buf[i..]) { Ok(j) => j, Err(e) => { o.bad("payload".to_string(), e.to_string()); return } };
    count(&j, o);
    if !conforms(o, "saved", &j) { return }
    let mut inner = vec![]; nested(&j, &mut inner);
    for x in inner { o.n("nested envelopes"); if !conforms(o, "nested", &x) { return } }
    // the schema can tell
    if idx % 64 == 0 && !hs.is_empty() {
        for f in 0..4 { let mut b = j.clone(); let m = &mut b["modules"][0];
            match f { 0 => { m.as_object_mut().unwrap().remove("nodes"); } 1 => m["nodes"][0]["op"] = json!("Nonsense"), 2 => m["edges"] = json!([[1, 2]]), _ => m["version"] = json!(3) }
            for (name, s) in SCHEMAS.iter() { if s.root.is_valid(&b["modules"][0]) { o.bad(format!("toothless|{name}|{f}"), "a damaged document conforms".to_string()); } else { o.n("damage rejected"); } } }
        // additional properties at the top level, with the strict one
        let mut b = j["modules"][0].clone(); b["another"] = json!(1);
        if SCHEMAS[1].1.defs["SerialHugr"].is_valid(&b) { o.bad("toothless|strict|additional".to_string(), "".to_string()); }
    }
    for h in &hs { o.saw(shape(h)); }
}
pub fn prop() -> Prop {
    Prop { id: "C33", case, rule: "generated programs with all forms of operations, types, arguments, parameters, constants, metadata and nested function constants, packages of several programs, and the definitions of all standard and generated extensions, saved as JSON and validated against both published schemas, as a whole and part by part",
        need: &["documents", "nested envelopes", "damage rejected", "op=FuncDefn", "op=Extension", "op=Const", "op=Call", "op=LoadFunction", "op=Conditional", "op=TailLoop", "op=CFG", "op=AliasDefn", "v=Extension", "v=Sum", "v=Function", "b=Explicit", "b=FromParams", "tya=List", "tya=Tuple", "tya=Variable", "tp=Type", "tp=BoundedNat"], quick_s: 20, thorough_s: 600, min_cases: 150, max_cases: 1_000_000 }
}
