//! Model envelopes (binary and text): storing and loading gives an equivalent package.
use super::c03::module;
use crate::canon::*;
use crate::driver::{Obs, Prop};
use crate::ext;
use crate::spice::*;
use crate::util::*;
use hugr_core::envelope::*;
use hugr_core::extension::ExtensionRegistry;
use hugr_core::hugr::views::HugrView;
use hugr_core::package::Package;
use hugr_core::std_extensions::STD_REG;
use hugr_core::Hugr;

const O: Opts = Opts { inline_consts: true, no_meta: false, order_as_set: true, any_module_order: false, no_entry: false };
fn check_one(o: &mut Obs, key: &str, a: &Hugr, b: &Hugr) {
    match cmp_hugr(a, b, O) { Ok(()) => o.n("compared_modules"), Err(e) => o.bad(format!("{key}|differs|{}", short(&e)), format!("{key}: {e}")) }
    if let Some(x) = opaque_left(b) { o.bad(format!("{key}|unresolved"), format!("{key}: operation {x} is left unresolved")); }
    check_valid(o, key, b);
}
const SP: Spice = Spice { fn_consts: false, ..ALL };
fn o_skip(v: &mut Vec<&'static str>, u: &'static str) { v.push(u); }
/// Content that the format cannot represent (each is a recorded finding, see `limits`).
fn unstorable(h: &Hugr, text: bool) -> Option<&'static str> {
    use hugr_core::ops::{OpType, Value};
    use hugr_core::types::type_param::Term;
    fn func(v: &Value) -> bool { match v { Value::Function { .. } => true, Value::Sum(s) => s.values.iter().any(func), Value::Extension { e } => serde_json::to_string(e.value()).is_ok_and(|s| s.contains("\"v\":\"Function\"")) } }
    let bounded = |t: &Term| format!("{t}").contains("BoundedNat[") || format!("{t:?}").contains("BoundedNatType(UpperBound(Some");
    for n in h.nodes() { match h.get_optype(n) {
        OpType::Const(c) if func(c.value()) => return Some("function constant"),
        OpType::AliasDecl(_) => return Some("alias declaration"),
        OpType::FuncDefn(f) if text && f.visibility() == &hugr_core::Visibility::Public && !symbol(f.func_name()) => return Some("unusual public name"),
        OpType::FuncDecl(f) if text && f.visibility() == &hugr_core::Visibility::Public && !symbol(f.func_name()) => return Some("unusual public name"),
        OpType::FuncDefn(f) if f.signature().params().iter().any(bounded) => return Some("bounded parameter"),
        OpType::FuncDecl(f) if f.signature().params().iter().any(bounded) => return Some("bounded parameter"),
        _ => {}
    } }
    None
}
fn symbol(s: &str) -> bool { let w = |c: char| c.is_ascii_alphanumeric() || c == '_' || c == '-'; s.split('.').all(|p| p.chars().all(w) && p.chars().next().is_some_and(|c| !c.is_ascii_digit())) && !["mod", "hugr", "bytes", "tuple", "list", "meta", "signature", "public", "private", "dfg", "cfg", "block", "define-func", "declare-func", "declare-operation", "declare-ctr", "declare-alias", "tail-loop", "cond", "import", "_"].contains(&s) }
/// What the formats cannot represent: recorded findings, one program each.
fn limits(o: &mut Obs) {
    use hugr_core::hugr::hugrmut::HugrMut;
    use hugr_core::ops::*;
    use hugr_core::types::*;
    use hugr_core::ops::dataflow::IOTrait;
    let func = |name: &str, params: Vec<hugr_core::types::type_param::TypeParam>| { let mut h = Hugr::new(); let m = h.module_root(); let f = h.add_node_with_parent(m, FuncDefn::new_vis(name, PolyFuncType::new(params, Signature::new_endo(Vec::<Type>::new())), hugr_core::Visibility::Public)); let i = h.add_node_with_parent(f, Input::new(Vec::<Type>::new())); h.add_node_with_parent(f, Output::new(Vec::<Type>::new())); (h, f, i) };
    let mut progs: Vec<(&str, Hugr, EnvelopeFormat)> = vec![];
    let (mut h, _, i) = func("f", vec![]); h.set_metadata(i, "k", serde_json::json!(1)); progs.push(("metadata of Input nodes", h, EnvelopeFormat::Model));
    let (h, _, _) = func("f", vec![hugr_core::types::type_param::TypeParam::bounded_nat_type(std::num::NonZeroU64::new(7).unwrap())]); progs.push(("bounds of type parameters", h, EnvelopeFormat::Model));
    let (mut h, _, _) = func("f", vec![]); let m = h.module_root(); h.add_node_with_parent(m, AliasDecl::new("A", TypeBound::Linear)); progs.push(("bounds of alias declarations", h, EnvelopeFormat::Model));
    let (h, _, _) = func("odd name", vec![]); progs.push(("public names with a space in text", h, EnvelopeFormat::ModelText));
    let (mut h, f, _) = func("f", vec![]);
    let v = Value::function({ let mut b = hugr_core::builder::DFGBuilder::new(Signature::new_endo(Vec::<Type>::new())).unwrap(); use hugr_core::builder::*; b.set_outputs([]).unwrap(); b.finish_hugr().unwrap() }).unwrap();
    let t = v.get_type(); let c = h.add_node_with_parent(f, Const::new(v)); let l = h.add_node_with_parent(f, LoadConstant { datatype: t }); h.connect(c, 0, l, 0); progs.push(("function constants", h, EnvelopeFormat::Model));
    for (what, h, f) in progs {
        h.validate().expect("limit program");
        let want = Opts { inline_consts: false, order_as_set: true, ..Opts::default() };
        let want = if what == "function constants" { O } else { want };
        let r = crate::driver::quiet_catch(|| { let mut b = vec![]; Package::new([h.clone()]).store(&mut b, EnvelopeConfig::new(f)).map_err(|e| e.to_string())?; Package::load(b.as_slice(), None).map_err(|e| chain(&e)) });
        let e = match r { Err(p) => Some(p.msg), Ok(Err(e)) => Some(e), Ok(Ok(p)) => cmp_hugr(&h, &p.modules[0], want).err() };
        if let Some(e) = e { o.bad(format!("model|{what}"), format!("{what}: {}", e.chars().take(300).collect::<String>())); }
    }
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    if idx == 0 { limits(o); }
    let mut r = rng(seed, idx, 4);
    let n = *r.pick(&[1usize, 1, 1, 2]);
    let mut skipped: Vec<&'static str> = vec![];
    let (nm, f) = [("bin", EnvelopeFormat::Model), ("binx", EnvelopeFormat::ModelWithExtensions), ("text", EnvelopeFormat::ModelText), ("textx", EnvelopeFormat::ModelTextWithExtensions)][r.below(4)];
    let text = nm.starts_with("text");
    let mods: Vec<Hugr> = (0..n as u64).filter_map(|k| module(o, seed, idx, k, &mut r, SP)).filter(|h| { let u = unstorable(h, text); if let Some(u) = u { o_skip(&mut skipped, u); } u.is_none() }).collect();
    for u in skipped { o.n(format!("skipped:{u}")); }
    if mods.is_empty() { return; }
    let full = registry();
    let mut pkg = Package::new(mods);
    let exts = nm.ends_with('x');
    let with = exts && r.bool();
    if with { pkg.extensions.register(ext::EXT.clone()).unwrap(); }
    let reg: ExtensionRegistry = if with && r.bool() { o.n("embedded_extension_only"); STD_REG.clone() } else { full.clone() };
    let c = EnvelopeConfig::new(f);
    let c = if r.chance(1, 4) { c.with_zstd(ZstdConfig::new(r.below(20) as u8)) } else { c };
    let key = nm.to_string();
    let mut buf = vec![];
    match o.guard(&key, || pkg.store(&mut buf, c)) { Some(Ok(())) => {} Some(Err(e)) => { o.bad(format!("{key}|store|{}", short(&chain(&e))), format!("{key}: storing failed: {}", chain(&e))); return } None => return }
    o.add("bytes", buf.len() as u64);
    if o.verbose && c.zstd.is_none() { std::fs::write("/tmp/model.txt", &buf).ok(); }
    match o.guard(&key, || Package::load(buf.as_slice(), Some(&reg))) {
        None => {}
        Some(Err(e)) => { let e = chain(&e); let last = e.rsplit(" <- ").next().unwrap_or("").to_string(); o.bad(format!("{key}|load|{}", short(&last)), format!("{key}: loading failed: {e}").chars().take(1500).collect::<String>()) }
        Some(Ok(q)) => {
            o.n(format!("loaded:{nm}"));
            if q.modules.len() != pkg.modules.len() { o.bad(format!("{key}|modules"), "number of modules changed"); }
            for (a, b) in pkg.modules.iter().zip(&q.modules) { check_one(o, &key, a, b); o.saw(shape(a)); }
            let ids = |p: &Package| { let mut v: Vec<String> = p.extensions.iter().map(|e| format!("{}@{}", e.name(), e.version())).collect(); v.sort(); v };
            if exts && ids(&q) != ids(&pkg) { o.bad(format!("{key}|extensions"), format!("packaged extensions {:?} became {:?}", ids(&pkg), ids(&q))); }
            // storing again gives the same bytes
            let c2 = EnvelopeConfig::new(f);
            let again = |p: &Package| { let mut b = vec![]; p.store(&mut b, c2).map(|()| b).map_err(|e| e.to_string()) };
            if let Some(Ok(y)) = o.guard(&format!("{key}:restore"), || again(&q)) {
                match o.guard(&format!("{key}:reload"), || Package::load(y.as_slice(), Some(&reg))) {
                    Some(Err(e)) => o.bad(format!("{key}|reload"), format!("{key}: loading a second time failed: {}", chain(&e))),
                    Some(Ok(q2)) => {
                        if let Some(Ok(z)) = o.guard(&format!("{key}:restore"), || again(&q2)) { if z != y { o.bad(format!("{key}|not stable"), format!("storing, loading and storing again changed the bytes, {} and {}", y.len(), z.len())); if o.verbose { std::fs::write("/tmp/y.txt", &y).ok(); std::fs::write("/tmp/z.txt", &z).ok(); } } else { o.n("stored_again"); } }
                        for (a, b) in q.modules.iter().zip(&q2.modules) { check_one(o, &format!("{key}:twice"), a, b); }
                    }
                    None => {}
                }
            }
        }
    }
    if !text && r.chance(1, 3) {
        use ::serde_with::{de::DeserializeAsWrap, ser::SerializeAsWrap};
        use hugr_core::envelope::serde_with::AsBinaryEnvelope;
        let h = &pkg.modules[0];
        let res = o.guard("as_binary", || -> Result<Hugr, String> {
            let e = |e: serde_json::Error| e.to_string();
            let s = serde_json::to_string(&SerializeAsWrap::<Hugr, AsBinaryEnvelope>::new(h)).map_err(e)?;
            serde_json::from_str::<DeserializeAsWrap<Hugr, AsBinaryEnvelope>>(&s).map(|x| x.into_inner()).map_err(e)
        });
        match res { Some(Ok(g)) => { o.n("loaded:as_binary"); check_one(o, "as_binary", h, &g); } Some(Err(e)) => o.bad(format!("as_binary|{}", short(&e)), e.chars().take(900).collect::<String>()), None => {} }
    }
    o.note(|| format!("{} modules, {} nodes, {} bytes ({nm}), extensions embedded: {with}", pkg.modules.len(), pkg.modules.iter().map(|m| m.num_nodes()).sum::<usize>(), buf.len()));
}
pub fn prop() -> Prop {
    Prop { id: "C04", case, rule: "a module with a new combination of operations was stored and loaded", need: &["compared_modules", "loaded:bin", "loaded:binx", "loaded:text", "loaded:textx", "stored_again", "embedded_extension_only"], quick_s: 20, thorough_s: 300, min_cases: 200, max_cases: u64::MAX / 2 }
}
