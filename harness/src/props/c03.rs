//! JSON envelopes: storing and loading gives the same package.
use crate::canon::*;
use crate::driver::{Obs, Prop};
use crate::ext;
use crate::gen_::Cfg;
use crate::spice::*;
use crate::util::*;
use hugr_core::envelope::*;
use hugr_core::extension::ExtensionRegistry;
use hugr_core::hugr::views::HugrView;
use hugr_core::package::Package;
use hugr_core::std_extensions::STD_REG;
use hugr_core::Hugr;

fn check_one(o: &mut Obs, key: &str, a: &Hugr, b: &Hugr) {
    match cmp_hugr(a, b, Opts::default()) { Ok(()) => o.n("compared_modules"), Err(e) => o.bad(format!("{key}|differs|{}", short(&e)), format!("{key}: {e}")) }
    if let Some(x) = opaque_left(b) { o.bad(format!("{key}|unresolved"), format!("{key}: operation {x} is left unresolved")); }
    check_valid(o, key, b);
}
pub fn module(o: &mut Obs, seed: u64, idx: u64, k: u64, r: &mut crate::rng::Rng, s: Spice) -> Option<Hugr> {
    let cfg = dev_cfg(Cfg { size: if o.thorough { *r.pick(&[20, 60, 150, 300]) } else { *r.pick(&[5, 20, 50]) }, dead_blocks: r.bool(), ..Cfg::default() }.vary(r));
    let p = prog(o, seed, idx * 7 + k, &cfg)?;
    let mut h = p.hugr;
    spice(r, &mut h, s);
    any_entry(r, &mut h, p.main);
    h.resolve_extension_defs(&registry()).expect("resolve spiced");
    match crate::driver::quiet_catch(|| h.validate()) { Ok(Ok(())) => Some(h), Ok(Err(e)) => { o.n("spiced_refused"); if o.verbose { eprintln!("spiced: {e}"); } None } Err(e) => { if o.verbose { eprintln!("{e:?}"); } o.n("spiced_crashed"); None } }
}
/// A number that needs 17 digits, in the two places floats may occur outside metadata.
fn digits(o: &mut Obs) {
    use hugr_core::hugr::hugrmut::HugrMut;
    use hugr_core::std_extensions::arithmetic::float_types::ConstF64;
    let f = 1.4757395258967641e20f64;
    let mut h = Hugr::new();
    let m = h.module_root();
    h.add_node_with_parent(m, hugr_core::ops::Const::new(ConstF64::new(f).into()));
    h.resolve_extension_defs(&STD_REG).unwrap();
    let s = h.store_str(EnvelopeConfig::text()).unwrap();
    let g = Hugr::load_str(&s, None).unwrap();
    if cmp_hugr(&h, &g, Opts::default()).is_err() { o.bad("json|digits of 1.4757395258967641e20", "the float constant 1.4757395258967641e20 is 1.475739525896764e20 after storing and loading as JSON"); }
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    if idx == 0 { digits(o); }
    let mut r = rng(seed, idx, 3);
    let n = *r.pick(&[1usize, 1, 1, 2, 3]);
    let mods: Vec<Hugr> = (0..n as u64).filter_map(|k| module(o, seed, idx, k, &mut r, ALL)).collect();
    if mods.is_empty() { return; }
    let full = registry();
    let mut pkg = Package::new(mods);
    let with = r.bool();
    if with { pkg.extensions.register(ext::EXT.clone()).unwrap(); }
    let reg: ExtensionRegistry = if with && r.bool() { o.n("embedded_extension_only"); STD_REG.clone() } else { full.clone() };
    let cfgs = [("plain", EnvelopeConfig::text()), ("json", EnvelopeConfig::new(EnvelopeFormat::PackageJson)), ("zstd", EnvelopeConfig::new(EnvelopeFormat::PackageJson).with_zstd(ZstdConfig::default())), ("zstdN", EnvelopeConfig::new(EnvelopeFormat::PackageJson).with_zstd(ZstdConfig::new(r.below(20) as u8)))];
    let (nm, c) = cfgs[r.below(4)].clone();
    let key = format!("package:{nm}");
    let mut buf = vec![];
    match o.guard(&key, || pkg.store(&mut buf, c)) { Some(Ok(())) => {} Some(Err(e)) => { o.bad(format!("{key}|store|{}", short(&e.to_string())), format!("{key}: storing failed: {e}")); return } None => return }
    o.add("bytes", buf.len() as u64);
    if let Some(x) = o.guard(&key, || Package::load(buf.as_slice(), Some(&reg))) { match x {
        Err(e) => o.bad(format!("{key}|load"), format!("{key}: loading failed: {}", chain(&e)).chars().take(900).collect::<String>()),
        Ok(q) => {
            o.n(format!("loaded:{nm}"));
            if q.modules.len() != pkg.modules.len() { o.bad(format!("{key}|modules"), "number of modules changed"); }
            for (a, b) in pkg.modules.iter().zip(&q.modules) { check_one(o, &key, a, b); o.saw(shape(a)); }
            let ids = |p: &Package| { let mut v: Vec<String> = p.extensions.iter().map(|e| format!("{}@{}", e.name(), e.version())).collect(); v.sort(); v };
            if ids(&q) != ids(&pkg) { o.bad(format!("{key}|extensions"), format!("packaged extensions {:?} became {:?}", ids(&pkg), ids(&q))); }
            let js = |p: &Package| { let mut v: Vec<String> = p.extensions.iter().map(|e| serde_json::to_string(&**e).unwrap_or_default()).collect(); v.sort(); v };
            if let Some((x, y)) = o.guard("extension json", || (js(&pkg), js(&q))) { if x != y { o.bad(format!("{key}|extension definitions"), "a packaged extension's definition changed"); } }
            // storing again gives the same text
            let again = |p: &Package| { let mut b = vec![]; p.store(&mut b, EnvelopeConfig::text()).map(|()| b).map_err(|e| e.to_string()) };
            if let Some((x, y)) = o.guard(&format!("{key}:restore"), || (again(&pkg), again(&q))) { match (x, y) {
                (Ok(x), Ok(y)) => {
                    let q2 = Package::load(y.as_slice(), Some(&reg));
                    match q2 { Err(e) => o.bad(format!("{key}|reload"), format!("{key}: loading a second time failed: {e}")), Ok(q2) => {
                        if let Some(Ok(z)) = o.guard(&format!("{key}:restore"), || again(&q2)) { if z != y { o.bad(format!("{key}|not stable"), "storing, loading and storing again changed the text"); } }
                        for (a, b) in pkg.modules.iter().zip(&q2.modules) { check_one(o, &format!("{key}:twice"), a, b); }
                    } }
                    let _ = x; o.n("stored_again");
                }
                (x, y) => o.bad(format!("{key}|restore"), format!("storing again: {:?} {:?}", x.err(), y.err())),
            } }
        }
    } }
    for m in &pkg.modules { nested(o, m, 0); }
    // single programs
    let h = &pkg.modules[0];
    let exts = { let mut e = ExtensionRegistry::default(); e.register(ext::EXT.clone()).unwrap(); e };
    let mode = r.below(4);
    let key = format!("hugr:{}", ["store", "store_with_exts", "store_str", "store_str_with_exts"][mode]);
    let res = o.guard(&key, || -> Result<Hugr, String> {
        let mut b = vec![];
        let es = |e: WriteError| format!("store: {e}"); let er = |e: ReadError| format!("load: {e:?}");
        match mode {
            0 => { h.store(&mut b, c).map_err(es)?; Hugr::load(b.as_slice(), Some(&full)).map_err(er) }
            1 => { h.store_with_exts(&mut b, c, &exts).map_err(es)?; Hugr::load(b.as_slice(), None).map_err(er) }
            2 => { let s = h.store_str(EnvelopeConfig::text()).map_err(es)?; Hugr::load_str(&s, Some(&full)).map_err(er) }
            _ => { let s = h.store_str_with_exts(EnvelopeConfig::text(), &exts).map_err(es)?; Hugr::load_str(&s, None).map_err(er) }
        }
    });
    match res { Some(Ok(g)) => { o.n(format!("loaded:{key}")); check_one(o, &key, h, &g); } Some(Err(e)) => o.bad(format!("{key}|{}", short(&e)), format!("{key}: {}", e.chars().take(900).collect::<String>())), None => {} }
    // adaptors for use in other serde structures
    if r.bool() {
        use hugr_core::envelope::serde_with::{AsStringEnvelope};
        use ::serde_with::{de::DeserializeAsWrap, ser::SerializeAsWrap};
        let key = "as_string";
        let res = o.guard(key, || -> Result<Hugr, String> {
            let e = |e: serde_json::Error| e.to_string();
            let s = serde_json::to_string(&SerializeAsWrap::<Hugr, AsStringEnvelope>::new(h)).map_err(e)?; serde_json::from_str::<DeserializeAsWrap<Hugr, AsStringEnvelope>>(&s).map(|x| x.into_inner()).map_err(e)
        });
        match res { Some(Ok(g)) => { o.n(format!("loaded:{key}")); check_one(o, key, h, &g); } Some(Err(e)) => o.bad(format!("{key}|{}", short(&e)), e.chars().take(900).collect::<String>()), None => {} }
    }
    o.note(|| format!("{} modules, {} nodes, {} bytes ({nm}), extensions embedded: {with}", pkg.modules.len(), pkg.modules.iter().map(|m| m.num_nodes()).sum::<usize>(), buf.len()));
}
pub fn prop() -> Prop {
    Prop { id: "C03", case, rule: "a module with a new combination of operations was stored and loaded", need: &["compared_modules", "loaded:plain", "loaded:zstd", "stored_again", "embedded_extension_only"], quick_s: 20, thorough_s: 300, min_cases: 200, max_cases: u64::MAX / 2 }
}
#[allow(dead_code)]
fn nested(o: &Obs, h: &Hugr, d: usize) {
    use hugr_core::ops::*;
    if !o.verbose { return; }
    for n in h.nodes() { if let OpType::Const(c) = h.get_optype(n) { if let Value::Function { hugr } = c.value() {
        nested(o, hugr, d + 1);
        let mut b = vec![]; hugr.store_with_exts(&mut b, EnvelopeConfig::text(), hugr.extensions()).unwrap();
        if let Err(e) = Hugr::load(b.as_slice(), None) { eprintln!("NESTED {d} {}\n{}", chain(&e), outline(hugr)); }
    } } }
}
