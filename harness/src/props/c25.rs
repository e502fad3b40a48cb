//! The command line tool against the library.
use crate::canon::*;
use crate::driver::{quiet_catch, Obs, Prop};
use crate::ext;
use crate::rng::Rng;
use crate::util::*;
use hugr_core::envelope::description::PackageDesc;
use hugr_core::envelope::{read_envelope, write_envelope, EnvelopeConfig, EnvelopeFormat, ReadError, ZstdConfig};
use hugr_core::extension::{Extension, ExtensionRegistry, PRELUDE_REGISTRY};
use hugr_core::hugr::hugrmut::HugrMut;
use hugr_core::hugr::views::HugrView;
use hugr_core::package::Package;
use hugr_core::std_extensions::STD_REG;
use serde_json::Value as J;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};

struct Ran { code: Option<i32>, out: Vec<u8>, err: String }
fn run(dir: &Path, args: &[String], stdin: Option<&[u8]>) -> Ran {
    let mut c = Command::new(std::env::current_exe().unwrap());
    c.arg("cli").args(args).current_dir(dir).env("PATH", dir).env_remove("RUST_BACKTRACE").env_remove("RUST_LOG").env("NO_COLOR", "1").stdout(Stdio::piped()).stderr(Stdio::piped()).stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() });
    let mut ch = c.spawn().expect("spawn");
    let w = stdin.map(|b| { let b = b.to_vec(); let mut i = ch.stdin.take().unwrap(); std::thread::spawn(move || { let _ = i.write_all(&b); }) });
    let r = ch.wait_with_output().expect("wait");
    if let Some(w) = w { let _ = w.join(); }
    Ran { code: r.status.code(), out: r.stdout, err: String::from_utf8_lossy(&r.stderr).into_owned() }
}
/// What the library makes of the input.
enum Lib { Panics, No(String), Partial(Box<PackageDesc>), Yes(Box<(PackageDesc, Package)>) }

struct Scratch(PathBuf);
impl Scratch { fn new(idx: u64) -> Scratch { let d = std::env::temp_dir().join(format!("hv-c25-{}-{:?}-{idx}", std::process::id(), std::thread::current().id()).replace(['(', ')'], "")); std::fs::create_dir_all(&d).unwrap(); Scratch(d) } }
impl Drop for Scratch { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }

fn reg_of(no_std: bool, files: &[Vec<u8>]) -> Result<ExtensionRegistry, String> {
    let mut reg: ExtensionRegistry = if no_std { PRELUDE_REGISTRY.clone() } else { STD_REG.clone() };
    let mut v = vec![];
    for f in files { v.push(serde_json::from_slice::<Extension>(f).map_err(|e| e.to_string())?); }
    let more = ExtensionRegistry::new_with_extension_resolution(v, &(&reg).into()).map_err(|e| e.to_string())?;
    for e in more { reg.register_updated(e); }
    Ok(reg)
}
fn store(p: &Package, c: EnvelopeConfig) -> Option<Vec<u8>> { let mut b = vec![]; matches!(quiet_catch(|| p.store(&mut b, c)), Ok(Ok(()))).then_some(b) }

/// The outcome of a command that should not crash.
fn crashed(o: &mut Obs, what: &str, r: &Ran) -> bool {
    o.n("commands");
    if !matches!(r.code, Some(0..=2)) { o.bad(format!("{what}|crash"), format!("exit status {:?}: {}", r.code, r.err.chars().take(300).collect::<String>())); return true; }
    if r.code != Some(0) && r.err.trim().is_empty() { o.bad(format!("{what}|silent failure"), format!("status {:?} without a message", r.code)); }
    false
}
fn status(o: &mut Obs, what: &str, r: &Ran, ok: bool, why: &str) {
    if crashed(o, what, r) { return }
    if (r.code == Some(0)) != ok { o.bad(format!("{what}|status|{}", if ok { "fails" } else { "succeeds" }), format!("status {:?} but the library {why}: {}", r.code, r.err.chars().take(400).collect::<String>())); }
    else if !ok && r.code != Some(1) { o.bad(format!("{what}|status of failure"), format!("{:?}", r.code)); }
}
fn same_package(o: &mut Obs, what: &str, a: &[u8], b: &[u8], reg: &ExtensionRegistry, head: EnvelopeConfig) {
    if a.len() < 10 { o.bad(format!("{what}|output|empty"), format!("{} bytes", a.len())); return }
    let load = |x: &[u8]| quiet_catch(|| read_envelope(x, reg).map_err(|e| chain(&e))).map_err(|p| p.msg).and_then(|x| x);
    match (load(a), load(b)) {
        (Ok((d, p)), Ok((_, q))) => {
            o.n("outputs compared");
            let h = d.header().config();
            if h.format != head.format || h.zstd.is_some() != head.zstd.is_some() { o.bad(format!("{what}|output|format"), format!("{} instead of {head:?}", d.header())); }
            if p.modules.len() != q.modules.len() { o.bad(format!("{what}|output|modules"), "number of modules"); return }
            for (x, y) in p.modules.iter().zip(&q.modules) { if let Err(e) = cmp_hugr(x, y, Opts::default()) { o.bad(format!("{what}|output|differs"), e); } }
            let ids = |p: &Package| p.extensions.iter().map(|e| (e.name().to_string(), e.version().to_string(), serde_json::to_string(&**e).unwrap_or_default().len())).collect::<Vec<_>>();
            if ids(&p) != ids(&q) { o.bad(format!("{what}|output|extensions"), "packaged extensions differ"); }
        }
        (Err(_), Err(_)) => o.n("outputs that do not load"),
        (a, b) => o.bad(format!("{what}|output|loads"), format!("tool {:?}, library {:?}", a.err(), b.err())),
    }
}
fn sorted(mut j: J) -> J {
    fn go(j: &mut J) { match j { J::Array(a) => { a.iter_mut().for_each(go); a.sort_by_key(|x| x.to_string()); } J::Object(m) => m.values_mut().for_each(go), _ => {} } }
    // modules stay in order
    if let Some(m) = j.get_mut("modules").and_then(|m| m.as_array_mut()) { for x in m.iter_mut() { go(x); } }
    j
}

fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 250);
    let r = &mut r;
    let dir = Scratch::new(idx);
    if r.chance(1, 25) { return extensions(o, r, &dir.0); }
    let fin = *r.pick(&super::c32::FORMATS);
    let simple = fin != EnvelopeFormat::PackageJson || r.chance(2, 3);
    let Some(mut p) = super::c32::package(o, r, seed, idx, simple) else { return };
    // sometimes not valid
    if r.chance(1, 4) && !p.modules.is_empty() {
        let k = r.below(p.modules.len()); let h = &mut p.modules[k];
        let l: Vec<_> = h.nodes().filter(|n| h.get_optype(*n).is_extension_op()).collect();
        if let Some(n) = r.pick_opt(&l).copied() { if r.bool() { h.disconnect(n, hugr_core::IncomingPort::from(0)); } else { h.remove_node(n); } o.n("spoiled programs"); }
    }
    // how the extensions get there
    let fx: Vec<u8> = serde_json::to_vec(&**ext::EXT).unwrap();
    let way = r.below(8);
    let mut files: Vec<Vec<u8>> = vec![];
    match way { 0..=3 => files.push(fx), 4 | 5 => { p.extensions.register_updated(ext::EXT.clone()); } 6 => {} _ => files.push(fx) }
    if r.chance(1, 3) {
        let mut fam: Vec<Vec<u8>> = super::c19::sample(r).iter().filter_map(|e| quiet_catch(|| serde_json::to_vec(&**e).ok()).ok().flatten()).collect();
        r.shuffle(&mut fam);
        if r.chance(1, 3) { fam.pop(); }
        if fam.len() > 1 { o.n("several extension files"); }
        files.extend(fam);
        r.shuffle(&mut files);
    }
    if !files.is_empty() && r.chance(1, 12) { let k = r.below(files.len()); let f = &mut files[k]; match r.below(3) { 0 => { let n = r.below(f.len()); f.truncate(n); } 1 => { let n = r.below(f.len()); f[n] = r.below(256) as u8; } _ => f.clear() } o.n("damaged extension files"); }
    let no_std = r.chance(1, 8);
    let cin = { let c = EnvelopeConfig::new(fin); if r.chance(1, 3) { c.with_zstd(ZstdConfig::default()) } else { c } };
    let Some(mut bytes) = store(&p, cin) else { o.n("cannot be saved"); return };
    if r.chance(1, 6) { o.n("damaged inputs"); match r.below(4) { 0 => { let n = r.below(bytes.len()); bytes.truncate(n); } 1 => { let n = r.below(bytes.len()); bytes[n] ^= 1 << r.below(8); } 2 => { bytes = (0..r.below(60)).map(|_| r.below(256) as u8).collect(); } _ => { let n = r.below(10.min(bytes.len())); bytes[n] = r.below(256) as u8; } } }
    // common arguments
    let mut common: Vec<String> = vec![];
    for (k, f) in files.iter().enumerate() { let n = format!("e{k}.json"); std::fs::write(dir.0.join(&n), f).unwrap(); common.push(if r.bool() { "-e".into() } else { "--extensions".into() }); common.push(n); }
    if no_std { common.push("--no-std".into()); }
    let piped = r.chance(1, 3);
    std::fs::write(dir.0.join("in.hugr"), &bytes).unwrap();
    let pos: Vec<String> = if piped { if r.bool() { vec![] } else { vec!["-".into()] } } else { vec!["in.hugr".into()] };
    let stdin = piped.then_some(&bytes[..]);
    o.n(if piped { "piped inputs" } else { "file inputs" });
    let cmd = |name: &str, more: &[String], r: &mut Rng| { let mut v = vec![name.to_string()]; let (mut a, b) = (common.clone(), pos.clone()); if r.bool() { a.extend(b); v.extend(a); v.extend(more.iter().cloned()); } else { v.extend(more.iter().cloned()); v.extend(b); v.extend(a); } v };
    // the library
    let (lib, reg) = match quiet_catch(|| reg_of(no_std, &files)) {
        Err(_) => (Lib::Panics, None),
        Ok(Err(e)) => (Lib::No(format!("refuses the extensions: {e}")), None),
        Ok(Ok(reg)) => (match quiet_catch(|| read_envelope(&bytes[..], &reg)) { Err(_) => Lib::Panics, Ok(Ok(x)) => Lib::Yes(Box::new(x)), Ok(Err(ReadError::Payload { partial_description, .. })) => Lib::Partial(Box::new(partial_description)), Ok(Err(e)) => Lib::No(format!("refuses the input: {}", chain(&e))) }, Some(reg)),
    };
    let mut full = reg.clone().unwrap_or_default(); for e in STD_REG.iter() { full.register_updated_ref(e); }
    match &lib { Lib::Panics => { o.n("library crashes"); return } Lib::No(_) => o.n("refused inputs"), Lib::Partial(_) => o.n("inputs refused late"), Lib::Yes(_) => o.n("accepted inputs") }
    let why = match &lib { Lib::No(e) => e.clone(), Lib::Yes(_) => "accepts it".into(), _ => "refuses the contents".into() };
    let good = match &lib { Lib::Yes(x) => Some(&x.1), _ => None };
    o.saw(crate::rng::hash_str(&format!("{fin:?} {way} {no_std} {} {} {piped} {}", good.is_some(), files.len(), p.modules.len())));

    // validate
    let valid = match good { None => Some(false), Some(p) => quiet_catch(|| p.validate().map_err(|e| chain(&e))).ok().map(|x| x.is_ok()) };
    if let Some(v) = valid {
        let a = run(&dir.0, &cmd("validate", &[], r), stdin);
        if v { o.n("valid"); } else if good.is_some() { o.n("loads but not valid"); }
        status(o, "validate", &a, v, if good.is_some() { if v { "accepts it" } else { "does not validate it" } } else { &why });
        if a.err.contains("HUGR valid!") != v { o.bad("validate|message", format!("valid: {v}, {}", a.err)); }
        if !a.out.is_empty() { o.bad("validate|output", String::from_utf8_lossy(&a.out).into_owned()); }
        if let (Lib::Yes(x), false) = (&lib, v) { if let Some(g) = x.0.generator() { o.n("generators blamed"); if g.chars().all(|c| !c.is_control()) && !a.err.contains(&format!("generated by {g}")) { o.bad("validate|generator", format!("{g:?} is not named in {}", a.err)); } } }
    }
    // convert
    for _ in 0..2 {
        let (mut args, fmt): (Vec<String>, Option<EnvelopeFormat>) = match r.below(9) {
            0 => (vec!["--text".into()], Some(EnvelopeConfig::text().format)), 1 => (vec!["--binary".into()], Some(EnvelopeConfig::binary().format)),
            2 | 3 => (vec![], None),
            k => { let (n, f) = [("json", EnvelopeFormat::PackageJson), ("model", EnvelopeFormat::Model), ("model-exts", EnvelopeFormat::ModelWithExtensions), ("model-text", EnvelopeFormat::ModelText), ("model-text-exts", EnvelopeFormat::ModelTextWithExtensions)][k - 4]; (vec![(if r.bool() { "-f" } else { "--format" }).into(), n.into()], Some(f)) }
        };
        let mut head = EnvelopeConfig::new(fmt.unwrap_or(match &lib { Lib::Yes(x) => x.0.header().config().format, _ => EnvelopeFormat::PackageJson }));
        if args == ["--binary"] { head = EnvelopeConfig::binary(); }
        if r.chance(1, 2) { args.push("--compress".into()); head = head.with_zstd(ZstdConfig::default()); o.n("compression"); if r.bool() { let l = r.below(10) as u8; args.push(format!("--compression-level={l}")); head = head.with_zstd(ZstdConfig::new(l)); } }
        let file = r.bool();
        let old = r.bool(); // an output that exists and is longer
        if file { args.push("-o".into()); args.push("out.hugr".into()); if old { std::fs::write(dir.0.join("out.hugr"), vec![b'x'; 200_000]).unwrap(); } }
        let want = match good { None => Some(None), Some(p) => match quiet_catch(|| { let mut b = vec![]; write_envelope(&mut b, p, head).map(|()| b).map_err(|e| chain(&e)) }) { Err(_) => None, Ok(x) => Some(x.ok()) } };
        let Some(want) = want else { o.n("library crashes writing"); continue };
        let name = format!("convert {}", fmt.map(|f| format!("{f:?}")).unwrap_or("same".into()));
        let a = run(&dir.0, &cmd("convert", &args, r), stdin);
        status(o, &name, &a, want.is_some(), if good.is_some() { "writes (or not)" } else { &why });
        let got = if file { if !a.out.is_empty() { o.bad(format!("{name}|chatter"), "output besides the file"); } std::fs::read(dir.0.join("out.hugr")).unwrap_or_default() } else { a.out };
        if a.code == Some(0) { if let Some(w) = &want {
            if got == *w { o.n("outputs identical"); let c = head; if got.len() < 10 { o.bad(format!("{name}|empty"), format!("{c:?}")); } } else { same_package(o, &name, &got, w, &full, head); }
            if got != *w && !head.zstd.is_some() { o.n("outputs of other bytes"); }
            if head.zstd.is_some() && got.len() < 3000 && got.len() * 2 > w.len() * 3 + 200 { o.bad(format!("{name}|size"), format!("{} bytes for {}", got.len(), w.len())); }
            o.n(format!("converted to {:?}{}", head.format, if head.zstd.is_some() { " compressed" } else { "" }));
            // and back
            if r.chance(1, 3) && !file { let b = run(&dir.0, &[vec!["validate".into()], common.clone()].concat(), Some(&got)); if let Some(v) = quiet_catch(|| match read_envelope(&got[..], reg.as_ref().unwrap()) { Ok((_, p)) => p.validate().is_ok(), Err(_) => false }).ok() { status(o, "validate the converted", &b, v, "thinks otherwise"); } }
        } }
        let _ = std::fs::remove_file(dir.0.join("out.hugr"));
    }
    // mermaid
    if r.chance(1, 2) {
        let v = r.chance(1, 3);
        let file = r.chance(1, 3);
        let mut args: Vec<String> = vec![]; if v { args.push("--validate".into()); } if file { args.extend(["-o".to_string(), "m.txt".into()]); }
        let ok = if v { valid } else { Some(good.is_some()) };
        let want = match good { Some(p) => quiet_catch(|| p.modules.iter().map(|m| m.mermaid_string() + "\n").collect::<String>()).ok(), None => Some(String::new()) };
        if let (Some(ok), Some(want)) = (ok, want) {
            let a = run(&dir.0, &cmd("mermaid", &args, r), stdin);
            status(o, "mermaid", &a, ok, &why);
            let got = if file { std::fs::read(dir.0.join("m.txt")).unwrap_or_default() } else { a.out };
            if ok && a.code == Some(0) { o.n("diagrams"); if !want.contains("Hugr {") && got != want.as_bytes() { let g = String::from_utf8_lossy(&got).into_owned(); let l: Vec<String> = g.lines().zip(want.lines()).filter(|(a, b)| a != b).map(|(a, b)| format!("{a:?} instead of {b:?}")).collect(); o.bad("mermaid|output", format!("{} bytes instead of {}: {}", got.len(), want.len(), l.join("; ").chars().take(600).collect::<String>())); } }
            else if !ok && !file && !got.is_empty() { o.bad("mermaid|output of failure", String::from_utf8_lossy(&got).into_owned()); }
        }
    }
    // describe
    {
        let flags: [bool; 4] = std::array::from_fn(|_| r.bool());
        let names = ["--packaged-extensions", "--no-resolved-extensions", "--public-symbols", "--generator-claimed-extensions"];
        let json = r.chance(2, 3);
        let mut args: Vec<String> = names.iter().zip(flags).filter(|(_, f)| *f).map(|(n, _)| n.to_string()).collect();
        if json { args.push("--json".into()); }
        let a = run(&dir.0, &cmd("describe", &args, r), stdin);
        status(o, "describe", &a, good.is_some(), &why);
        let desc = match &lib { Lib::Yes(x) => Some(x.0.clone()), Lib::Partial(d) => Some((**d).clone()), _ => None };
        let text = String::from_utf8_lossy(&a.out).into_owned();
        match desc {
            None => if !text.is_empty() { o.bad("describe|output of failure", text); }
            Some(d) => {
                let mut j = serde_json::to_value(&d).unwrap();
                for m in j["modules"].as_array_mut().unwrap().iter_mut() { if let Some(m) = m.as_object_mut() { if flags[1] { m.remove("used_extensions_resolved"); } if !flags[2] { m.remove("public_symbols"); } if !flags[3] { m.remove("used_extensions_generator"); } } }
                if json {
                    o.n("json descriptions");
                    if !flags[0] { j.as_object_mut().unwrap().remove("packaged_extensions"); }
                    match serde_json::from_str::<J>(&text) {
                        Err(e) => o.bad("describe|json|unreadable", format!("{e}: {text}")),
                        Ok(mut g) => {
                            let err = g.as_object_mut().unwrap().remove("error");
                            if err.is_some() != good.is_none() { o.bad("describe|json|error", format!("{err:?} and the library {why}")); }
                            let strip = |mut j: J| { if let Some(m) = j.as_object_mut() { m.retain(|_, v| !(v.is_null() || v.as_array().is_some_and(|a| a.is_empty()))); } if let Some(l) = j.get_mut("modules").and_then(|m| m.as_array_mut()) { for m in l { if let Some(m) = m.as_object_mut() { m.retain(|_, v| !v.is_null()); } } } sorted(j) };
                            let (g, j) = (strip(g), strip(j));
                            if g != j { o.bad("describe|json|facts", format!("{g} instead of {j}")); }
                        }
                    }
                } else {
                    o.n("text descriptions");
                    let s = |n: usize, w: &str| format!("{n} {w}{}", if n == 1 { "" } else { "s" });
                    let mut need: Vec<String> = vec![d.header().to_string(), format!("Package contains {} and {}", s(d.n_modules(), "module"), s(d.n_packaged_extensions(), "extension"))];
                    let mut banned: Vec<String> = vec![];
                    if flags[0] { need.push("Packaged extensions:".into()); for e in d.packaged_extensions() { need.push(e.name.clone()); } } else { banned.push("Packaged extensions:".into()); }
                    for (k, m) in d.modules().enumerate() {
                        need.push(format!("Module {k}:"));
                        let Some(m) = m else { continue };
                        if let Some(n) = m.num_nodes { need.push(format!("| {n} ")); }
                        if let Some(e) = &m.entrypoint { need.push(format!("| {} ", hugr_core::NodeIndex::index(e.node))); }
                        if !flags[1] { for e in m.used_extensions_resolved.iter().flatten() { need.push(e.name.clone()); need.push(e.version.to_string()); } } else { banned.push("Resolved extensions:".into()); }
                        if flags[2] { for x in m.public_symbols.iter().flatten() { if x.chars().all(|c| !c.is_control()) { need.push(x.clone()); } } } else { banned.push("Public symbols:".into()); }
                        if flags[3] { for e in m.used_extensions_generator.iter().flatten() { need.push(e.name.clone()); need.push(e.version.to_string()); } } else { banned.push("Generator claimed".into()); }
                    }
                    for n in need { o.n("stated facts"); if !text.contains(&n) { o.bad("describe|text|missing", format!("{n:?} is not in {text}")); } }
                    let shown: String = d.modules().flatten().flat_map(|m| m.public_symbols.iter().flatten().cloned().chain(m.generator.clone()).collect::<Vec<_>>()).collect();
                    for b in banned { if text.contains(&b) && !shown.contains(&b) { o.bad("describe|text|not asked for", b); } }
                }
            }
        }
    }
    // the output is the input
    if r.chance(1, 8) {
        let a = run(&dir.0, &cmd("convert", &["-o".into(), "in.hugr".into()], r), stdin);
        crashed(o, "convert in place", &a);
        let now = std::fs::read(dir.0.join("in.hugr")).unwrap_or_default();
        o.n("conversions in place");
        if a.code != Some(0) && now != bytes { if now.is_empty() { o.bad("in place|emptied", "a conversion in place (or to a file that exists) fails and leaves it empty"); } else { o.bad("in place|damaged", "a failed conversion in place changes the file"); } }
        if a.code == Some(0) && !piped { if let Lib::Yes(x) = &lib { same_package(o, "convert in place", &now, &bytes, &full, EnvelopeConfig::new(x.0.header().config().format)); } }
        std::fs::write(dir.0.join("in.hugr"), &bytes).unwrap();
    }
    // misuse
    if r.chance(1, 2) {
        let s = |l: &[&str]| l.iter().map(|x| x.to_string()).collect::<Vec<_>>();
        let bad: Vec<(&str, Vec<String>)> = vec![
            ("unknown format", s(&["convert", "in.hugr", "-f", "yaml"])), ("level without compression", s(&["convert", "in.hugr", "--compression-level", "3"])), ("text and binary", s(&["convert", "in.hugr", "--text", "--binary"])),
            ("text and format", s(&["convert", "in.hugr", "--text", "-f", "json"])), ("no such input", s(&["validate", "nowhere.hugr"])), ("no such extension", s(&["validate", "in.hugr", "-e", "nowhere.json"])), ("no such command", s(&["frobnicate", "in.hugr"])), ("no command", s(&[])),
            ("directory as input", s(&["validate", "."])), ("directory as output", s(&["convert", "in.hugr", "-o", "."])), ("output nowhere", s(&["mermaid", "in.hugr", "-o", "no/such/dir/x"])), ("unknown option", s(&["describe", "in.hugr", "--jsonn"])), ("level out of range", s(&["convert", "in.hugr", "--compress", "--compression-level", "300"])), ("empty input", s(&["describe"])),
            ("extensions to a file", s(&["gen-extensions", "-o", "in.hugr"])),
        ];
        let (n, a) = r.pick(&bad).clone();
        let x = run(&dir.0, &a, Some(b""));
        o.n("misuses");
        if !crashed(o, n, &x) && x.code == Some(0) { o.bad(format!("misuse|{n}"), format!("succeeds: {a:?}")); }
        if std::fs::read(dir.0.join("in.hugr")).unwrap_or_default() != bytes { o.bad(format!("misuse|{n}|input"), "the input has changed"); }
    }
    if std::fs::read(dir.0.join("in.hugr")).unwrap_or_default() != bytes { o.bad("input changed", "the input file has changed"); }
}
/// gen-extensions, and reading what it wrote.
fn extensions(o: &mut Obs, r: &mut Rng, dir: &Path) {
    let deep = r.bool();
    let sub = if deep { "a/b c" } else { "." };
    let a = run(dir, &["gen-extensions".into(), if r.bool() { "-o" } else { "--outdir" }.into(), sub.into()], None);
    status(o, "gen-extensions", &a, true, "has them");
    let mut found = 0;
    let mut stack = vec![dir.join(sub)];
    let mut paths = vec![];
    while let Some(d) = stack.pop() { for e in std::fs::read_dir(&d).into_iter().flatten().flatten() { if e.path().is_dir() { stack.push(e.path()); } else { paths.push(e.path()); } } }
    for e in STD_REG.iter() {
        let mut f = dir.join(sub); for x in e.name().split('.') { f.push(x); } let f = PathBuf::from(format!("{}.json", f.display()));
        let text = std::fs::read(&f).unwrap_or_default();
        match serde_json::from_slice::<J>(&text) { Ok(j) => { found += 1; o.n("extension files"); if j != serde_json::to_value(&**e).unwrap() { o.bad("gen-extensions|contents", format!("{} differs", e.name())); } }, Err(x) => o.bad("gen-extensions|missing", format!("{}: {x}", e.name())) }
        // the published copy
        let root = std::env::var("HV_REPO").unwrap_or("/repo".into());
        let mut g = PathBuf::from(root).join("specification/std_extensions"); for x in e.name().split('.') { g.push(x); }
        let pub_ = std::fs::read(format!("{}.json", g.display())).unwrap_or_default();
        if pub_ != text { o.bad("gen-extensions|published", format!("{} is not the file in specification/std_extensions", e.name())); } else { o.n("published copies"); }
    }
    if paths.len() != found { o.bad("gen-extensions|surplus", format!("{} files for {found} extensions", paths.len())); }
    // the files are good enough for a program without the standard ones
    let mut h = hugr_core::Hugr::new();
    let m = h.module_root();
    h.add_node_with_parent(m, hugr_core::ops::FuncDecl::new("f", hugr_core::types::Signature::new_endo(vec![hugr_core::std_extensions::arithmetic::int_types::int_type(r.below(7) as u64), hugr_core::std_extensions::collections::list::list_type(hugr_core::std_extensions::arithmetic::float_types::float64_type())])));
    let b = store(&Package::new([h]), EnvelopeConfig::binary()).unwrap();
    let want = ["arithmetic.int.types", "collections.list", "arithmetic.float.types"];
    let leave = r.pick_opt(&[0usize, 1, 2]).copied().filter(|_| r.bool());
    let mut args: Vec<String> = vec!["validate".into(), "--no-std".into()];
    for (k, w) in want.iter().enumerate() { if Some(k) != leave { args.push("-e".into()); args.push(format!("{sub}/{}.json", w.replace('.', "/"))); } }
    let x = run(dir, &args, Some(&b));
    o.n(if leave.is_some() { "a file left out" } else { "programs with generated files" });
    status(o, "validate with generated files", &x, leave.is_none(), "(given those files) thinks otherwise");
}
pub fn prop() -> Prop {
    Prop { id: "C25", case, rule: "the tool run as a process (stdin and files, random order of options) on generated, spoiled and damaged packages, with extension files, packaged extensions, none and damaged ones; every command's status, output and files against the library on the same bytes, and misuse; distinct combinations of format, way, registry and outcome are counted",
        need: &["commands", "accepted inputs", "refused inputs", "inputs refused late", "valid", "loads but not valid", "compression", "diagrams", "json descriptions", "text descriptions", "misuses", "several extension files", "damaged extension files", "generators blamed", "programs with generated files", "a file left out"], quick_s: 30, thorough_s: 600, min_cases: 300, max_cases: 1_000_000 }
}
