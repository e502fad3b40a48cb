//! Bytes from anywhere: reading ends with a package or an error, never with a crash.
use super::c03::module;
use crate::driver::{Obs, Prop};
use crate::ext;
use crate::rng::Rng;
use crate::spice::*;
use crate::util::*;
use hugr_core::envelope::*;
use hugr_core::package::Package;
use serde_json::{json, Value as J};

fn paths(v: &J, p: &mut Vec<String>, out: &mut Vec<Vec<String>>) {
    out.push(p.clone());
    match v {
        J::Array(a) => for (i, x) in a.iter().enumerate() { p.push(i.to_string()); paths(x, p, out); p.pop(); },
        J::Object(m) => for (k, x) in m { p.push(k.clone()); paths(x, p, out); p.pop(); },
        _ => {}
    }
}
fn at<'a>(v: &'a mut J, p: &[String]) -> Option<&'a mut J> { let mut c = v; for k in p { c = match c { J::Array(a) => a.get_mut(k.parse::<usize>().ok()?)?, J::Object(m) => m.get_mut(k)?, _ => return None }; } Some(c) }
fn num(r: &mut Rng) -> J { match r.below(10) { 0 => json!(0), 1 => json!(1), 2 => json!(-1), 3 => json!(u64::MAX), 4 => json!(i64::MIN), 5 => json!(1u64 << 32), 6 => json!(65536), 7 => json!(r.below(100)), 8 => json!(1.5), _ => json!(r.below(10)) } }
/// change a number, name, list or map somewhere in the document
pub fn mutate_json(r: &mut Rng, v: &mut J) -> String {
    let mut ps = vec![]; paths(v, &mut vec![], &mut ps);
    // prefer one kind of change per document: the structure, numbers, or anything
    let structural: Vec<&Vec<String>> = ps.iter().filter(|p| p.iter().any(|k| k == "edges" || k == "parent" || k == "metadata" || k == "entrypoint" || k == "nodes") && p.len() <= 7).collect();
    let p = if !structural.is_empty() && r.chance(2, 5) { (*r.pick(&structural)).clone() } else { r.pick(&ps).clone() };
    let other = { let q = r.pick(&ps).clone(); at(v, &q).map(|x| x.clone()).unwrap_or(J::Null) };
    // numbers in range of the document hit existing nodes and ports
    let what = format!("{}", p.iter().map(|k| if k.parse::<usize>().is_ok() { "#" } else { k.as_str() }).collect::<Vec<_>>().join("/"));
    let Some(x) = at(v, &p) else { return what };
    match x {
        J::Number(_) => { *x = if r.chance(1, 12) { rand_meta(r, 1) } else { num(r) }; }
        J::String(s) => { match r.below(5) { 0 => *x = J::String(rand_str(r)), 1 => { if let J::String(_) = other { *x = other } } 2 => { s.pop(); } 3 => *x = J::Null, _ => { *s = (*r.pick(&["Input", "Output", "Module", "FuncDefn", "DFG", "CFG", "Case", "Conditional", "Const", "ExitBlock", "DataflowBlock", "TailLoop", "Opaque", "Extension", "Sum", "Unit", "General", "G", "Q", "I", "F", "V", "R", "Type", "BoundedNat", "List", "Tuple", "Variable", "int", "prelude", "C", "A"])).to_string(); } } }
        J::Array(a) => { match r.below(7) { 0 => { a.clear(); } 1 => { if !a.is_empty() { let i = r.below(a.len()); a.remove(i); } } 2 => { if !a.is_empty() { let i = r.below(a.len()); let y = a[i].clone(); let j = r.below(a.len() + 1); a.insert(j, y); } } 3 => { if a.len() > 1 { let (i, j) = (r.below(a.len()), r.below(a.len())); a.swap(i, j); } } 4 => a.push(other), 5 => { a.reverse(); } _ => { for _ in 0..r.below(5) { a.push(rand_meta(r, 1)); } } } }
        J::Object(m) => { let ks: Vec<String> = m.keys().cloned().collect(); match r.below(4) { 0 if !ks.is_empty() => { m.remove(r.pick(&ks)); } 1 if !ks.is_empty() => { m.insert(r.pick(&ks).clone(), other); } 2 => { m.insert("extra".into(), json!(1)); } _ => *x = other } }
        J::Bool(b) => *b = !*b,
        J::Null => *x = other,
    }
    what
}
pub fn mutate_bytes(r: &mut Rng, b: &mut Vec<u8>, from: usize) {
    if b.len() <= from { b.push(r.u64() as u8); return; }
    for _ in 0..*r.pick(&[1usize, 1, 2, 4, 16]) {
        let n = b.len() - from; if n == 0 { return; }
        let i = from + r.below(n);
        match r.below(8) {
            0 => b[i] = r.u64() as u8, 1 => b[i] ^= 1 << r.below(8), 2 => b[i] = 0, 3 => b[i] = 255, 4 => { b[i] = b[i].wrapping_add(1); }
            5 => { b.truncate(i); } 6 => { let k = r.below(9).min(b.len() - i); b.drain(i..i + k); } _ => { let k = r.below(16).min(b.len() - i); let s = b[i..i + k].to_vec(); let j = from + r.below(n); for (o, c) in s.into_iter().enumerate() { b.insert(j + o, c); } }
        }
    }
}
fn mutate_text(r: &mut Rng, s: &str) -> String {
    // exchange, drop or repeat tokens
    let mut t: Vec<String> = vec![]; let mut cur = String::new(); let mut instr = false;
    for c in s.chars() { if c == '"' { instr = !instr; cur.push(c); if !instr { t.push(std::mem::take(&mut cur)); } continue; } if instr { cur.push(c); continue; } if "()[] \n".contains(c) { if !cur.is_empty() { t.push(std::mem::take(&mut cur)); } t.push(c.to_string()); } else { cur.push(c); } }
    if !cur.is_empty() { t.push(cur); }
    let words: Vec<usize> = (0..t.len()).filter(|i| !"()[] \n".contains(t[*i].as_str())).collect();
    if words.len() < 3 { return s.to_string(); }
    for _ in 0..*r.pick(&[1, 1, 2, 4]) {
        let i = *r.pick(&words); let j = *r.pick(&words);
        match r.below(6) { 0 => t[i] = t[j].clone(), 1 => t[i] = String::new(), 2 => t.swap(i, j), 3 => t[i] = r.below(100).to_string(), 4 => t[i] = (*r.pick(&["core.type", "core.fn", "core.adt", "core.ctrl", "core.load_const", "core.call", "?0", "_", "0", "99999999999999999999", "\"s\"", "1.5", "(tuple 1 2)", "[1 2]", "(fn (dfg))", "core.nat", "tail-loop", "cond", "dfg", "cfg", "block", "%0", "%99"])).to_string(), _ => {
            // remove or repeat a whole parenthesis
            if let Some(a) = (i..t.len()).find(|k| t[*k] == "(") { let mut d = 0; let mut e = a; for k in a..t.len() { if t[k] == "(" { d += 1 } if t[k] == ")" { d -= 1; if d == 0 { e = k; break; } } } if r.bool() { t.drain(a..=e); } else { let c = t[a..=e].to_vec(); for (o, x) in c.into_iter().enumerate() { t.insert(e + 1 + o, x); } } return t.concat(); } } }
    }
    t.concat()
}
/// Everything one may do with bytes of unknown origin.
fn read(o: &mut Obs, key: &str, bytes: &[u8]) {
    let reg = registry();
    if o.verbose { std::fs::write("/tmp/cur.bin", bytes).ok(); }
    o.n("inputs"); o.add("bytes", bytes.len() as u64);
    match o.guard(&format!("{key}:load"), || Package::load(bytes, Some(&reg))) {
        Some(Ok(p)) => {
            o.n("accepted");
            match o.guard(&format!("{key}:validate"), || p.validate()) {
                Some(Ok(())) => { o.n("accepted_valid");
                    for c in [EnvelopeConfig::text(), EnvelopeConfig::binary()] { if c.format == EnvelopeFormat::PackageJson { o.guard(&format!("{key}:store"), || { let mut b = vec![]; p.store(&mut b, c).ok(); }); } }
                }
                Some(Err(_)) => o.n("accepted_invalid"), None => {}
            }
        }
        Some(Err(e)) => { o.n("refused"); o.saws(&format!("{key}{}", chain(&e).chars().filter(|c| c.is_alphabetic()).take(120).collect::<String>())); o.guard(&format!("{key}:message"), || format!("{e} {e:?}")); }
        None => {}
    }
}
fn case(o: &mut Obs, seed: u64, idx: u64) {
    let mut r = rng(seed, idx, 5);
    let Some(h) = module(o, seed, idx, 0, &mut r, ALL) else { return };
    let fmts = [("json", EnvelopeFormat::PackageJson), ("json", EnvelopeFormat::PackageJson), ("bin", EnvelopeFormat::Model), ("binx", EnvelopeFormat::ModelWithExtensions), ("text", EnvelopeFormat::ModelText), ("textx", EnvelopeFormat::ModelTextWithExtensions)];
    let (nm, f) = *r.pick(&fmts);
    let mut p = Package::new([h]);
    if r.chance(1, 3) { p.extensions.register(ext::EXT.clone()).unwrap(); }
    let mut buf = vec![];
    let Ok(Ok(())) = crate::driver::quiet_catch(|| p.store(&mut buf, EnvelopeConfig::new(f))) else { o.n("not_storable"); return };
    if nm == "json" {
        let doc: J = serde_json::from_slice(&buf[10..]).unwrap();
        for _ in 0..24 {
            let mut d = doc.clone();
            let k = *r.pick(&[1, 1, 1, 2, 3]);
            let w: Vec<String> = (0..k).map(|_| mutate_json(&mut r, &mut d)).collect();
            let mut b = buf[..10].to_vec(); b.extend(serde_json::to_vec(&d).unwrap());
            if o.verbose { eprintln!("{w:?}"); }
            let before = o.viol.len();
            read(o, "json", &b);
            if o.verbose && o.viol.len() > before { std::fs::write("/tmp/bad.bin", &b).ok(); }
        }
    }
    if nm.starts_with("text") {
        let s = String::from_utf8_lossy(&buf[10..]).into_owned();
        for _ in 0..16 { let t = mutate_text(&mut r, &s); let mut b = buf[..10].to_vec(); b.extend(t.bytes()); read(o, nm, &b); }
    }
    for _ in 0..if nm.starts_with("bin") { 24 } else { 4 } { let mut b = buf.clone(); let from = if r.chance(1, 8) { 0 } else { 10 }; mutate_bytes(&mut r, &mut b, from); let before = o.viol.len(); read(o, nm, &b); if o.verbose && o.viol.len() > before { std::fs::write("/tmp/bad.bin", &b).ok(); } }
    if r.chance(1, 6) {
        let mut z = vec![];
        if p.store(&mut z, EnvelopeConfig::new(f).with_zstd(ZstdConfig::new(1))).is_ok() { for _ in 0..6 { let mut b = z.clone(); mutate_bytes(&mut r, &mut b, 10); read(o, "zstd", &b); } }
    }
    if idx % 16 == 0 { for _ in 0..20 { let mut b = vec![]; if r.bool() { b.extend(b"HUGRiHJv"); b.push(*r.pick(&[1u8, 2, 3, 40, 41, 63, 64])); b.push(*r.pick(&[0u8, 1, 0x40, 0xff])); } for _ in 0..r.below(64) { b.push(r.u64() as u8); } read(o, "random", &b); } }
    o.note(|| format!("{nm}: {} bytes mutated", buf.len()));
}
pub fn prop() -> Prop {
    Prop { id: "C05", case, rule: "a mutated envelope was refused with a new kind of message", need: &["inputs", "accepted", "refused", "accepted_valid"], quick_s: 30, thorough_s: 600, min_cases: 100, max_cases: u64::MAX / 2 }
}
