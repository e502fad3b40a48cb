//! Runs the cases of a property in isolated worker processes, collects what the
//! monitors observed and writes evidence and verdict.
use serde_json::{json, Value as J};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashMap, HashSet};
use std::io::{BufRead, BufReader, Write};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Child, Command, Stdio};
use std::sync::mpsc;
use std::time::{Duration, Instant};

/// What a case observed.
#[derive(Default)]
pub struct Obs {
    pub counts: BTreeMap<String, u64>,
    pub hashes: Vec<u64>,
    pub sample: Option<String>,
    pub viol: Vec<(String, String)>,
    pub thorough: bool,
    pub verbose: bool,
}
impl Obs {
    pub fn n(&mut self, k: impl Into<String>) { *self.counts.entry(k.into()).or_default() += 1; }
    pub fn add(&mut self, k: impl Into<String>, v: u64) { *self.counts.entry(k.into()).or_default() += v; }
    /// a distinct, non-trivial situation was examined
    pub fn saw(&mut self, h: u64) { self.hashes.push(h); }
    pub fn saws(&mut self, s: &str) { let h = crate::rng::hash_str(s); self.hashes.push(h); }
    pub fn bad(&mut self, key: impl Into<String>, msg: impl Into<String>) { let (k, m) = (key.into(), msg.into()); if self.verbose { eprintln!("BAD {k}: {m}"); } self.viol.push((k, m)); }
    pub fn note(&mut self, s: impl FnOnce() -> String) { if self.sample.is_none() { self.sample = Some(s()); } }
    /// Run library code; a panic raised by the library is a violation.
    pub fn guard<T>(&mut self, ctx: &str, f: impl FnOnce() -> T) -> Option<T> {
        match quiet_catch(f) {
            Ok(v) => Some(v),
            Err(p) => {
                if p.harness() { self.n("harness_panic"); if self.verbose { eprintln!("HARNESS PANIC {ctx}: {p:?}"); } }
                else { let k = format!("{ctx}|panic|{}", p.key()); self.bad(k, format!("{ctx} panicked at {}:{}: {}", p.file, p.line, p.msg)); }
                None
            }
        }
    }
    /// Run library code whose panics are not judged here.
    pub fn attempt<T>(&mut self, ctx: &str, f: impl FnOnce() -> T) -> Option<T> {
        match quiet_catch(f) { Ok(v) => Some(v), Err(p) => { if self.verbose { eprintln!("attempt {ctx}: {p:?}"); } self.n(format!("aborted:{ctx}")); None } }
    }
}
#[derive(Clone, Debug, Default)]
pub struct PanicInfo { pub file: String, pub line: u32, pub msg: String }
impl PanicInfo {
    pub fn harness(&self) -> bool { self.file.starts_with("src/") || self.file.contains("/verif/harness") }
    pub fn key(&self) -> String {
        let f = self.file.rsplit_once("/repo/").map(|x| x.1).unwrap_or_else(|| self.file.rsplit('/').next().unwrap_or(""));
        let mut m = String::new();
        for c in self.msg.chars().take(120) { if c.is_ascii_digit() { if !m.ends_with('#') { m.push('#'); } } else if m.len() < 70 { m.push(c); } }
        format!("{f}|{}", m.lines().next().unwrap_or(""))
    }
}
thread_local! { static LAST: RefCell<Option<PanicInfo>> = const { RefCell::new(None) }; static QUIET: RefCell<u32> = const { RefCell::new(0) }; }
pub fn install_hook() {
    let verbose = std::env::var("HV_BT").is_ok();
    std::panic::set_hook(Box::new(move |i| {
        let (file, line) = i.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<&str>().map(|s| s.to_string()).or_else(|| i.payload().downcast_ref::<String>().cloned()).unwrap_or_default();
        if verbose { eprintln!("panic {file}:{line}: {msg}\n{}", std::backtrace::Backtrace::force_capture()); }
        else if QUIET.with(|q| *q.borrow()) == 0 { eprintln!("panic {file}:{line}: {msg}"); }
        LAST.with(|l| *l.borrow_mut() = Some(PanicInfo { file, line, msg }));
    }));
}
pub fn quiet_catch<T>(f: impl FnOnce() -> T) -> Result<T, PanicInfo> {
    QUIET.with(|q| *q.borrow_mut() += 1);
    let r = catch_unwind(AssertUnwindSafe(f));
    QUIET.with(|q| *q.borrow_mut() -= 1);
    r.map_err(|_| LAST.with(|l| l.borrow_mut().take()).unwrap_or_default())
}

pub type CaseFn = fn(&mut Obs, u64, u64);
pub struct Prop {
    pub id: &'static str,
    pub case: CaseFn,
    /// what makes a case count as distinct and non-trivial
    pub rule: &'static str,
    /// counters that must be non-zero, or the run observed nothing worth a verdict
    pub need: &'static [&'static str],
    pub quick_s: u64,
    pub thorough_s: u64,
    /// cases at least (even if slow) / at most
    pub min_cases: u64,
    pub max_cases: u64,
}

fn run_case(p: &Prop, seed: u64, idx: u64, thorough: bool, verbose: bool) -> Obs {
    let mut o = Obs { thorough, verbose, ..Default::default() };
    if let Err(e) = quiet_catch(AssertUnwindSafe(|| (p.case)(&mut o, seed, idx))) {
        if e.harness() { o.n("harness_panic"); if verbose { eprintln!("HARNESS PANIC {e:?}"); } }
        else { let k = format!("case|panic|{}", e.key()); o.bad(k, format!("library panicked at {}:{}: {}", e.file, e.line, e.msg)); }
    }
    o
}
fn enc(idx: u64, o: &Obs) -> String { json!({"i": idx, "c": o.counts, "h": o.hashes, "v": o.viol, "s": o.sample}).to_string() }

pub fn worker(p: &Prop, seed: u64, start: u64, step: u64, secs: f64, max: u64, thorough: bool) {
    let t0 = Instant::now();
    let out = std::io::stdout();
    let mut i = start;
    while i < max && (t0.elapsed().as_secs_f64() < secs || i < p.min_cases) {
        { let mut l = out.lock(); writeln!(l, "B {i}").ok(); l.flush().ok(); }
        let o = on_big_stack(p, seed, i, thorough);
        { let mut l = out.lock(); writeln!(l, "E {}", enc(i, &o)).ok(); l.flush().ok(); }
        i += step;
    }
    println!("D");
}
/// Cases run on the usual stack size of a main thread.
fn on_big_stack(p: &Prop, seed: u64, i: u64, thorough: bool) -> Obs {
    std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || run_case(p, seed, i, thorough, false)).unwrap().join().unwrap())
}
pub fn one(p: &Prop, seed: u64, idx: u64, thorough: bool) -> i32 {
    let o = std::thread::scope(|s| std::thread::Builder::new().stack_size(8 << 20).spawn_scoped(s, || run_case(p, seed, idx, thorough, std::env::var("HV_Q").is_err())).unwrap().join().unwrap());
    println!("{}", enc(idx, &o));
    if o.viol.is_empty() { 0 } else { 1 }
}

struct W { child: Child, cur: Option<u64>, since: Instant, next: u64, slot: u64 }
pub fn known(id: &str) -> HashMap<String, String> {
    let mut m = HashMap::new();
    let p = format!("{}/known_findings.txt", root());
    for l in std::fs::read_to_string(p).unwrap_or_default().lines() {
        if let Some(r) = l.strip_prefix("KNOWN ") {
            let mut it = r.splitn(2, " key=");
            let (a, b) = (it.next().unwrap_or(""), it.next().unwrap_or(""));
            if a.trim() == format!("property={id}") { let mut kv = b.splitn(2, " ## "); m.insert(kv.next().unwrap().trim().to_string(), kv.next().unwrap_or("").trim().to_string()); }
        }
    }
    m
}
pub fn root() -> String { std::env::var("HV_ROOT").unwrap_or_else(|_| "/verif".into()) }

pub fn check(p: &Prop, seed: u64, thorough: bool, secs: Option<f64>) -> i32 {
    let t0 = Instant::now();
    let secs = secs.unwrap_or(if thorough { p.thorough_s } else { p.quick_s } as f64);
    let nw = std::env::var("HV_WORKERS").ok().and_then(|x| x.parse().ok()).unwrap_or(8u64);
    let max = if thorough { u64::MAX / 2 } else { p.max_cases };
    let hang = Duration::from_secs(60);
    let (tx, rx) = mpsc::channel::<(u64, Option<String>)>();
    let exe = std::env::current_exe().unwrap();
    let spawn = |slot: u64, start: u64, left: f64| -> W {
        let mut c = Command::new(&exe);
        c.args(["worker", p.id, &seed.to_string(), &start.to_string(), &nw.to_string(), &format!("{left}"), &max.to_string(), if thorough { "thorough" } else { "quick" }]);
        let mut child = c.stdin(Stdio::null()).stdout(Stdio::piped()).stderr(Stdio::null()).spawn().expect("spawn worker");
        let so = child.stdout.take().unwrap();
        let tx = tx.clone();
        std::thread::spawn(move || { for l in BufReader::new(so).split(b'\n') { match l { Ok(l) => { tx.send((slot, Some(String::from_utf8_lossy(&l).into_owned()))).ok(); } Err(_) => break } } tx.send((slot, None)).ok(); });
        W { child, cur: None, since: Instant::now(), next: start, slot }
    };
    let mut ws: Vec<Option<W>> = (0..nw).map(|i| Some(spawn(i, i, secs))).collect();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut hashes: HashSet<u64> = HashSet::new();
    let mut samples: Vec<String> = vec![];
    let mut viol: BTreeMap<String, (u64, String, u64)> = BTreeMap::new();
    let (mut evals, mut crashes, mut flakes) = (0u64, 0u64, 0u64);
    let rerun = |idx: u64| -> Option<String> {
        // Some(what) if the case fails again on its own
        let mut c = Command::new(&exe).args(["one", p.id, &seed.to_string(), &idx.to_string(), if thorough { "thorough" } else { "quick" }]).env("HV_Q", "1").stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::piped()).spawn().ok()?;
        let t = Instant::now();
        loop {
            match c.try_wait().ok()? {
                Some(st) => {
                    use std::os::unix::process::ExitStatusExt;
                    let mut e = String::new();
                    if let Some(mut s) = c.stderr.take() { use std::io::Read; let mut b = vec![]; s.read_to_end(&mut b).ok(); e = String::from_utf8_lossy(&b).chars().rev().take(300).collect::<String>().chars().rev().collect(); }
                    return match (st.code(), st.signal()) { (Some(0 | 1), _) => None, (Some(c), _) => Some(format!("exit {c} {e}")), (_, Some(9)) => None, (_, Some(s)) => Some(format!("signal {s} {e}")), _ => None };
                }
                None if t.elapsed() > Duration::from_secs(120) => { c.kill().ok(); c.wait().ok(); return Some("hang".into()); }
                None => std::thread::sleep(Duration::from_millis(20)),
            }
        }
    };
    while ws.iter().any(|w| w.is_some()) {
        let ev = rx.recv_timeout(Duration::from_millis(500));
        let mut dead: Option<u64> = None;
        match ev {
            Ok((s, Some(l))) => if let Some(w) = ws[s as usize].as_mut() {
                if let Some(i) = l.strip_prefix("B ") { w.cur = i.trim().parse().ok(); w.since = Instant::now(); }
                else if let Some(e) = l.strip_prefix("E ") {
                    if let Ok(j) = serde_json::from_str::<J>(e) {
                        evals += 1;
                        let idx = j["i"].as_u64().unwrap_or(0);
                        w.next = idx + nw; w.cur = None;
                        if let Some(c) = j["c"].as_object() { for (k, v) in c { *counts.entry(k.clone()).or_default() += v.as_u64().unwrap_or(0); } }
                        if let Some(h) = j["h"].as_array() { if hashes.len() < 5_000_000 { hashes.extend(h.iter().filter_map(|x| x.as_u64())); } }
                        if let Some(s) = j["s"].as_str() { if samples.len() < 5 && s.len() < 4000 { samples.push(s.to_string()); } }
                        if let Some(v) = j["v"].as_array() { for x in v { let k = x[0].as_str().unwrap_or("?").to_string(); let e = viol.entry(k).or_insert((idx, x[1].as_str().unwrap_or("").to_string(), 0)); e.2 += 1; } }
                    }
                } else if l == "D" { w.cur = None; w.next = u64::MAX; }
            },
            Ok((s, None)) => dead = Some(s),
            Err(_) => {}
        }
        for w in ws.iter_mut().flatten() { if w.cur.is_some() && w.since.elapsed() > hang { w.child.kill().ok(); w.since = Instant::now() + Duration::from_secs(3600); } }
        if let Some(s) = dead {
            let mut w = ws[s as usize].take().unwrap();
            w.child.wait().ok();
            if let Some(i) = w.cur {
                crashes += 1;
                match rerun(i) { Some(what) if rerun(i).is_some() => { let k = format!("crash|{}", what.split_whitespace().take(2).collect::<Vec<_>>().join(" ")); let e = viol.entry(k).or_insert((i, format!("case {i} ends the process: {what}"), 0)); e.2 += 1; } _ => flakes += 1 }
                w.next = i + nw;
            }
            let left = secs - t0.elapsed().as_secs_f64();
            if w.next != u64::MAX && (left > 0.5 || w.next < p.min_cases) && crashes < 200 { ws[s as usize] = Some(spawn(w.slot, w.next, left.max(0.1))); }
        }
    }
    let harness = counts.get("harness_panic").copied().unwrap_or(0);
    let kn = known(p.id);
    let mut fresh = vec![];
    let mut seen_known = vec![];
    for (k, (i, m, n)) in &viol { if kn.contains_key(k) { seen_known.push(k.clone()); } else { fresh.push((k.clone(), *i, m.clone(), *n)); } }
    for (k, d) in &kn { println!("KNOWN-FINDING: property={} {} [{}]{}", p.id, d, k, if seen_known.contains(k) { " (seen in this run)" } else { "" }); }
    let dir = format!("{}/evidence", root());
    std::fs::create_dir_all(format!("{dir}/replay")).ok();
    let tier = if thorough { "thorough" } else { "quick" };
    let ev = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration",
        "coverage": { "evaluations": evals, "distinct_nontrivial": hashes.len(), "rule": p.rule, "samples": if samples.is_empty() { vec![format!("{counts:?}")] } else { samples } },
        "observed": counts, "worker_crashes": crashes, "unreproduced_crashes": flakes,
        "wall_s": t0.elapsed().as_secs_f64(), "violations": fresh.iter().map(|f| json!({"key": f.0, "case": f.1, "what": f.2, "times": f.3})).collect::<Vec<_>>(), "known": seen_known,
    });
    std::fs::write(format!("{dir}/{}.json", p.id), serde_json::to_string_pretty(&ev).unwrap()).ok();
    println!("{} {tier} seed={seed}: {evals} cases, {} distinct situations, {:.1} s; observed {counts:?}", p.id, hashes.len(), t0.elapsed().as_secs_f64());
    if !fresh.is_empty() {
        for (n, (k, i, m, times)) in fresh.iter().enumerate().take(12) {
            let f = format!("{dir}/replay/{}-{n}.json", p.id);
            std::fs::write(&f, serde_json::to_string_pretty(&json!({"property": p.id, "seed": seed, "case": i, "tier": tier, "key": k, "what": m, "replay": format!("target/debug/hv one {} {seed} {i} {tier}", p.id)})).unwrap()).ok();
            println!("  [{k}] x{times} case {i}: {}", m.chars().take(600).collect::<String>());
            println!("VIOLATION property={} replay={f}", p.id);
        }
        return 1;
    }
    let missing: Vec<&&str> = p.need.iter().filter(|k| counts.get(**k).copied().unwrap_or(0) == 0).collect();
    if evals == 0 || !missing.is_empty() || harness * 5 > evals || (crashes > 50) {
        println!("INCONCLUSIVE: cases {evals}, missing observations {missing:?}, harness panics {harness}, crashes {crashes}");
        return 2;
    }
    0
}
