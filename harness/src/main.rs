use hv::driver::*;
fn main() {
    let mut it = std::env::args_os();
    it.next();
    // the command line tool, as hugr-cli/src/main.rs starts it
    if it.next().is_some_and(|x| x == "cli") { return hugr_cli::CliArgs::new_from_args(std::iter::once("hugr".into()).chain(it)).run_cli(); }
    install_hook();
    let a: Vec<String> = std::env::args().collect();
    let props = hv::props::all();
    let find = |id: &str| props.iter().find(|p| p.id == id).unwrap_or_else(|| { eprintln!("no property {id}"); std::process::exit(3) });
    let env_seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1u64);
    let code = match a[1].as_str() {
        "check" => {
            let tier = a.get(3).cloned().or(std::env::var("VERIF_TIER").ok()).unwrap_or("quick".into());
            let secs = a.get(4).and_then(|x| x.parse().ok());
            check(find(&a[2]), env_seed, tier == "thorough", secs)
        }
        "worker" => { worker(find(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), a[5].parse().unwrap(), a[6].parse().unwrap(), a[7].parse().unwrap(), a[8] == "thorough"); 0 }
        "one" => one(find(&a[2]), a[3].parse().unwrap(), a[4].parse().unwrap(), a.get(5).is_some_and(|x| x == "thorough")),
        "find" => {
            // smallest failing case per class
            let p = find(&a[2]);
            let n: u64 = a[3].parse().unwrap();
            let pat = a.get(4).cloned().unwrap_or_default();
            let mut best: std::collections::BTreeMap<String, (u64, u64, u64)> = Default::default();
            let t: Vec<_> = (0..8u64).map(|w| { let (case, pat) = (p.case, pat.clone()); std::thread::Builder::new().stack_size(16 << 20).spawn(move || { let mut v = vec![]; let mut i = w; while i < n { let mut o = Obs::default(); let res = quiet_catch(|| case(&mut o, 1, i)); if let Err(e) = &res { v.push((format!("HARNESS {e:?}").chars().take(200).collect(), 0, i)); } if o.counts.contains_key("harness_panic") { v.push(("HARNESS panic inside guard".into(), 0, i)); } if res.is_ok() { for (k, _) in &o.viol { if k.contains(&pat) { v.push((k.clone(), o.counts.get("nodes").copied().unwrap_or(0), i)); } } } i += 8; } v }).unwrap() }).collect();
            for h in t { for (k, s, i) in h.join().unwrap() { let e = best.entry(k).or_insert((s, i, 0)); e.2 += 1; if s < e.0 { e.0 = s; e.1 = i; } } }
            for (k, (s, i, c)) in best { println!("{c}x nodes {s} case {i}: {k}"); }
            0
        }
        x => { eprintln!("unknown {x}"); 3 }
    };
    std::process::exit(code);
}
