use twverif::{rng::Rng, scen::*, target::*};
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let (s0, n) = (a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap());
    let rnd = a.get(3).map(|s| s == "rnd").unwrap_or(false);
    std::panic::set_hook(Box::new(|i| { let l = i.location().unwrap().to_string(); LOC.with(|x| *x.borrow_mut() = l) }));
    let mut tot = Stats::default(); let mut skips = std::collections::BTreeMap::new(); let mut bads: std::collections::BTreeMap<String, (u64, u64, String)> = Default::default();
    let (mut traps, mut ops, mut steps) = (0, 0u64, 0);
    for seed in s0..s0 + n {
        let mut r = Rng::new(seed);
        let sc = gen_scen(&mut r, &ScenProf::default());
        if a.get(3).map(|s| s == "dump").unwrap_or(false) { for (i, m) in sc.modules.iter().enumerate() { std::fs::write(format!("/tmp/m{i}.wasm"), m).unwrap(); } for x in &sc.acts { println!("{x:x?}") } }
        if std::env::var("V").is_ok() { eprintln!("{seed}") }
        let tr = run_ref(&sc, 3_000_000);
        if let Some(s) = tr.skip { *skips.entry(s).or_insert(0) += 1 }
        traps += tr.traps; ops += tr.ops_executed; steps += tr.steps.len();
        let cfg = if rnd { Cfg::random(&mut r) } else { Cfg::default() };
        let run = run_target(&sc, &tr, &cfg);
        tot.slices += run.stats.slices; tot.suspended += run.stats.suspended; tot.bytes += run.stats.bytes; tot.events += run.stats.events; tot.refs += run.stats.refs;
        if let Some(b) = run.bad {
            let loc = LOC.with(|x| x.borrow().clone());
            let key: String = if b.contains("panic at") { format!("{} @{loc}", b.split(": ").skip(1).collect::<String>()) } else { twverif::key_of(&b) };
            let e = bads.entry(key).or_insert((0, seed, format!("{b} {cfg:?}"))); e.0 += 1;
        }
    }
    println!("traps {traps} ops {ops} steps {steps} skips {skips:?} {tot:?}");
    let mut v: Vec<_> = bads.into_iter().collect(); v.sort_by_key(|x| std::cmp::Reverse(x.1.0));
    for (k, (n, s, b)) in v { println!("{n:5} seed {s} [{k}] {}", b.chars().take(300).collect::<String>()) }
}
thread_local! { static LOC: std::cell::RefCell<String> = Default::default(); }
