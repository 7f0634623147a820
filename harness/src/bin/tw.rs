//! Runs the monitors of one property: a parent process hands seeds to worker processes and judges what they report.
//!   tw check <ID> <tier> <seed> <root> [deadline seconds]
//!   tw work <monitor>            (reads "seed count" lines, reports on stdout)
//!   tw one <monitor> <seed>      (one unit, verbose)
use std::collections::{BTreeMap, BTreeSet, HashSet, VecDeque};
use std::io::{BufRead, BufReader, Write};
use std::os::unix::process::ExitStatusExt;
use std::process::{Child, ChildStdin, Command, Stdio};
use std::sync::mpsc::{channel, RecvTimeoutError, Sender};
use std::time::{Duration, Instant};
use twverif::mon::{unit, Obs};
use twverif::plan::{plan, Job};

fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("work") => work(&a[2]),
        // the results of one numeric case per line of input
        Some("digests") => { let c = a[2].clone(); on_big_stack(move || { quiet_panics(); let mut l = String::new(); loop { l.clear(); if std::io::stdin().lock().read_line(&mut l).unwrap_or(0) == 0 { return } println!("{}", twverif::m_num::digests(&c, l.trim().parse().unwrap())) } }) }
        Some("one") => one(&a[2], a[3].parse().expect("seed")),
        Some("check") => std::process::exit(check(&a[2], &a[3], a[4].parse().expect("seed"), &a[5], a.get(6).and_then(|s| s.parse().ok()))),
        // tw gencases <ID> <tier> <seed> <dir>: writes the case files its jobs under Miri read
        Some("gencases") => { let p = plan(&a[2], a[3] == "thorough").expect("plan"); for j in p.jobs.iter().filter(|j| j.mon == "miri") { let b = base_seed(a[4].parse().expect("seed"), "miri"); for s in b..b + j.units { std::fs::write(format!("{}/{s}.case", a[5]), twverif::mon::miri_case(s)).unwrap() } } }
        _ => { eprintln!("usage: tw check|work|one"); std::process::exit(2) }
    }
}
use twverif::mon::LOC;
fn quiet_panics() { if std::env::var("LOUD").is_ok() { return } std::panic::set_hook(Box::new(|i| { if let Some(l) = i.location() { LOC.with(|x| *x.borrow_mut() = l.to_string()) } })) }
fn on_big_stack(f: impl FnOnce() + Send + 'static) { std::thread::Builder::new().stack_size(1 << 30).spawn(f).unwrap().join().unwrap() }

fn one(mon: &str, seed: u64) {
    let mon = mon.to_string();
    on_big_stack(move || {
        quiet_panics();
        let mut o = Obs::default();
        match unit(&mon, seed, &mut o) {
            Ok(()) => println!("ok {:?} {:?}", o.n, o.samples),
            Err(b) => {
                println!("VIOLATED: {}\n(last panic at {})", b.what, LOC.with(|x| x.borrow().clone()));
                if let Ok(d) = std::env::var("DUMP") { std::fs::create_dir_all(&d).unwrap(); for (n, c) in b.files { std::fs::write(format!("{d}/{n}"), c).unwrap(); } }
                std::process::exit(1)
            }
        }
    })
}
fn work(mon: &str) {
    let mon = mon.to_string();
    on_big_stack(move || {
        quiet_panics();
        let out = std::io::stdout();
        let stdin = std::io::stdin();
        let mut line = String::new();
        loop {
            line.clear();
            if stdin.lock().read_line(&mut line).unwrap_or(0) == 0 { return }
            let v: Vec<u64> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
            let mut o = Obs::default();
            for s in v[0]..v[0] + v[1] {
                { let mut w = out.lock(); writeln!(w, "U {s}").unwrap(); w.flush().unwrap(); }
                let t = Instant::now(); let u = unit(&mon, s, &mut o);
                if t.elapsed().as_millis() > 1500 && std::env::var_os("TW_SLOW").is_some() { eprintln!("slow: {mon} {s} {:?}", t.elapsed()) }
                if let Err(b) = u {
                    let loc = LOC.with(|x| x.borrow().clone());
                    let what = if b.what.contains("panic at") { format!("{} [{loc}]", b.what) } else { b.what };
                    let files: Vec<serde_json::Value> = b.files.iter().map(|(n, c)| serde_json::json!([n, hex(c)])).collect();
                    let mut w = out.lock(); writeln!(w, "V {}", serde_json::json!({"seed": s, "what": what, "files": files})).unwrap(); w.flush().unwrap();
                }
            }
            let j = serde_json::json!({"n": o.n, "sets": o.sets, "distinct": o.distinct, "samples": o.samples});
            let mut w = out.lock(); writeln!(w, "D {j}").unwrap(); w.flush().unwrap();
        }
    })
}
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }

enum Msg { Line(usize, String), Eof(usize) }
struct Worker { child: Child, stdin: ChildStdin, job: usize, range: Option<(u64, u64)>, cur: u64, since: Instant, gen: usize }
fn spawn(id: usize, gen: usize, job: usize, j: &Job, exe: &str, tx: &Sender<(usize, Msg)>) -> Worker {
    let exe = j.exe.clone().unwrap_or(exe.to_string());
    let mut c = Command::new(&exe);
    c.arg("work").arg(&j.mon).stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::null());
    if let Ok(d) = std::env::var("TW_STDERR") { if let Ok(f) = std::fs::OpenOptions::new().create(true).append(true).open(d) { c.stderr(f); } }
    for (k, v) in &j.env { c.env(k, v); }
    let mut child = c.spawn().unwrap_or_else(|e| { eprintln!("cannot start {exe}: {e}"); std::process::exit(2) });
    let stdin = child.stdin.take().unwrap(); let so = child.stdout.take().unwrap(); let tx = tx.clone();
    std::thread::spawn(move || { for l in BufReader::new(so).lines() { match l { Ok(l) => { if tx.send((gen, Msg::Line(id, l))).is_err() { return } } Err(_) => break } } let _ = tx.send((gen, Msg::Eof(id))); });
    Worker { child, stdin, job, range: None, cur: 0, since: Instant::now(), gen }
}

struct Viol { mon: String, seed: u64, what: String, files: Vec<(String, Vec<u8>)> }

fn check(id: &str, tier: &str, vseed: u64, root: &str, deadline: Option<u64>) -> i32 {
    let t0 = Instant::now(); let mut hangs = 0;
    let exe = std::env::current_exe().unwrap().to_str().unwrap().to_string();
    let p = match plan(id, tier == "thorough") { Some(p) => p, None => { eprintln!("no plan for {id}"); return 2 } };
    let deadline = Duration::from_secs(deadline.unwrap_or(if tier == "thorough" { 780 } else { 240 }));
    let nw: usize = std::env::var("TW_JOBS").ok().and_then(|s| s.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(8).min(16));
    // interleave the batches of all jobs, so that a run cut short still covers each
    let mut queue: VecDeque<(usize, u64, u64)> = VecDeque::new();
    let mut all: Vec<(u64, usize, u64, u64)> = vec![];
    for (ji, j) in p.jobs.iter().enumerate() {
        let mut s = 0; let base = base_seed(vseed, &j.mon) + if j.exe.is_some() && j.mon != "miri" { 1 << 40 } else { 0 };
        while s < j.units { let n = j.batch.min(j.units - s); all.push((s * 1_000_000 / j.units.max(1), ji, base + s, n)); s += n }
    }
    all.sort();
    for (_, j, s, n) in all { queue.push_back((j, s, n)) }
    let total_batches = queue.len();
    let (tx, rx) = channel();
    let mut ws: Vec<Option<Worker>> = (0..nw).map(|_| None).collect();
    let mut gen = 0;
    let mut n: BTreeMap<String, u64> = BTreeMap::new(); let mut by_mon: BTreeMap<String, BTreeMap<String, u64>> = BTreeMap::new();
    let mut sets: BTreeMap<String, BTreeSet<String>> = BTreeMap::new(); let mut distinct: HashSet<u64> = HashSet::new(); let mut samples: Vec<String> = vec![]; let mut sampled: BTreeMap<usize, usize> = BTreeMap::new();
    let mut viols: Vec<Viol> = vec![]; let mut inconclusive: Vec<String> = vec![]; let mut crashes: BTreeMap<(usize, u64), u32> = BTreeMap::new();
    let mut done_batches = 0; let mut cut = false;
    let mut first_viol: Option<Instant> = None;
    loop {
        // hand out work
        if !viols.is_empty() && first_viol.is_none() { first_viol = Some(Instant::now()) }
        let since_viol = first_viol.map(|t| t.elapsed().as_secs()).unwrap_or(0);
        let stop = viols.len() >= 3 || since_viol > 10 || t0.elapsed() > deadline;
        if since_viol > 25 { cut = true; break }
        if stop && !queue.is_empty() { cut = true; queue.clear() }
        for id in 0..nw {
            if ws[id].as_ref().map(|w| w.range.is_some()).unwrap_or(false) { continue }
            let Some((ji, s, k)) = queue.pop_front() else { continue };
            if ws[id].as_ref().map(|w| w.job != ji && (p.jobs[w.job].mon != p.jobs[ji].mon || p.jobs[w.job].exe != p.jobs[ji].exe)).unwrap_or(true) {
                if let Some(mut w) = ws[id].take() { let _ = w.child.kill(); let _ = w.child.wait(); }
                gen += 1; ws[id] = Some(spawn(id, gen, ji, &p.jobs[ji], &exe, &tx));
            }
            let w = ws[id].as_mut().unwrap();
            w.range = Some((s, k)); w.cur = s; w.since = Instant::now(); w.job = ji;
            let _ = writeln!(w.stdin, "{s} {k}").and_then(|_| w.stdin.flush());
        }
        if ws.iter().all(|w| w.as_ref().map(|w| w.range.is_none()).unwrap_or(true)) && queue.is_empty() { break }
        if t0.elapsed() > deadline + Duration::from_secs(60) { cut = true; break }
        match rx.recv_timeout(Duration::from_millis(500)) {
            Ok((g, Msg::Line(id, l))) => {
                let Some(w) = ws[id].as_mut() else { continue }; if w.gen != g { continue }
                if let Some(x) = l.strip_prefix("U ") { w.cur = x.parse().unwrap_or(0); w.since = Instant::now() }
                else if let Some(x) = l.strip_prefix("V ") {
                    if p.jobs[w.job].only_fatal { *n.entry("deviations_left_to_other_properties".into()).or_default() += 1 }
                    else if let Ok(j) = serde_json::from_str::<serde_json::Value>(x) {
                        let files = j["files"].as_array().map(|a| a.iter().map(|f| (f[0].as_str().unwrap().to_string(), unhex(f[1].as_str().unwrap()))).collect()).unwrap_or_default();
                        viols.push(Viol { mon: p.jobs[w.job].mon.clone(), seed: j["seed"].as_u64().unwrap(), what: j["what"].as_str().unwrap().into(), files });
                    }
                } else if let Some(x) = l.strip_prefix("D ") {
                    done_batches += 1; w.range = None;
                    if let Ok(j) = serde_json::from_str::<serde_json::Value>(x) {
                        let jb = &p.jobs[w.job]; let m = by_mon.entry(match &jb.exe { Some(e) => format!("{} ({})", jb.mon, e.split('/').find(|x| x.starts_with("target-") || *x == "w32").unwrap_or("miri")), None => jb.mon.clone() }).or_default();
                        for (k, v) in j["n"].as_object().unwrap() { let v = v.as_u64().unwrap(); *n.entry(k.clone()).or_default() += v; *m.entry(k.clone()).or_default() += v }
                        for (k, v) in j["sets"].as_object().unwrap() { let s = sets.entry(k.clone()).or_default(); for x in v.as_array().unwrap() { s.insert(x.as_str().unwrap().into()); } }
                        for d in j["distinct"].as_array().unwrap() { distinct.insert(d.as_u64().unwrap()); }
                        for s in j["samples"].as_array().unwrap() { let c = sampled.entry(w.job).or_default(); if *c < 2 && samples.len() < 8 { *c += 1; samples.push(format!("[{}] {}", p.jobs[w.job].mon, s.as_str().unwrap())) } }
                    }
                }
            }
            Ok((g, Msg::Eof(id))) => {
                if ws[id].as_ref().map(|w| w.gen != g).unwrap_or(true) { continue }
                let mut w = ws[id].take().unwrap();
                let st = w.child.wait().unwrap();
                if let Some((s, k)) = w.range {
                    let j = &p.jobs[w.job];
                    let c = crashes.entry((w.job, w.cur)).or_default(); *c += 1;
                    let what = match st.signal() { Some(s) => format!("killed by signal {s}"), None => format!("exited with {:?}", st.code()) };
                    let fatal = matches!(st.signal(), Some(4 | 6 | 7 | 8 | 11)) || j.exit_is_report && st.code().is_some();
                    if *c < 3 && fatal { queue.push_front((w.job, w.cur, 1)) }
                    else if fatal {
                        let (again, text) = rerun(&exe, j, w.cur);
                        let oom = text.contains("memory allocation of") || text.contains("out of memory");
                        if again && !oom { viols.push(Viol { mon: j.mon.clone(), seed: w.cur, what: format!("the process running this case was {what}, every time: {}", text.chars().take(1500).collect::<String>()), files: vec![("stderr.txt".into(), text.into_bytes())] }) }
                        else { inconclusive.push(format!("{} seed {}: {what}: {}", j.mon, w.cur, text.chars().take(200).collect::<String>())) }
                    } else { inconclusive.push(format!("{} seed {}: {what}", j.mon, w.cur)) }
                    if *crashes.get(&(w.job, w.cur)).unwrap() == 1 && w.cur + 1 < s + k { queue.push_front((w.job, w.cur + 1, s + k - w.cur - 1)) }
                }
            }
            Err(RecvTimeoutError::Timeout) => {}
            Err(_) => break,
        }
        for id in 0..nw {
            let Some(w) = ws[id].as_ref() else { continue };
            let j = &p.jobs[w.job];
            if w.range.is_some() && w.since.elapsed() > Duration::from_secs(j.watchdog) {
                let mut w = ws[id].take().unwrap(); let _ = w.child.kill(); let _ = w.child.wait();
                // does it stop at all? on its own, with twice the time, judged by the processor time it used
                let verdict = if hangs < 2 { hangs += 1; hang(&exe, j, w.cur) } else { None };
                for w in ws.iter_mut().flatten() { w.since = Instant::now() }
                match verdict {
                    Some(t) => { viols.push(Viol { mon: j.mon.clone(), seed: w.cur, what: format!("this case never finishes: {t}"), files: vec![] }); queue.clear(); }
                    None => inconclusive.push(format!("{} seed {}: no answer within {} s", j.mon, w.cur, j.watchdog)),
                }
                let (s, k) = w.range.unwrap(); if w.cur + 1 < s + k && inconclusive.len() < 40 { queue.push_back((w.job, w.cur + 1, s + k - w.cur - 1)) }
            }
        }
    }
    for w in ws.iter_mut().flatten() { let _ = w.child.kill(); let _ = w.child.wait(); }
    // verdict
    let known = known_findings(root, id);
    let mut code = 0; let mut reported: BTreeSet<String> = BTreeSet::new(); let mut vlist = vec![]; let mut known_hit: BTreeSet<String> = BTreeSet::new();
    for v in &viols {
        if let Some(k) = known.iter().find(|k| v.what.contains(k.as_str())) { known_hit.insert(k.clone()); continue }
        let key = format!("{} {}", v.mon, twverif::key_of(&v.what));
        if !reported.insert(key) { continue }
        code = 1;
        let dir = format!("{root}/out/{id}-{}-{}", v.mon.replace(':', "_"), v.seed);
        let _ = std::fs::create_dir_all(&dir);
        for (n, c) in &v.files { let _ = std::fs::write(format!("{dir}/{n}"), c); }
        let _ = std::fs::write(format!("{dir}/README.txt"), format!("property {id}\nmonitor {}\nseed {}\nreplay: {exe} one {} {}\n\n{}\n", v.mon, v.seed, v.mon, v.seed, v.what).replace("replay: ", if v.what.contains("[32-bit build]") { "replay (with w32/run.sh for the program): " } else { "replay: " }));
        println!("{}", v.what.chars().take(600).collect::<String>());
        println!("VIOLATION property={id} replay={dir}");
        vlist.push(serde_json::json!({"monitor": v.mon, "seed": v.seed, "what": v.what.chars().take(600).collect::<String>(), "replay": dir}));
    }
    for k in &known_hit { println!("KNOWN-FINDING: property={id} {k}") }
    let evals = n.get("evaluations").copied().unwrap_or(0);
    for (i, x) in p.min.iter().enumerate() { let _ = i; if code == 0 && !cut { let v = n.get(&x.0).copied().unwrap_or(0); if v < x.1 { eprintln!("{id}: observed only {v} {} (expected at least {}); not a verdict", x.0, x.1); code = 2 } } }
    if code == 0 && distinct.is_empty() { eprintln!("{id}: nothing was observed"); code = 2 }
    if code == 0 && !inconclusive.is_empty() && inconclusive.len() as u64 * 20 > evals { eprintln!("{id}: too many inconclusive cases: {:?}", &inconclusive[..inconclusive.len().min(5)]); code = 2 }
    let sets_j: BTreeMap<String, serde_json::Value> = sets.iter().map(|(k, v)| (k.clone(), serde_json::json!({"count": v.len(), "members": v.iter().take(400).collect::<Vec<_>>()}))).collect();
    let ev = serde_json::json!({
        "property": id, "tier": tier, "seed": vseed, "level": p.level, "wall_s": t0.elapsed().as_secs_f64(),
        "coverage": { "evaluations": evals, "distinct_nontrivial": distinct.len(), "rule": p.rule, "samples": samples, "observed": n, "observed_by_monitor": by_mon, "observed_sets": sets_j,
            "batches_done": done_batches, "batches_planned": total_batches, "cut_short_by_deadline": cut, "inconclusive": inconclusive, "monitors": p.jobs.iter().map(|j| serde_json::json!({"monitor": j.mon, "units_planned": j.units, "build": j.exe.as_ref().map(|e| e.split('/').find(|x| x.starts_with("target-") || *x == "w32").unwrap_or("miri"))})).collect::<Vec<_>>() },
        "violations": vlist, "assumptions": p.assumptions,
    });
    let _ = std::fs::create_dir_all(format!("{root}/evidence"));
    if let Err(e) = std::fs::write(format!("{root}/evidence/{id}.json"), serde_json::to_string_pretty(&ev).unwrap() + "\n") { eprintln!("evidence: {e}"); return 2 }
    println!("{id} {tier}: {evals} evaluations, {} distinct, {} batches of {total_batches}, {} inconclusive, {} violations, {:.1} s", distinct.len(), done_batches, inconclusive.len(), vlist.len(), t0.elapsed().as_secs_f64());
    code
}
fn base_seed(vseed: u64, mon: &str) -> u64 { (twverif::hash_bytes(format!("{vseed}/{mon}").as_bytes()) >> 20) << 4 }
/// Runs one case on its own for up to 200 s. If it is still busy after more than 150 s of processor time, or blocked, says so.
fn hang(exe: &str, j: &Job, seed: u64) -> Option<String> {
    let exe = j.exe.clone().unwrap_or(exe.to_string());
    let mut c = Command::new(exe); c.arg("one").arg(&j.mon).arg(seed.to_string()).stdin(Stdio::null()).stdout(Stdio::null()).stderr(Stdio::null()); for (k, v) in &j.env { c.env(k, v); }
    let mut c = c.spawn().ok()?;
    let t = Instant::now();
    let cpu = |pid: u32| -> f64 { let s = std::fs::read_to_string(format!("/proc/{pid}/stat")).unwrap_or_default(); let f: Vec<&str> = s.rsplit(") ").next().unwrap_or("").split(' ').collect(); (f.get(11).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0) + f.get(12).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0)) / 100.0 };
    while t.elapsed() < Duration::from_secs(200) { if let Ok(Some(_)) = c.try_wait() { return None } std::thread::sleep(Duration::from_millis(50)); }
    let used = cpu(c.id());
    let _ = c.kill(); let _ = c.wait();
    if used > 150.0 { Some(format!("still running after {used:.0} s of processor time; such cases take milliseconds")) } else if used < 5.0 && j.mon.starts_with("threads") { Some(format!("blocked: after 200 s it has used {used:.1} s of processor time")) } else { None }
}
/// Runs one case on its own, up to 120 s; true if it died the same way again.
fn rerun(exe: &str, j: &Job, seed: u64) -> (bool, String) {
    let exe = j.exe.clone().unwrap_or(exe.to_string());
    let mut c = Command::new("timeout"); c.arg("-s").arg("KILL").arg("120").arg(exe).arg("one").arg(&j.mon).arg(seed.to_string()).stdin(Stdio::null()); for (k, v) in &j.env { c.env(k, v); }
    match c.output() { Ok(o) => (o.status.code().map(|c| c != 0 && c != 1 && c != 137).unwrap_or(true) && o.status.signal() != Some(9), String::from_utf8_lossy(&o.stderr).into_owned()), Err(e) => (false, e.to_string()) }
}
/// Lines "finding: property=<id> key=<text found in the report>" of the committed list.
fn known_findings(root: &str, id: &str) -> Vec<String> {
    std::fs::read_to_string(format!("{root}/known-findings.txt")).unwrap_or_default().lines().filter_map(|l| l.strip_prefix(&format!("finding: property={id} key="))).map(|s| s.trim().to_string()).collect()
}
