//! Monitors. A monitor runs one unit of work from a seed and judges every observation it makes against its oracle.
use crate::rng::Rng;
use crate::scen::*;
use crate::target::*;
use std::collections::{BTreeMap, BTreeSet};

/// What a worker observed.
#[derive(Default)]
pub struct Obs { pub n: BTreeMap<String, u64>, pub sets: BTreeMap<String, BTreeSet<String>>, pub distinct: Vec<u64>, pub samples: Vec<String> }
impl Obs {
    pub fn add(&mut self, k: &str, v: u64) { if v > 0 { if let Some(x) = self.n.get_mut(k) { *x += v } else { self.n.insert(k.into(), v); } } }
    pub fn inc(&mut self, k: &str) { self.add(k, 1) }
    pub fn note(&mut self, set: &str, v: &str) { let s = match self.sets.get_mut(set) { Some(s) => s, None => self.sets.entry(set.into()).or_default() }; if !s.contains(v) && s.len() < 600 { s.insert(v.into()); } }
    /// one distinct, non-trivial case
    pub fn case(&mut self, h: u64, sample: impl FnOnce() -> String) { self.distinct.push(h); if self.samples.len() < 2 { let s = sample(); self.samples.push(s.chars().take(700).collect()) } }
}
pub struct Bad { pub what: String, pub files: Vec<(String, Vec<u8>)> }
impl Bad { pub fn new(what: impl Into<String>) -> Bad { Bad { what: what.into(), files: vec![] } } }
impl From<String> for Bad { fn from(s: String) -> Bad { Bad::new(s) } }
pub type R = Result<(), Bad>;

thread_local! { /// where the last panic was
 pub static LOC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) }; }
/// A panic of the code under test is a violation; one of the monitor itself is not a verdict.
pub fn unit(mon: &str, seed: u64, o: &mut Obs) -> R {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| unit_inner(mon, seed, o)));
    match r {
        Ok(r) => r,
        Err(e) => { let l = LOC.with(|x| x.borrow().clone()); if in_target(&l) { Err(Bad::new(format!("panic at {l}: {}", panic_text(e)))) } else { std::panic::resume_unwind(e) } }
    }
}
pub fn in_target(loc: &str) -> bool { ["crates/tinywasm/", "crates/parser/", "crates/types/"].iter().any(|x| loc.contains(x)) }
fn unit_inner(mon: &str, seed: u64, o: &mut Obs) -> R {
    if mon != "verdict" { o.inc("evaluations") }
    if let Some(p) = mon.strip_prefix("scen:") { return scen_unit(p, seed, o) }
    if let Some(p) = mon.strip_prefix("bare:") { return crate::m_num::num_bare(p, seed, o) }
    if let Some(p) = mon.strip_prefix("num:") { return crate::m_num::num(p, seed, o) }
    match mon {
        "verdict" => return crate::m_parse::verdict(seed, o),
        "threads" => return crate::m_parse::threads(seed, o),
        "archive" => return crate::m_parse::archive(seed, o),
        "budget" => return crate::m_exec::budget(seed, o),
        "limits" => return crate::m_exec::limits(seed, o),
        "tail" => return crate::m_exec::tail(seed, o),
        "after" => return crate::m_exec::after(seed, o),
        "busy" => return crate::m_exec::busy(seed, o),
        "links" => return crate::m_link::links(seed, o),
        "drops" => return crate::m_weave::drops(seed, o),
        "hostacc" => return crate::m_api::hostacc(seed, o),
        "vast" => return crate::m_vast::vast(seed, o),
        "api" => return crate::m_api::api(seed, o),
        "cli" => return crate::m_cli::cli(seed, o),
        "describe" => return crate::m_parse::describe(seed, o),
        _ => {}
    }
    Err(Bad::new(format!("no such monitor {mon}")))
}

pub fn scen_files(sc: &Scen) -> Vec<(String, Vec<u8>)> {
    let mut f: Vec<(String, Vec<u8>)> = sc.modules.iter().enumerate().map(|(i, b)| (format!("m{i}.wasm"), b.clone())).collect();
    f.push(("actions.txt".into(), sc.acts.iter().enumerate().map(|(i, a)| format!("{i}: {a:x?}\n")).collect::<String>().into_bytes()));
    f
}
pub fn scen_hash(sc: &Scen) -> u64 { let mut h = 7u64; for m in &sc.modules { h = h.rotate_left(9) ^ crate::hash_bytes(m) } h.rotate_left(9) ^ crate::hash_bytes(format!("{:?}", sc.acts).as_bytes()) }

fn prof(p: &str, r: &mut Rng) -> ScenProf {
    let mut s = ScenProf::default();
    // a little variation everywhere
    s.p.budget = *r.pick(&[40, 80, 120, 120, 200, 400]);
    s.p.depth = r.range(3, 7);
    s.calls = r.range(4, 14);
    match p {
        "C01" => { s.p.simd = if r.chance(1, 5) { 6 } else { 0 }; s.p.float = r.chance(2, 3); s.p.mem_w = r.range(3, 12) as u32; s.p.ctrl = r.range(12, 30) as u32; s.p.trap = r.range(1, 8) as u32; s.mods = r.range(1, 2); }
        "C02" => { s.p.idiom = r.range(20, 60) as u32; s.p.simd = if r.chance(1, 4) { 8 } else { 1 }; s.p.float = r.chance(1, 2); s.p.ctrl = r.range(10, 26) as u32; s.mods = 1; s.p.refs = r.chance(1, 4); s.p.mem64 = *r.pick(&[0, 20, 50]); }
        "C03" => { s.p.float = true; s.p.simd = 0; s.p.refs = false; s.p.idiom = 30; s.mods = 1; s.p.mems = 1; s.p.tables = 0; }
        "C04" => { s.p.simd = 60; s.p.float = true; s.p.refs = false; s.mods = 1; s.p.mem_w = 16; }
        "C05" => { s.p.mem_w = 40; s.p.bulk = 25; s.p.mems = 3; s.p.mem64 = *r.pick(&[0, 30, 100]); s.p.page1 = *r.pick(&[0, 20, 100]); s.p.trap = *r.pick(&[5, 30, 70]); s.p.grow = 8; s.p.simd = *r.pick(&[0, 10, 25]); s.p.idiom = *r.pick(&[0, 20]); s.p.refs = false; s.mods = r.range(1, 2); s.hostops = 10; s.calls = 14; }
        "C06" => { s.p.mem_w = 40; s.p.bulk = 30; s.p.mems = 2; s.p.mem64 = *r.pick(&[0, 30]); s.p.page1 = *r.pick(&[0, 30, 100]); s.p.trap = 10; s.p.grow = 12; s.p.simd = *r.pick(&[0, 10]); s.p.refs = false; s.mods = 1; s.hostops = 40; s.hostmem = 60; s.calls = 14; s.host = 30; }
        "C07" => { s.p.tables = 3; s.p.table_w = 40; s.p.table64 = *r.pick(&[0, 25, 100]); s.p.mems = 1; s.p.mem_w = 2; s.p.simd = 0; s.p.float = r.chance(1, 3); s.p.trap = *r.pick(&[3, 20]); s.p.call_w = 14; s.mods = 3; s.import = 80; s.hostops = 20; s.hostmem = 50; s.p.table_init = 25; }
        "C08" => { s.host = 75; s.reenter = 25; s.p.ctrl = 26; s.p.call_w = 14; s.p.tail = 8; s.p.simd = 3; s.mods = 2; }
        "C10" => { s.host = 100; s.reenter = 70; s.fail = 25; s.p.call_w = 22; s.p.tail = 8; s.mods = r.range(1, 3); s.import = 100; s.p.simd = if r.chance(1, 3) { 10 } else { 0 }; }
        "C11" => { s.p.trap = *r.pick(&[20, 50, 80]); s.p.unreach = 8; s.calls = 20; s.host = 60; s.fail = 40; s.reenter = 25; s.p.call_w = 14; s.mods = 2; }
        "C12" => { s.p.call_w = 30; s.p.tail = 50; s.p.simd = 4; s.mods = 2; s.host = 50; }
        "C13" => { s.p.start = 70; s.p.bad_seg = *r.pick(&[0, 10, 40]); s.p.table_init = 40; s.p.trap = 15; s.mods = 4; s.import = 80; s.hostmem = 80; s.host = 70; s.fail = 30; s.calls = 4; s.p.nfuncs = 4; s.p.budget = 60; }
        "C14" => { s.mods = 4; s.import = 100; s.mismatch = *r.pick(&[0, 15, 40]); s.hostmem = 90; s.host = 90; s.calls = 4; s.p.nfuncs = 3; s.p.budget = 40; s.hostops = 30; s.p.mem64 = 30; s.p.page1 = 30; s.p.table64 = 30; s.p.bad_seg = 0; }
        "C15" => { s.mods = 2; s.p.simd = 12; s.p.table_init = 25; }
        "C19" => { s.mods = 4; s.import = 100; s.hostmem = 90; s.host = 60; s.reenter = 30; s.hostops = 25; s.p.global_w = 16; s.p.mem_w = 16; s.p.table_w = 10; s.p.bulk = 8; }
        "C21" => { s.p.simd = 20; s.p.mem_w = 16; s.p.table_w = 8; }
        "C23" => { s.mods = 3; s.import = 70; s.p.mem_w = *r.pick(&[0, 0, 1, 4, 20]); s.p.bulk = *r.pick(&[0, 4, 10]); s.p.grow = *r.pick(&[0, 3, 20]); s.p.mems = 3; s.p.page1 = *r.pick(&[0, 30]); s.hostops = *r.pick(&[0, 30, 60]); s.p.nfuncs = r.range(1, 4); s.p.budget = *r.pick(&[8, 20, 60]); s.host = 40; s.hostmem = 20; s.p.idiom = *r.pick(&[0, 20, 40]); s.p.simd = *r.pick(&[0, 10]); }
        "C24" => { s.hostops = 70; s.hostmem = 100; s.mods = 2; s.import = 80; s.calls = 30; s.p.page1 = 40; }
        _ => {}
    }
    s
}
fn cfgs(p: &str, r: &mut Rng, scalar: bool) -> Vec<Cfg> {
    let base = Cfg { slice: if r.chance(1, 2) { Slice::Direct } else { Slice::Fuel(1_000_000) }, ..Cfg::default() };
    let base = if p == "C23" { Cfg { sparse: r.chance(3, 4), ..base } } else { base };
    match p {
        "C02" | "peep" => vec![base.clone(), Cfg { opt: false, alloc: r.chance(1, 2), ..base.clone() }],
        "C06" => vec![base.clone(), Cfg { back: Back::Paged(1 << r.range(0, 6)), ..base.clone() }, Cfg { back: Back::Paged(1 << r.range(7, 17)), ..base.clone() }, Cfg { back: Back::Custom(r.range(1, 5000)), ..base.clone() }, Cfg { back: Back::Lazy, ..base.clone() }, Cfg { back: Back::LazyPaged(1 << r.range(3, 14)), ..base }],
        "C08" => vec![Cfg { slice: Slice::Fuel(*r.pick(&[1, 1, 2, 3, 127, 128, 129, 300])), weighted: r.chance(1, 2), ..base.clone() }, Cfg { slice: Slice::Rnd(r.u64()), weighted: r.chance(1, 2), ..base.clone() }, Cfg { slice: Slice::Time(*r.pick(&[1, 500, 5000])), ..base.clone() }, Cfg { slice: Slice::Mixed(r.u64()), ..base.clone() }, Cfg { slice: Slice::Direct, ..base }],
        "C15" => vec![Cfg { parse: ParseMode::Archive, ..Cfg::random(r) }],
        "C23" => vec![Cfg { alloc: true, ..base.clone() }, Cfg { alloc: true, opt: false, ..base.clone() }, Cfg { alloc: false, ..base.clone() }, Cfg { alloc: true, back: Back::Custom(r.range(1, 5000)), ..base }],
        "C12" => vec![Cfg { stack: Some((tinywasm::engine::StackConfig::dynamic(r.below(8), 16384), tinywasm::engine::StackConfig::dynamic(r.below(8), 400))), ..Cfg::random(r) }],
        "C01" | "C03" | "C04" | "C05" | "C07" | "C13" | "C14" => if r.chance(2, 3) { vec![base] } else { vec![Cfg::random(r)] },
        _ => { let _ = scalar; vec![base, Cfg::random(r)] }
    }
}

pub fn trace_obs(tr: &Trace, o: &mut Obs) {
    o.add("actions_compared", tr.steps.len() as u64); o.add("guest_calls", tr.calls); o.add("guest_calls_ending_in_trap", tr.traps); o.add("guest_instructions_executed", tr.ref_steps);
    o.add("host_calls_compared", tr.host_calls); o.add("failed_instantiations", tr.failed_inst);
    if let Some(s) = tr.skip { o.inc(&format!("traces_cut:{s}")) }
    for x in &tr.ops { o.note("instructions", x) }
    for s in &tr.steps { match &s.out { Out::Trap(t) => o.note("traps", if t.starts_with("host:") { "host error" } else { t }), Out::Link(l) => o.note("link_errors", l), _ => {} } }
}
pub fn run_obs(s: &Stats, o: &mut Obs) {
    o.add("slices", s.slices); o.add("resumed_after_the_end", s.after); o.add("suspensions", s.suspended); o.add("memory_bytes_compared", s.bytes); o.add("table_slots_compared", s.refs); o.add("backend_calls", s.mem_calls); o.add("backend_short_transfers", s.mem_short);
}

fn scen_unit(p: &str, seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed);
    // generator, and whose configurations it runs under
    let (p, pc) = p.split_once('@').unwrap_or((p, p));
    let wide = p == "wide";
    let p = if wide { *r.pick(&["weave", "peep", "peep", "lone", pc, pc, pc, pc]) } else { p };
    let sp = prof(p, &mut r);
    let mut sc = if p == "weave" { crate::m_weave::gen_weave(&mut r) } else if p == "peep" { crate::m_peep::gen_peep(&mut r) } else if p == "lone" { crate::m_lone::gen_lone(&mut r) } else if p == "big" { crate::m_big::gen_big(&mut r, pc) } else { gen_scen(&mut r, &sp) };
    if wide { crate::m_wide::widen_scen(&mut r, &mut sc, o); }
    let tr = run_ref(&sc, 2_000_000);
    trace_obs(&tr, o);
    if tr.ops_executed > 0 { o.case(scen_hash(&sc), || format!("seed {seed}: {} module(s) of {:?} bytes; actions {:x?}", sc.modules.len(), sc.modules.iter().map(|m| m.len()).collect::<Vec<_>>(), sc.acts)) }
    let differential = matches!(pc, "C06" | "C08" | "C15" | "C23");
    for mut cfg in cfgs(pc, &mut r, true) {
        if wide { if let Some((v, _)) = &mut cfg.stack { *v = tinywasm::engine::StackConfig::dynamic(v.initial_size, 65536) } }
        if sc.big {
            cfg.stack = Some((tinywasm::engine::StackConfig::dynamic(cfg.stack.map_or(1000, |s| s.0.initial_size), 1 << 20), tinywasm::engine::StackConfig::dynamic(8, 400)));
            let n = 1usize << r.range(11, 22);
            cfg.back = match cfg.back { Back::Paged(_) => Back::Paged(n), Back::LazyPaged(_) => Back::LazyPaged(n), Back::Custom(_) => Back::Custom(n + r.range(0, 2) - 1), b => b };
        }
        let run = run_target(&sc, &tr, &cfg);
        o.inc("target_runs"); run_obs(&run.stats, o);
        o.note("configurations", &cfg.kind());
        if let Some(b) = run.bad {
            if differential {
                // the property is about a difference between configurations: is it there without this one?
                let plain = Cfg { opt: true, alloc: pc != "C23", slice: Slice::Fuel(1_000_000), ..Cfg::default() };
                if run_target(&sc, &tr, &plain).bad.map(|x| crate::key_of(&x)) == Some(crate::key_of(&b)) { o.inc("deviation_in_every_configuration"); return Ok(()) }
            }
            return Err(Bad { what: format!("{b}\nconfiguration: {cfg:?}"), files: scen_files(&sc) });
        }
    }
    Ok(())
}

/// One generated module and calls of its exports, as text, for the runner under Miri.
pub fn miri_case(seed: u64) -> String {
    use crate::modgen::*; use crate::refi::{Kind, Ty};
    let mut r = Rng::new(seed ^ 0x6d697269);
    let p = Prof { nfuncs: r.range(1, 3), budget: 40, depth: 4, simd: *r.pick(&[5, 30, 60]), relaxed: r.chance(1, 2), mems: 1, mem_w: *r.pick(&[4, 20]), max_pages: 1, bulk: 6, page1: 100, start: 0, ..Prof::default() };
    let imports: Vec<Import> = (0..r.below(3)).map(|k| Import { module: "h".into(), name: format!("f{k}"), ty: Imp::Func(gen_ftype(&mut r, &p)) }).collect();
    let (b, sh) = gen_module(&mut r, &p, &imports);
    let hex = |b: Vec<u8>| b.iter().map(|x| format!("{x:02x}")).collect::<String>();
    if seed % 3 == 0 {
        // the instructions with code of their own for x86, and neighbours, on operands from everywhere
        let opnd = |r: &mut Rng| match r.below(4) { 0 => "(local.get 0)".to_string(), 1 => "(local.get 1)".into(), 2 => format!("(v128.load offset={} (i32.const {}))", r.below(20), r.below(9)), _ => format!("(v128.const i64x2 {} {})", r.u64() as i64, r.u64() as i64) };
        let mut body = String::new();
        for _ in 0..r.range(3, 10) {
            let (a, b) = (opnd(&mut r), opnd(&mut r));
            let sh: String = (0..16).map(|_| format!("{} ", r.below(32))).collect();
            let e = match r.below(6) { 0 | 1 => format!("(i8x16.swizzle {a} {b})"), 2 => format!("(i8x16.relaxed_swizzle {a} {b})"), 3 | 4 => format!("(i8x16.shuffle {sh} {a} {b})"), _ => format!("(i8x16.add {a} {b})") };
            body += &match r.below(3) { 0 => format!("(local.set {} {e})", r.below(2)), 1 => format!("(v128.store offset={} (i32.const {}) {e})", r.below(20), r.below(9)), _ => format!("(local.set 1 (v128.xor {e} (local.get 0)))") };
        }
        let w = wat::parse_str(format!("(module (memory 100 100 (pagesize 1)) (data (i32.const 0) \"0123456789abcdefghijklmnopqrstuvwxyz\") (func (export \"f\") (param v128 v128) (result v128) {body} (local.get 1)))")).unwrap();
        return format!("M {}\nC f v128:{:x} v128:{:x}\n", hex(w), r.v128v(), r.v128v());
    }
    let mut t = String::from("M "); t += &hex(b); t += "\n";
    let fs: Vec<_> = sh.exports.iter().filter(|e| e.1 == Kind::Func).collect();
    for _ in 0..r.range(3, 8) { if fs.is_empty() { break } let (n, _, i) = r.pick(&fs); t += &format!("C {n}"); for p in &sh.fty(*i).params { let v = val(&mut r, *p); t += &format!(" {}:{v:x}", match p { Ty::I32 => "i32", Ty::I64 => "i64", Ty::F32 => "f32", Ty::F64 => "f64", Ty::V128 => "v128", Ty::Func => "func", Ty::Extern => "extern" }) } t += "\n"; }
    t
}
