//! Directed monitors of execution: budgets, stack limits, tail calls, leftovers of failed calls, re-entry.
use crate::mon::{Bad, Obs, R};
use crate::rng::Rng;
#[cfg(target_arch = "wasm32")]
use crate::target::NoThreads;
use crate::target::panic_text;
use std::cell::{Cell, RefCell};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::sync::atomic::{AtomicU64, Ordering::Relaxed};
use std::sync::Arc;
use std::time::Duration;
use tinywasm::engine::{Config, FuelPolicy, LinearMemory, MemoryBackend, StackConfig};
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::types::{FuncType, MemoryType, WasmType, WasmValue};
use tinywasm::{Engine, Error, ExecProgress, Function, HostFunction, Imports, Module, ModuleInstance, Store, Trap};

pub fn module(wat: &str, opt: bool) -> Module {
    let b = wat::parse_str(wat).unwrap_or_else(|e| panic!("monitor: bad text: {e}\n{wat}"));
    Parser::with_options(ParserOptions::default().with_rewrite_optimization(opt).with_parser_threads(1)).parse_module_bytes(&b).unwrap_or_else(|e| panic!("monitor: module refused (C16 decides that): {e}\n{wat}"))
}
pub fn bad(what: String, wat: &str) -> Bad { Bad { what, files: vec![("module.wat".into(), wat.as_bytes().to_vec())] } }
fn i(v: i32) -> WasmValue { WasmValue::I32(v) }

// ------------------------------------------------------------------------------------------------ fuel and time
/// Everything a slice may do beyond its budget. Today the code checks every 128 instructions.
const SLACK: u64 = 2048;
struct TickMem { d: Vec<u8>, n: Arc<AtomicU64>, limit: Arc<AtomicU64> }
impl LinearMemory for TickMem {
    fn len(&self) -> usize { self.d.len() }
    fn grow_to(&mut self, n: usize) -> Result<(), Trap> { self.d.resize(n, 0); Ok(()) }
    fn read(&self, a: usize, dst: &mut [u8]) -> usize { if a >= self.d.len() { return 0 } let n = dst.len().min(self.d.len() - a); dst[..n].copy_from_slice(&self.d[a..a + n]); n }
    fn write(&mut self, a: usize, src: &[u8]) -> usize {
        if self.n.fetch_add(1, Relaxed) + 1 > self.limit.load(Relaxed) { panic!("TICK LIMIT") }
        if a >= self.d.len() { return 0 } let n = src.len().min(self.d.len() - a); self.d[a..a + n].copy_from_slice(&src[..n]); n
    }
}
/// One store, one guest instruction at least.
const BODY: &[(&str, usize)] = &[
    ("(i32.store (i32.const 8) (i32.const 7))", 3), ("(i32.store (local.get $a) (i32.add (i32.load (local.get $a)) (i32.const 1)))", 6), ("(i64.store (local.get $a) (i64.add (i64.load (local.get $a)) (i64.const 1)))", 6),
    ("(i32.store offset=4 (local.get $a) (local.get $i))", 3), ("(i64.store (local.get $a) (local.get $w))", 3), ("(v128.store (local.get $a) (local.get $v))", 3), ("(i32.store8 (i32.const 100) (local.get $i))", 3),
    ("(f64.store (i32.const 16) (f64.add (local.get $d) (f64.mul (local.get $d) (local.get $d))))", 7), ("(memory.fill (i32.const 5) (i32.const 7) (i32.const 1))", 4), ("(memory.copy (i32.const 50) (i32.const 60) (i32.const 1))", 4), ("(memory.init $d (i32.const 0) (i32.const 1) (i32.const 1))", 4),
    ("(v128.store8_lane 3 (local.get $a) (local.get $v))", 3), ("(local.set $i (i32.add (local.get $i) (i32.const 3))) (i64.store32 (i32.const 8) (local.get $w))", 7),
];
const LOCALS: &str = "(local $a i32) (local $i i32) (local $w i64) (local $v v128) (local $d f64)";
/// A function `f` that goes on for `$n` rounds, at least one store or host call in each; -1 never ends.
fn driver(r: &mut Rng) -> (String, &'static str, u64) {
    let (mut b, mut len) = (String::new(), 0usize);
    for _ in 0..r.range(1, 4) { let (t, n) = r.pick(BODY); b += t; b += " "; len += n; }
    if r.chance(1, 3) { b += "(call $tick)"; len += 1 }
    let dec = "(global.set $n (i32.sub (global.get $n) (i32.const 1)))";
    let more = "(global.get $n)";
    let l = LOCALS;
    let k = r.below(15);
    let (name, text): (&'static str, String) = match k {
        0 => ("br_if loop", format!("(func (export \"f\") {l} (loop $l {b} {dec} (br_if $l {more})))")),
        1 => ("br loop", format!("(func (export \"f\") {l} (block $out (loop $l {b} {dec} (br_if $out (i32.eqz {more})) (br $l))))")),
        2 => ("br_table loop", format!("(func (export \"f\") {l} (block $out (loop $l {b} {dec} (br_table $out $l (i32.ne {more} (i32.const 0))))))")),
        3 => ("counted local loop", format!("(func (export \"f\") {l} (local $k i32) (local.set $k (global.get $n)) (loop $l {b} (local.set $k (i32.sub (local.get $k) (i32.const 1))) (br_if $l (local.get $k))))")),
        4 => ("compare branch loop", format!("(func (export \"f\") {l} (local $k i32) (local $e i32) (local.set $e (i32.sub (i32.const 0) (global.get $n))) (loop $l {b} (local.set $k (i32.sub (local.get $k) (i32.const 1))) (br_if $l (i32.ne (local.get $k) (local.get $e)))))")),
        5 => ("self tail call", format!("(func $f (export \"f\") {l} {b} {dec} (if {more} (then (return_call $f))))")),
        6 => ("mutual tail calls", format!("(func $f (export \"f\") {l} {b} {dec} (if {more} (then (return_call $g (i32.const 1) (i64.const 2))))) (func $g (param i32 i64) {l} {b} {dec} (if {more} (then (return_call $f))))")),
        7 => ("indirect tail call", format!("(func $f (export \"f\") {l} {b} {dec} (if {more} (then (return_call_indirect (type $v) (i32.const 0))))) (table funcref (elem $f))")),
        8 => ("calls of a leaf", format!("(func $leaf (param i32) (result i32) {l} {b} (local.get 0)) (func (export \"f\") (loop $l {dec} (drop (call $leaf (i32.const 3))) (br_if $l {more})))")),
        9 => ("indirect calls of a leaf", format!("(func $leaf (result i64) {l} {b} (local.get $w)) (table funcref (elem $leaf)) (func (export \"f\") (loop $l {dec} (drop (call_indirect (result i64) (i32.const 0))) (br_if $l {more})))")),
        10 => ("host calls", format!("(func (export \"f\") (loop $l {dec} (call $tick) (br_if $l {more})))")),
        11 => ("nested loops", format!("(func (export \"f\") {l} (local $k i32) (loop $o (local.set $k (i32.const 5)) (loop $l {b} (local.set $k (i32.sub (local.get $k) (i32.const 1))) (br_if $l (local.get $k))) {dec} (br_if $o {more})))")),
        12 => ("finite recursion", format!("(func $rec (param i32) {l} {b} (if (local.get 0) (then (call $rec (i32.sub (local.get 0) (i32.const 1)))))) (func (export \"f\") (loop $l {dec} (call $rec (i32.const 20)) (br_if $l {more})))")),
        13 => ("deep recursion", format!("(func $f (export \"f\") {l} {b} {dec} (if {more} (then (call $f))))")),
        _ => ("tail call through another instance", format!("(import \"other\" \"g\" (func $other)) @(func $f (export \"f\") {l} {b} {dec} (if {more} (then (return_call $other)))) (elem (table 0) (i32.const 0) func $f)")),
    };
    // generous: rounds * (the inner repetitions) * (body plus overhead)
    let per = (len as u64 + 20) * match k { 11 => 6, 12 => 22, _ => 2 } + 30;
    (text, name, per)
}
thread_local! { /// the length of a time slice that everything fits in
    static LONG: Cell<Option<Duration>> = const { Cell::new(None) }; }
pub fn budget(seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed);
    let (text, name, per) = driver(&mut r);
    let cross = text.contains("\"other\"");
    let (imp, rest) = match text.split_once('@') { Some((a, b)) => (a.to_string(), b.to_string()), None => (String::new(), text.clone()) };
    let wat = format!("(module (type $v (func)) {imp} {} (import \"h\" \"tick\" (func $tick)) (memory 1) (data $d \"abcdef\") (global $n (mut i32) (i32.const 0)) (func (export \"set\") (param i32) (global.set $n (local.get 0))) {rest})", if cross { "(import \"other\" \"t\" (table 1 funcref))" } else { "" });
    let opt = r.chance(3, 4); let weighted = r.chance(1, 2);
    let m = module(&wat, opt);
    let n = Arc::new(AtomicU64::new(0)); let limit = Arc::new(AtomicU64::new(u64::MAX));
    let (n2, l2) = (n.clone(), limit.clone());
    let cfg = Config::new().with_fuel_policy(if weighted { FuelPolicy::Weighted } else { FuelPolicy::PerInstruction }).with_value_stack(StackConfig::dynamic(16, 1 << 22)).with_call_stack(StackConfig::dynamic(4, 1 << 20))
        .with_memory_backend(MemoryBackend::custom(move |t: MemoryType| Ok::<_, Error>(TickMem { d: vec![0; t.initial_size() as usize], n: n2.clone(), limit: l2.clone() })));
    let mut st = Store::new(Engine::new(cfg));
    // the host function ticks as well, and watches the fuel it is shown
    #[derive(Default)] struct H { budget: Cell<u32>, last: Cell<u32>, charge: Cell<u32>, bad: RefCell<Option<String>>, calls: Cell<u64>, fueled: Cell<bool> }
    let h = Rc::new(H::default());
    let (h2, n3, l3) = (h.clone(), n.clone(), limit.clone());
    let tick = HostFunction::from(&mut st, move |mut c, _: ()| {
        h2.calls.set(h2.calls.get() + 1);
        let f = c.remaining_fuel();
        let fail = |s: String| { h2.bad.borrow_mut().get_or_insert(s); };
        if !h2.fueled.get() { if f != 0 { fail(format!("a host function called without fuel is told that {f} fuel remains")) } }
        else if f > h2.budget.get() { fail(format!("{f} fuel remains of {}", h2.budget.get())) } else if f > h2.last.get() { fail(format!("the remaining fuel went up from {} to {f} within a slice", h2.last.get())) }
        let ch = h2.charge.get();
        c.charge_fuel(ch);
        let after = c.remaining_fuel();
        if after != f.saturating_sub(ch) { fail(format!("charging {ch} fuel turned {f} into {after}")) }
        h2.last.set(after);
        if ch >= h2.budget.get() && h2.fueled.get() { let now = n3.load(Relaxed); l3.fetch_min(now + SLACK, Relaxed); }
        if n3.fetch_add(1, Relaxed) + 1 > l3.load(Relaxed) { return Err(Error::Other("TICK LIMIT".into())) }
        Ok(())
    });
    let mut im = Imports::new(); im.define("h", "tick", tick);
    if cross {
        let other = module("(module (type $v (func)) (table (export \"t\") 1 funcref) (func (export \"g\") (return_call_indirect (type $v) (i32.const 0))))", opt);
        let oi = ModuleInstance::instantiate(&mut st, &other, None).map_err(|e| bad(format!("{e:?}"), &wat))?;
        im.define("other", "g", oi.func_untyped(&st, "g").map_err(|e| bad(format!("{e:?}"), &wat))?); im.define("other", "t", oi.table("t").map_err(|e| bad(format!("{e:?}"), &wat))?);
    }
    let inst = ModuleInstance::instantiate(&mut st, &m, Some(im)).map_err(|e| bad(format!("{e:?}"), &wat))?;
    let f = inst.func_untyped(&st, "f").unwrap(); let set = inst.func_untyped(&st, "set").unwrap();
    o.note("kinds_of_program", name);
    o.case(crate::hash_bytes(wat.as_bytes()) ^ seed, || format!("seed {seed}: {name}, opt {opt}, weighted {weighted}: {}", rest.chars().take(300).collect::<String>()));
    let host = |o: &mut Obs| -> R { o.add("host_calls_watched", h.calls.take()); match h.bad.borrow_mut().take() { Some(s) => Err(bad(s, &wat)), None => Ok(()) } };
    // 1. endless: every slice comes back in time and does something
    let endless = name != "deep recursion";
    set.call(&mut st, &[i(if endless { -1 } else { 1_000_000 })]).map_err(|e| bad(format!("set: {e:?}"), &wat))?;
    {
        let mut ex = f.call_resumable(&mut st, &[]).map_err(|e| bad(format!("{e:?}"), &wat))?;
        let mut total = 0u64; let mut idle = 0;
        for k in 0..40 {
            let time = r.chance(1, 5);
            let fuel = *r.pick(&[1u32, 1, 2, 3, 64, 127, 128, 129, 200, 255, 256, 257, 1000, 1024, 5000, 20000]);
            // also longer times; nothing executes a thousand instructions in a microsecond
            let ns = if time && r.chance(1, 4) { *r.pick(&[999u64, 1_000, 50_000, 999_999, 1_000_000, 2_500_000]) } else { 1 };
            let allowed = if time { SLACK + ns } else { fuel as u64 + SLACK };
            let before = n.load(Relaxed); limit.store(before + allowed, Relaxed);
            h.fueled.set(!time); h.budget.set(fuel); h.last.set(fuel); h.charge.set(if r.chance(1, 3) { *r.pick(&[0, 1, 7, 100, 1000, u32::MAX]) } else { 0 });
            let res = catch_unwind(AssertUnwindSafe(|| if time { ex.resume_with_time_budget(Duration::from_nanos(ns)) } else { ex.resume_with_fuel(fuel) }));
            let what = format!("slice {k} of {} in an endless {name}", if time { format!("{ns} ns") } else { format!("{fuel} fuel (host functions charge {})", h.charge.get()) });
            let did = n.load(Relaxed) - before;
            o.inc("slices"); o.add("instructions_with_effects_in_slices", did);
            host(o)?;
            match res {
                Err(e) => { let t = panic_text(e); if t == "TICK LIMIT" { return Err(bad(format!("{what} stored {did} times without returning"), &wat)) } return Err(bad(format!("{what}: panic {t}"), &wat)) }
                Ok(Err(e)) => { if format!("{e}").contains("TICK LIMIT") { return Err(bad(format!("{what} stored {did} times without returning"), &wat)) } return Err(bad(format!("{what} failed: {e}"), &wat)) }
                Ok(Ok(ExecProgress::Completed(_))) => return Err(bad(format!("{what} completed"), &wat)),
                Ok(Ok(ExecProgress::Suspended)) => {}
            }
            total += did; if did == 0 { idle += 1 } else { idle = 0 }
            // a round is at most `per` instructions long, and every slice runs at least one
            if idle as u64 > per { return Err(bad(format!("{idle} slices in a row without any progress in an endless {name}"), &wat)) }
        }
        let _ = total;
        // abandoned here
    }
    limit.store(u64::MAX, Relaxed); h.charge.set(0);
    // 2. finite: finishes within as many slices as it has instructions, and does all its rounds
    let rounds = r.range(1, 30) as u64;
    let count = |st: &mut Store, slices: Option<&mut dyn FnMut() -> (bool, u64)>| -> Result<(u64, u64), String> {
        set.call(st, &[i(rounds as i32)]).map_err(|e| format!("set: {e:?}"))?;
        let before = n.load(Relaxed); let mut used = 0;
        match slices {
            None => { h.fueled.set(false); f.call(st, &[]).map_err(|e| format!("plain call failed: {e:?}"))?; }
            Some(next) => {
                let mut ex = f.call_resumable(st, &[]).map_err(|e| format!("{e:?}"))?;
                loop {
                    let (time, v) = next(); used += 1;
                    h.fueled.set(!time); h.budget.set(v as u32); h.last.set(v as u32);
                    match if time { ex.resume_with_time_budget(LONG.with(|l| l.get()).unwrap_or(Duration::from_nanos(v))) } else { ex.resume_with_fuel(v as u32) } {
                        Err(e) => return Err(format!("failed: {e:?}")), Ok(ExecProgress::Completed(_)) => break,
                        Ok(ExecProgress::Suspended) => if used > rounds * per + 100 { return Err(format!("{rounds} rounds of at most {per} instructions did not finish in {used} slices")) },
                    }
                }
            }
        }
        Ok((n.load(Relaxed) - before, used))
    };
    let one = catch_unwind(AssertUnwindSafe(|| { let mut mk = || (false, 1u64); count(&mut st, Some(&mut mk)) })).map_err(|e| bad(format!("panic {}", panic_text(e)), &wat))?.map_err(|e| bad(format!("{name} with 1 fuel per slice: {e}"), &wat))?;
    let time = count(&mut st, Some(&mut || (true, 1))).map_err(|e| bad(format!("{name} with 1 ns per slice: {e}"), &wat))?;
    let long = *r.pick(&[Duration::from_secs(3600), Duration::from_secs(u32::MAX as u64 + 1), Duration::from_nanos(u64::MAX), Duration::from_secs(u64::MAX), Duration::MAX]);
    LONG.with(|l| l.set(Some(long)));
    let hour = catch_unwind(AssertUnwindSafe(|| count(&mut st, Some(&mut || (true, 0))))).map_err(|e| bad(format!("a slice of {long:?}: panic {}", panic_text(e)), &wat))?.map_err(|e| bad(format!("{name} with a slice of {long:?}: {e}"), &wat))?;
    LONG.with(|l| l.set(None));
    if hour.1 != 1 || hour.0 != time.0 { return Err(bad(format!("{name}: {} slices of {long:?} for {rounds} rounds, {} effects instead of {}", hour.1, hour.0, time.0), &wat)) }
    let big = count(&mut st, Some(&mut || (false, 100_000_000))).map_err(|e| bad(format!("{name} with one large slice: {e}"), &wat))?;
    let plain = count(&mut st, None).map_err(|e| bad(format!("{name}: {e}"), &wat))?;
    host(o)?;
    o.add("slices_until_completion", one.1 + time.1); o.inc("terminating_calls_completed");
    if one.0 != plain.0 || time.0 != plain.0 || big.0 != plain.0 { return Err(bad(format!("{name}: {} effects in a plain call, {} with 1 fuel per slice, {} with 1 ns, {} in one slice", plain.0, one.0, time.0, big.0), &wat)) }
    if big.1 != 1 { return Err(bad(format!("{name}: 100000000 fuel was not enough for {rounds} rounds of at most {per} instructions"), &wat)) }
    if plain.0 < rounds { return Err(bad(format!("{name}: {rounds} rounds, {} effects", plain.0), &wat)) }
    // with zero fuel nothing has to happen, and nothing may go wrong
    { let mut ex = f.call_resumable(&mut st, &[]).map_err(|e| bad(format!("{e:?}"), &wat))?; h.fueled.set(true); h.budget.set(0); h.last.set(0);
      for _ in 0..3 { match ex.resume_with_fuel(0) { Ok(_) => {} Err(e) => return Err(bad(format!("a slice of 0 fuel failed: {e:?}"), &wat)) } match ex.resume_with_time_budget(Duration::ZERO) { Ok(ExecProgress::Suspended) => {} Ok(_) => break, Err(e) => return Err(bad(format!("a slice of no time failed: {e:?}"), &wat)) } } }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ stack limits
#[derive(Clone, Copy, Debug)]
struct Lim { s: [(bool, usize, usize); 4] } // 32, 64, 128, calls: dynamic, initial, max
fn lim(r: &mut Rng) -> Lim {
    let mut one = |maxes: &[usize]| { let max = *r.pick(maxes); if r.chance(1, 2) { (false, max, max) } else { (true, r.below(max.min(40) + 1), max) } };
    Lim { s: [one(&[3, 8, 17, 64, 100, 257, 1000, 4096, 36864]), one(&[2, 7, 33, 100, 129, 1000, 32768]), one(&[2, 5, 32, 65, 300, 4096]), one(&[0, 1, 2, 3, 4, 5, 6, 7, 9, 10, 17, 50, 100, 127, 300, 1024, 5000])] }
}
impl Lim {
    fn cfg(&self) -> Config {
        let c = |x: (bool, usize, usize)| if x.0 { StackConfig::dynamic(x.1, x.2) } else { StackConfig::fixed(x.2) };
        Config::new().with_value_stack_32(c(self.s[0])).with_value_stack_64(c(self.s[1])).with_value_stack_128(c(self.s[2])).with_call_stack(c(self.s[3]))
    }
}
const LT: [&str; 3] = ["i32", "i64", "v128"];
fn konst(t: usize) -> &'static str { ["(i32.const 1)", "(i64.const 1)", "(v128.const i64x2 1 1)"][t] }
pub fn exhausted(e: &Error) -> bool { matches!(e, Error::Trap(Trap::CallStackOverflow) | Error::Trap(Trap::ValueStackOverflow)) }
fn inner(e: &Error) -> &Error { let mut x = e; while let Error::Trap(Trap::HostFunction(b)) = x { match b.downcast_ref::<Error>() { Some(y) => x = y, None => break } } x }
pub fn limits(seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed);
    let mut l = lim(&mut r);
    // one activation: locals and operands of each width that are on the stack at the time of the recursive call
    let locals = [r.below(4), if r.chance(1, 2) { r.below(5) } else { 0 }, if r.chance(1, 3) { r.below(3) } else { 0 }];
    let ops = [r.below(4), if r.chance(1, 2) { r.below(4) } else { 0 }, if r.chance(1, 3) { r.below(3) } else { 0 }];
    let mut params = String::from("(param i32)"); let mut args = String::new(); let mut np = [1usize, 0, 0];
    for t in 0..3 { if r.chance(1, 3) { let k = r.range(1, 2); for _ in 0..k { params += &format!(" (param {})", LT[t]); args += konst(t); np[t] += 1 } } }
    let kind = r.below(5); // direct, mutual, indirect, across instances, through a host function
    // a native call takes up to 200 kB in this debug build, so the re-entrant recursion keeps to the default limit of 1024
    if kind == 4 && l.s[3].2 > 1024 { l.s[3] = (false, 1024, 1024) }
    let mut b = String::new();
    for t in 0..3 { for _ in 0..ops[t] { b += konst(t) } }
    let callee = match kind { 0 => "(call $f".to_string(), 1 => "(call $g".to_string(), 2 => "(call_indirect (type $t)".into(), _ => "(call $x".into() };
    let idx = if kind == 2 { "(i32.const 0)" } else { "" };
    b += &format!("(if (result i32) (local.get 0) (then (i32.add {callee} (i32.sub (local.get 0) (i32.const 1)) {args} {idx}) (i32.const 1))) (else (i32.const 0)))");
    // stack now: ops then result
    b += "(local.set $r)"; for t in (0..3).rev() { for _ in 0..ops[t] { b += "(drop)" } }
    let decl: String = (0..3).map(|t| (0..locals[t]).map(|_| format!("(local {})", LT[t])).collect::<String>()).collect();
    let entry: String = format!("(func $f (export \"f\") (type $t) {params} (result i32) (local $r i32) {decl} {b} (local.get $r))");
    let g = if kind == 1 { entry.replace("$f (export \"f\")", "$g").replace("(call $g", "(call $f") } else { String::new() };
    let ty = format!("(type $t (func {params} (result i32)))");
    let wat = match kind {
        3 | 4 => format!("(module {ty} (import \"h\" \"x\" (func $x (type $t))) {entry} (func (export \"ok\") (result i32) (i32.const 7)))"),
        2 => format!("(module {ty} (table funcref (elem $f)) {entry} (func (export \"ok\") (result i32) (i32.const 7)))"),
        _ => format!("(module {ty} {entry} {g} (func (export \"ok\") (result i32) (i32.const 7)))"),
    };
    let opt = r.chance(3, 4);
    let m = module(&wat, opt);
    let mut st = Store::new(Engine::new(l.cfg()));
    let mut im = Imports::new();
    let mut two = 1;
    if kind == 4 {
        let slot: Rc<RefCell<Option<Function>>> = Default::default(); let s2 = slot.clone();
        let pt: Vec<WasmType> = f_params(&wat).iter().map(|t| [WasmType::I32, WasmType::I64, WasmType::V128][*t]).collect();
        let x = HostFunction::from_untyped(&mut st, &FuncType::new(&pt, &[WasmType::I32]), move |mut c, a| { let f = s2.borrow().clone().unwrap(); c.call_untyped(&f, a) });
        im.define("h", "x", x);
        return limits_run(seed, o, &mut r, l, m, st, im, &wat, np, locals, ops, 2, Some(slot));
    }
    if kind == 3 {
        // a second instance whose export does the recursion in turn: through a table shared with it
        two = 2;
        let w2 = format!("(module {ty} (table (export \"t\") 1 funcref) (func (export \"x\") (type $t) {} (call_indirect (type $t) {} (i32.const 0))))", params.clone() + " (result i32)", (0..np.iter().sum::<usize>()).map(|k| format!("(local.get {k})")).collect::<String>());
        let i2 = ModuleInstance::instantiate(&mut st, &module(&w2, opt), None).map_err(|e| bad(format!("{e:?}"), &w2))?;
        im.define("h", "x", i2.func_untyped(&st, "x").unwrap()); im.define("h", "t", i2.table("t").unwrap());
        let w1 = wat.replace("(type $t))) ", "(type $t))) (import \"h\" \"t\" (table 1 funcref)) (elem (i32.const 0) func $f) ");
        return limits_run(seed, o, &mut r, l, module(&w1, opt), st, im, &w1, np, locals, ops, two, None);
    }
    limits_run(seed, o, &mut r, l, m, st, im, &wat, np, locals, ops, two, None)
}
#[allow(clippy::too_many_arguments)]
fn limits_run(seed: u64, o: &mut Obs, r: &mut Rng, l: Lim, m: Module, mut st: Store, im: Imports, wat: &str, np: [usize; 3], locals: [usize; 3], ops: [usize; 3], frames_per_level: usize, slot: Option<Rc<RefCell<Option<Function>>>>) -> R {
    let inst = ModuleInstance::instantiate(&mut st, &m, Some(im)).map_err(|e| bad(format!("{e:?}"), wat))?;
    let f = inst.func_untyped(&st, "f").unwrap(); let ok = inst.func_untyped(&st, "ok").unwrap();
    let reenter = slot.is_some();
    if let Some(s) = slot { *s.borrow_mut() = Some(f.clone()); o.inc("reentrant_recursions") }
    let loc = [np[0] + 1 + locals[0], np[1] + locals[1], np[2] + locals[2]];
    let maxc = l.s[3].2;
    // what d levels below the first call certainly need, and certainly do not exceed
    let x = frames_per_level - 1; // the go-between has its parameters as locals, and as operands of its call
    // fused code skips the unused ones, but a parameter is always there
    let must_trap = |d: usize| d * (if reenter { 1 } else { frames_per_level }) > maxc || (0..3).any(|t| (d + 1) * loc[t] > l.s[t].2);
    let must_work = |d: usize| d * (frames_per_level + reenter as usize) + 2 * reenter as usize <= maxc && (0..3).all(|t| (d + 1) * (loc[t] + ops[t] + x * 2 * np[t]) + np[t] + 4 <= l.s[t].2);
    let args = |d: usize| -> Vec<WasmValue> { let mut a = vec![i(d as i32)]; let tys = f_params(wat); for t in tys.iter().skip(1) { a.push(match t { 0 => i(1), 1 => WasmValue::I64(1), _ => WasmValue::V128([1; 16]) }) } a };
    // the depths around every limit, and random ones
    let mut ds: Vec<usize> = vec![0, 1, 2, 3];
    let mut around = |v: usize| for k in -3i64..=3 { let y = v as i64 + k; if y >= 0 { ds.push(y as usize) } };
    around(maxc / frames_per_level); for t in 0..3 { if loc[t] > 0 { around(l.s[t].2 / loc[t]); around(l.s[t].2 / (loc[t] + ops[t] + x * 2 * np[t])) } }
    for _ in 0..4 { ds.push(r.below(maxc + 10)) } ds.push(100_000);
    r.shuffle(&mut ds);
    o.case(crate::hash_bytes(wat.as_bytes()) ^ seed, || format!("seed {seed}: {l:?}, locals {loc:?}, operands {ops:?}: {}", wat.chars().take(300).collect::<String>()));
    let mut works: Option<usize> = None; let mut fails: Option<usize> = None;
    for d in ds {
        let sliced = r.chance(1, 3);
        let res = if sliced { (|| -> Result<Vec<WasmValue>, Error> { let mut ex = f.call_resumable(&mut st, &args(d))?; loop { if let ExecProgress::Completed(v) = ex.resume_with_fuel(1000)? { return Ok(v) } } })() } else { f.call(&mut st, &args(d)) };
        o.inc("depths_tried");
        match res {
            Ok(v) => {
                if v != vec![i(d as i32)] { return Err(bad(format!("recursion to depth {d} returned {v:?} under {l:?}"), wat)) }
                if must_trap(d) { return Err(bad(format!("recursion to depth {d} ({loc:?} locals each) succeeded under the limits {l:?}"), wat)) }
                o.inc("depths_within_the_limits"); works = Some(works.unwrap_or(0).max(d));
            }
            Err(e) if exhausted(inner(&e)) => {
                if must_work(d) { return Err(bad(format!("recursion to depth {d} ({loc:?} locals and {ops:?} operands each) failed under the limits {l:?}: {e}"), wat)) }
                o.inc("exhaustion_traps"); fails = Some(fails.unwrap_or(usize::MAX).min(d));
            }
            Err(e) => return Err(bad(format!("recursion to depth {d} under {l:?}: {e:?}, not a stack exhaustion trap", e = inner(&e)), wat)),
        }
        if let (Some(w), Some(fl)) = (works, fails) { if w >= fl { return Err(bad(format!("depth {w} succeeds but depth {fl} does not, under {l:?}"), wat)) } }
        if l.s[0].2 >= 2 { match ok.call(&mut st, &[]) { Ok(v) if v == vec![i(7)] => {} x => return Err(bad(format!("after a recursion to depth {d} under {l:?} a small call gives {x:?}"), wat)) } }
    }
    if works.is_some() && fails.is_some() { o.inc("limits_bracketed") }
    Ok(())
}
fn f_params(wat: &str) -> Vec<usize> { // the types of the parameters of f
    let s = &wat[wat.find("(export \"f\")").unwrap()..]; let s = &s[..s.find("(result").unwrap()];
    s.split("(param ").skip(1).map(|p| LT.iter().position(|t| p.starts_with(t)).unwrap()).collect()
}

// ------------------------------------------------------------------------------------------------ tail calls
/// A cycle of functions of different signatures that tail-call each other for N rounds on small stacks, ending in a guest or host function.
pub fn tail(seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed);
    let k = r.range(1, 4);
    let host_end = r.chance(1, 2); let indirect_end = r.chance(1, 2);
    let mut tys = String::new(); let mut fs = String::new(); let mut sig: Vec<Vec<usize>> = vec![];
    // what is carried from call to call: parameters, or globals (then functions may have neither parameters nor locals)
    let by_global = r.chance(1, 3); let lead = if by_global { 0 } else { 2 };
    let (cnt, acc_in) = if by_global { ("(global.get $cn)", "(global.get $ca)") } else { ("(local.get 0)", "(local.get 1)") };
    for _ in 0..k { let mut p = if by_global { vec![] } else { vec![0usize, 1] }; for _ in 0..(if by_global && r.chance(1, 2) { 0 } else { r.below(6) }) { p.push(r.below(3)) } sig.push(p) }
    let res: Vec<usize> = (0..r.range(1, 3)).map(|_| r.below(3)).collect();
    let resty = format!("(result {})", res.iter().map(|t| LT[*t]).collect::<Vec<_>>().join(" "));
    let want: Vec<u64> = res.iter().map(|_| r.u64() >> 34).collect();
    for (n, s) in sig.iter().enumerate() { tys += &format!("(type $t{n} (func (param {}) {resty}))", s.iter().map(|t| LT[*t]).collect::<Vec<_>>().join(" ")) }
    tys += &format!("(type $e (func (param i64) {resty}))");
    let lit = |t: usize, v: u64| match t { 0 => format!("(i32.const {v})"), 1 => format!("(i64.const {v})"), _ => format!("(v128.const i64x2 {v} {v})") };
    let mut m64 = vec![];
    for n in 0..k {
        let nx = (n + 1) % k;
        let mul = r.u32() as u64 | 1; let add = r.u32() as u64; m64.push((mul, add));
        let junk: String = (0..r.below(4)).map(|_| konst(r.below(3))).collect(); // operands a tail call discards
        let extra: String = sig[nx].iter().skip(lead).map(|t| konst(*t)).collect();
        let locals: String = (0..(if r.chance(1, 3) { 0 } else { r.below(4) })).map(|_| format!("(local {})", LT[r.below(3)])).collect();
        let acc = format!("(i64.add (i64.mul {acc_in} (i64.const {mul})) (i64.const {add}))"); let dec = format!("(i32.sub {cnt} (i32.const 1))");
        let (pre, carry) = if by_global { (format!("(global.set $cn {dec}) (global.set $ca {acc})"), String::new()) } else { (String::new(), format!("{dec} {acc}")) };
        let go = if r.chance(1, 2) { format!("{pre} (return_call_indirect (type $t{nx}) {carry} {extra} (i32.const {nx}))") } else { format!("{pre} (return_call $f{nx} {carry} {extra})") };
        let end = if indirect_end { format!("(return_call_indirect (type $e) {acc_in} (i32.const {k}))") } else { format!("(return_call $end {acc_in})") };
        let (nest_a, nest_z) = if r.chance(1, 2) { ("(block (loop ", "))") } else { ("", "") };
        fs += &format!("(func $f{n} (export \"f{n}\") (type $t{n}) {locals} {nest_a} {junk} (if (i32.eqz {cnt}) (then {end})) {go} {nest_z} unreachable)\n");
    }
    let endf = format!("(func $gend (type $e) (global.set $got (local.get 0)) {})", res.iter().zip(&want).map(|(t, v)| lit(*t, *v)).collect::<String>());
    let (imp, endf) = if host_end { ("(import \"h\" \"end\" (func $end (type $e)))", String::new()) } else { ("", endf.replace("$gend", "$end")) };
    let names: String = (0..k).map(|n| format!("$f{n} ")).collect::<String>() + "$end";
    // the original caller sits in another frame with operands of its own
    let args0: String = sig[0].iter().skip(lead).map(|t| konst(*t)).collect();
    let drops: String = (0..res.len()).map(|n| format!("(local.set $o{})", res.len() - 1 - n)).collect();
    let olocals: String = res.iter().enumerate().map(|(n, t)| format!("(local $o{n} {})", LT[*t])).collect();
    let outs: String = (0..res.len()).map(|n| format!("(local.get $o{n})")).collect();
    let wat = format!("(module {tys} {imp} (table funcref (elem {names})) (global $got (export \"got\") (mut i64) (i64.const 0)) (global $cn (mut i32) (i32.const 0)) (global $ca (mut i64) (i64.const 0)) {fs} {endf}
      (func (export \"run\") (param i32) (result i32 {}) {olocals} (global.set $cn (local.get 0)) (global.set $ca (i64.const 5)) (i32.const 41) (call $f0 {} {args0}) {drops} {outs}))", res.iter().map(|t| LT[*t]).collect::<Vec<_>>().join(" "), if by_global { "" } else { "(local.get 0) (i64.const 5)" });
    let opt = r.chance(3, 4);
    let m = module(&wat, opt);
    let sc = |r: &mut Rng, n: usize| if r.chance(1, 2) { StackConfig::fixed(n) } else { StackConfig::dynamic(r.below(3).min(n), n) };
    // room for two functions: their parameters, locals, discarded operands, and arguments
    let cfg = Config::new().with_value_stack(sc(&mut r, 64)).with_call_stack(sc(&mut r, 1));
    let mut st = Store::new(Engine::new(cfg));
    let got = Rc::new(Cell::new((0u64, 0u64))); let (g2, res2, want2) = (got.clone(), res.clone(), want.clone());
    let vals = move || -> Vec<WasmValue> { res2.iter().zip(&want2).map(|(t, v)| match t { 0 => i(*v as i32), 1 => WasmValue::I64(*v as i64), _ => { let mut b = [0; 16]; b[..8].copy_from_slice(&v.to_le_bytes()); b[8..].copy_from_slice(&v.to_le_bytes()); WasmValue::V128(b) } }).collect() };
    let vals2 = vals.clone();
    let rt: Vec<WasmType> = res.iter().map(|t| [WasmType::I32, WasmType::I64, WasmType::V128][*t]).collect();
    let endh = HostFunction::from_untyped(&mut st, &FuncType::new(&[WasmType::I64], &rt), move |_, a| { let WasmValue::I64(x) = a[0] else { return Err(Error::Other("type".into())) }; g2.set((g2.get().0 + 1, x as u64)); Ok(vals2()) });
    let mut im = Imports::new(); im.define("h", "end", endh);
    let inst = ModuleInstance::instantiate(&mut st, &m, Some(im)).map_err(|e| bad(format!("{e:?}"), &wat))?;
    let run = inst.func_untyped(&st, "run").unwrap();
    let n = *r.pick(&[0usize, 1, 2, 3, 5, 17, 1000, 20_000]);
    let mut x = 5u64; for q in 0..n { let (mul, add) = m64[q % k]; x = x.wrapping_mul(mul).wrapping_add(add) }
    o.case(crate::hash_bytes(wat.as_bytes()) ^ n as u64, || format!("seed {seed}: {n} tail calls over {k} functions, host end {host_end}: {}", wat.chars().take(300).collect::<String>()));
    let mut want_v = vec![i(41)]; want_v.extend(vals());
    for how in 0..3 {
        let slice = *r.pick(&[1u32, 100, 5000]); let before = got.get().0;
        let ((res, peak), _, _) = { let (a, b, c) = crate::mem::measure(usize::MAX, || match how {
            0 => run.call(&mut st, &[i(n as i32)]),
            1 => (|| { let mut e = run.call_resumable(&mut st, &[i(n as i32)])?; loop { if let ExecProgress::Completed(v) = e.resume_with_fuel(slice)? { return Ok(v) } } })(),
            _ => (|| { let mut e = run.call_resumable(&mut st, &[i(n as i32)])?; loop { if let ExecProgress::Completed(v) = e.resume_with_time_budget(Duration::from_nanos(1))? { return Ok(v) } } })(),
        }); ((a, b), 0, c) };
        o.add("tail_calls_made", n as u64 + 1);
        match res {
            Ok(v) if v == want_v => {}
            Ok(v) => return Err(bad(format!("{n} tail calls returned {v:?}, expected {want_v:?}"), &wat)),
            Err(e) => return Err(bad(format!("{n} tail calls over {k} functions on small stacks failed: {e:?}"), &wat)),
        }
        let end = if host_end { if got.get().0 != before + 1 { return Err(bad(format!("the host function at the end was called {} times", got.get().0 - before), &wat)) } got.get().1 } else { match inst.global_get(&st, "got") { Ok(WasmValue::I64(v)) => v as u64, x => return Err(bad(format!("{x:?}"), &wat)) } };
        if end != x { return Err(bad(format!("after {n} tail calls the last function received {end:#x}, expected {x:#x}"), &wat)) }
        if peak > 200_000 { return Err(bad(format!("{n} tail calls allocated {peak} bytes at a time"), &wat)) }
    }
    Ok(())
}

// ------------------------------------------------------------------------------------------------ leftovers
const AFTER: &str = r#"(module
  (import "h" "fail" (func $hfail (param i32)))
  (import "h" "nest" (func $nest (param i32 i32) (result i32)))
  (memory (export "m") 1) (global $g (export "g") (mut i64) (i64.const 0)) (table (export "t") 4 funcref) (elem declare func $ok)
  (type $none (func))
  (func $tick (i32.store (i32.const 0) (i32.add (i32.load (i32.const 0)) (i32.const 1))) (global.set $g (i64.add (global.get $g) (i64.const 1))))
  (func $late (i32.store (i32.const 4) (i32.add (i32.load (i32.const 4)) (i32.const 1))) (table.set (i32.const 3) (ref.func $ok)))
  (func $ok (export "ok") (result i32) (i32.const 7))
  (func $down (export "down") (param i32) (result i32) (local i64 v128) (i32.const 1) (if (result i32) (local.get 0) (then (call $down (i32.sub (local.get 0) (i32.const 1)))) (else (i32.const 0))) (i32.add))
  (func $t_unreach (export "unreach") (param i32) (i64.const 3) (call $tick) (if (local.get 0) (then (call $t_unreach (i32.sub (local.get 0) (i32.const 1)))) (else (unreachable))) (call $late) (drop))
  (func $t_load (export "load") (param i32) (call $tick) (if (local.get 0) (then (call $t_load (i32.sub (local.get 0) (i32.const 1)))) (else (drop (i64.load (i32.const 65530))))) (call $late))
  (func $t_div (export "div") (param i32) (call $tick) (if (local.get 0) (then (call $t_div (i32.sub (local.get 0) (i32.const 1)))) (else (drop (i32.div_s (i32.const 1) (i32.const 0))))) (call $late))
  (func $t_fill (export "fill") (param i32) (call $tick) (if (local.get 0) (then (call $t_fill (i32.sub (local.get 0) (i32.const 1)))) (else (memory.fill (i32.const 8) (i32.const 255) (i32.const 65530)))) (call $late))
  (func $t_null (export "null") (param i32) (call $tick) (if (local.get 0) (then (call $t_null (i32.sub (local.get 0) (i32.const 1)))) (else (call_indirect (type $none) (i32.const 0)))) (call $late))
  (func $t_tail (export "tail") (param i32) (v128.const i64x2 1 2) (call $tick) (if (local.get 0) (then (return_call $t_tail (i32.sub (local.get 0) (i32.const 1))))) (unreachable))
  (func $t_host (export "host") (param i32) (i32.const 9) (call $tick) (if (local.get 0) (then (call $t_host (i32.sub (local.get 0) (i32.const 1)))) (else (call $hfail (i32.const 5)))) (call $late) (drop))
  (func $t_rec (export "rec") (param i32) (call $tick) (call $t_rec (local.get 0)) (call $late))
  (func $t_ops (export "ops") (param i32) (result i32) (i32.const 1) (i64.const 2) (drop) (call $t_ops (local.get 0)) (i32.add))
  (func $nested (export "nested") (param i32 i32) (result i32) (i32.const 100) (i64.const 5) (call $nest (local.get 0) (local.get 1)) (local.set 0) (drop) (local.get 0) (i32.add))
  (func $spin (export "spin") (param i32) (call $tick) (if (local.get 0) (then (call $spin (i32.sub (local.get 0) (i32.const 1))))) (loop $l (global.set $g (i64.add (global.get $g) (i64.const 0))) (br $l)))
)"#;
const FAILING: &[&str] = &["unreach", "load", "div", "fill", "null", "tail", "host", "rec", "ops"];
pub fn after(seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed);
    let l = Lim { s: [(r.chance(1, 2), r.below(20), *r.pick(&[60, 200, 700])), (r.chance(1, 2), r.below(20), *r.pick(&[40, 200, 700])), (r.chance(1, 2), r.below(20), *r.pick(&[30, 100, 500])), (r.chance(1, 2), r.below(5), *r.pick(&[12, 40, 200, 1024]))] };
    let opt = r.chance(3, 4);
    let m = module(AFTER, opt);
    let mut st = Store::new(Engine::new(l.cfg()));
    let fail = HostFunction::from(&mut st, |_, x: i32| -> tinywasm::Result<()> { Err(Error::Other(format!("hostfail {x}"))) });
    // nest(which, mode): calls a failing function of the guest again; mode 0 passes the failure on, otherwise it is swallowed
    let slot: Rc<RefCell<Vec<Function>>> = Default::default(); let s2 = slot.clone();
    let depth_in = Rc::new(Cell::new(0i32)); let d2 = depth_in.clone();
    let nest = HostFunction::from(&mut st, move |mut c, (which, mode): (i32, i32)| { let f = s2.borrow()[which as usize].clone(); match c.call_untyped(&f, &[WasmValue::I32(d2.get())]) { Ok(v) => Ok(v.first().map(|v| if let WasmValue::I32(x) = v { *x } else { 0 }).unwrap_or(0)), Err(e) => if mode == 0 { Err(e) } else { Ok(-5) } } });
    let mut im = Imports::new(); im.define("h", "fail", fail); im.define("h", "nest", nest.clone());
    let inst = ModuleInstance::instantiate(&mut st, &m, Some(im.clone())).map_err(|e| bad(format!("{e:?}"), AFTER))?;
    let get = |st: &Store, n: &str| inst.func_untyped(st, n).unwrap();
    { let mut s = slot.borrow_mut(); for n in FAILING { s.push(get(&st, n)) } s.push(get(&st, "down")); }
    let down = get(&st, "down"); let nested = get(&st, "nested"); let spin = get(&st, "spin");
    let di = FAILING.len() as i32;
    let mem = inst.memory("m").unwrap(); let table = inst.table("t").unwrap();
    // how deep each way of calling can go on a fresh store
    let way = |st: &mut Store, w: usize, d: i32| -> Result<i32, Error> {
        let v = match w {
            0 => down.call(st, &[i(d)])?,
            1 => { let mut e = down.call_resumable(st, &[i(d)])?; loop { if let ExecProgress::Completed(v) = e.resume_with_fuel(3)? { break v } } }
            2 => { depth_in.set(d); nest.call(st, &[i(di), i(0)])? } // the host function itself, called directly
            3 => { depth_in.set(d); let v = nested.call(st, &[i(di), i(0)])?; vec![match v[0] { WasmValue::I32(x) => i(x - 100), _ => i(-1) }] }
            _ => { depth_in.set(d); let mut e = nest.call_resumable(st, &[i(di), i(0)])?; match e.resume_with_fuel(1)? { ExecProgress::Completed(v) => v, _ => vec![] } }
        };
        match v.first() { Some(WasmValue::I32(x)) => Ok(*x), x => Err(Error::Other(format!("result {x:?}"))) }
    };
    let exhausted_deep = |e: &Error| { let s = format!("{e}"); s.contains("stack exhausted") || exhausted(e) };
    // a store of its own each time: the limit must be that of a fresh store, whatever happened before
    let mut limit = [0i32; 5];
    for (w, lim) in limit.iter_mut().enumerate() {
        let (mut lo, mut hi) = (-1i32, 5000);
        while hi - lo > 1 { let mid = (lo + hi) / 2; match way(&mut st, w, mid) { Ok(v) if v == mid + 1 => lo = mid, Ok(v) => return Err(bad(format!("down({mid}) by way {w} gives {v}"), AFTER)), Err(e) if exhausted_deep(&e) => hi = mid, Err(e) => return Err(bad(format!("down({mid}) by way {w}: {e:?}"), AFTER)) } }
        *lim = lo;
    }
    let (a, b) = (limit[0], limit[1]); if a != b || limit[2] != limit[4] { return Err(bad(format!("the depth that can be reached depends on how the call is made: {limit:?}"), AFTER)) }
    o.case(seed, || format!("seed {seed}: {l:?}, deepest recursions {limit:?}"));
    let mut ticks = 0u32; let mut kinds: Vec<String> = vec![];
    for _ in 0..r.range(3, 10) {
        let depth = *r.pick(&[0, 1, 3, 7]);
        let which = r.below(FAILING.len()); let name = FAILING[which];
        let f = get(&st, name);
        let how = r.below(9);
        let label = format!("{} of {name} at depth {depth}", ["a call", "a sliced call", "an abandoned call", "a nested call passed on", "a nested call swallowed", "a host function calling back, passed on", "a call with wrong arguments", "a failing instantiation", "resuming after the failure"][how]);
        kinds.push(label.clone()); o.note("kinds_of_failures", &label.replace(|c: char| c.is_ascii_digit(), ""));
        depth_in.set(depth);
        let base = tick_count(&st, &mem)?;
        let failed = |r: Result<Vec<WasmValue>, Error>| -> Result<(), String> { match r { Ok(v) => Err(format!("returned {v:?}")), Err(_) => Ok(()) } };
        let mut counted = !matches!(name, "rec" | "ops");
        let mut expect = depth as u32 + 1;
        let r_ = match how {
            0 => failed(f.call(&mut st, &[i(depth)])),
            1 | 8 => (|| { let mut e = f.call_resumable(&mut st, &[i(depth)]).map_err(|e| format!("{e:?}"))?; loop { match e.resume_with_fuel(1) { Ok(ExecProgress::Completed(v)) => return Err(format!("returned {v:?}")), Ok(_) => {} Err(_) => break } }
                if how == 8 { for _ in 0..3 { if r.chance(1, 2) { match e.resume_with_fuel(100_000) { Err(_) => {} Ok(_) => return Err("could be resumed after it failed".into()) } } else { match e.resume_with_time_budget(Duration::from_millis(1)) { Err(_) => {} Ok(_) => return Err("could be resumed after it failed".into()) } } } } Ok(()) })(),
            2 => { counted = false; let mut e = spin.call_resumable(&mut st, &[i(depth.min(limit[0] / 4))]).map_err(|e| bad(format!("{e:?}"), AFTER))?; for _ in 0..r.below(6) { match e.resume_with_fuel(*r.pick(&[1, 64, 500])) { Ok(ExecProgress::Suspended) => {} Ok(_) => return Err(bad("an endless loop completed".into(), AFTER)), Err(x) => { if !exhausted(&x) { return Err(bad(format!("{x:?}"), AFTER)) } break } } } Ok(()) }
            3 => failed(nested.call(&mut st, &[i(which as i32), i(0)])),
            4 => match nested.call(&mut st, &[i(which as i32), i(1)]) { Ok(v) if v == vec![i(95)] => Ok(()), x => Err(format!("the caller got {x:?}, expected 95")) },
            5 => failed(nest.call(&mut st, &[i(which as i32), i(0)])),
            6 => { expect = 0; counted = true; failed(match r.below(3) { 0 => f.call(&mut st, &[]), 1 => f.call(&mut st, &[WasmValue::I64(0)]), _ => f.call_resumable(&mut st, &[i(1), i(2)]).map(|_| vec![]) }) }
            _ => { expect = 0; counted = true; let w = *r.pick(&["(module (import \"h\" \"fail\" (func $f (param i32))) (func $s (call $f (i32.const 1))) (start $s))", "(module (memory 1) (data (i32.const 65535) \"xx\"))", "(module (import \"h\" \"nothing\" (func)))", "(module (func $r (call $r)) (start $r))", "(module (func $s unreachable) (start $s))"]); match ModuleInstance::instantiate(&mut st, &module(w, opt), Some(im.clone())) { Ok(_) => Err(format!("instantiating {w} succeeded")), Err(_) => Ok(()) } }
        };
        r_.map_err(|e| bad(format!("{label}: {e}"), AFTER))?;
        let now = tick_count(&st, &mem)?; let did = now - base;
        o.inc("failed_calls"); o.add("effects_before_failures", did as u64);
        // a deep recursion can hit the limits before its own failure
        if counted && did != expect && (depth as usize) + 3 < l.s.iter().map(|x| x.2 / 8).min().unwrap() { return Err(bad(format!("{label}: {did} effects before the failure persist, expected {expect}"), AFTER)) }
        ticks = ticks.max(now);
        let late = mem.read_vec(&st, 4, 4).map_err(|e| bad(format!("{e:?}"), AFTER))?; if late != [0; 4] || !matches!(table.get(&st, 3), Ok(WasmValue::RefFunc(f)) if f.addr().is_none()) { return Err(bad(format!("{label}: something after the failure was executed"), AFTER)) }
        // everything still works exactly as far as before
        for w in 0..5 { if r.chance(1, 2) { o.inc("limits_checked_again");
            match way(&mut st, w, limit[w]) { Ok(v) if v == limit[w] + 1 => {} x => return Err(bad(format!("after {label}, recursion to depth {} (possible before) by way {w} gives {x:?}; history {kinds:?}; {l:?}", limit[w]), AFTER)) }
            match way(&mut st, w, limit[w] + 1) { Err(e) if exhausted_deep(&e) => {} x => return Err(bad(format!("after {label}, recursion to depth {} (impossible before) by way {w} gives {x:?}", limit[w] + 1), AFTER)) }
        } }
        match get(&st, "ok").call(&mut st, &[]) { Ok(v) if v == vec![i(7)] => {} x => return Err(bad(format!("after {label}, ok() gives {x:?}"), AFTER)) }
    }
    // many swallowed failures in one call must not add up
    { let w = "(module (import \"h\" \"nest\" (func $nest (param i32 i32) (result i32))) (func (export \"many\") (param i32) (result i32) (local i32) (loop $l (local.set 1 (i32.add (local.get 1) (call $nest (i32.const 0) (i32.const 1)))) (local.set 0 (i32.sub (local.get 0) (i32.const 1))) (br_if $l (local.get 0))) (local.get 1)))";
      let i2 = ModuleInstance::instantiate(&mut st, &module(w, opt), Some(im)).map_err(|e| bad(format!("{e:?}"), w))?; let many = i2.func_untyped(&st, "many").unwrap(); depth_in.set(1);
      match many.call(&mut st, &[i(300)]) { Ok(v) if v == vec![i(-1500)] => o.add("failures_swallowed_in_one_call", 300), x => return Err(bad(format!("300 swallowed nested failures: {x:?}, expected -1500"), w)) } }
    Ok(())
}
fn tick_count(st: &Store, m: &tinywasm::Memory) -> Result<u32, Bad> { m.read_vec(st, 0, 4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).map_err(|e| bad(format!("{e:?}"), AFTER)) }

// ------------------------------------------------------------------------------------------------ re-entry
/// What a host function may not do, how its failure comes back, and what it sees of its caller.
pub fn busy(seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed);
    let opt = r.chance(3, 4);
    let depth = r.range(1, 6);
    let marks: Vec<i64> = (0..4).map(|_| r.i64v()).collect();
    // operands of every width and locals that have to survive the host call
    let wat = format!(r#"(module (import "h" "f" (func $h (param i32) (result i32)))
      (memory (export "m") 1) (global $t (export "ticks") (mut i32) (i32.const 0)) (data (i32.const 16) "{}")
      (func $tick (export "tick") (result i32) (global.set $t (i32.add (global.get $t) (i32.const 1))) (global.get $t))
      (func $go (export "go") (param $d i32) (result i32 i64 i64 i32) (local $a i64) (local $v v128) (local $x f64)
        (local.set $a (i64.const {})) (local.set $v (i64x2.splat (i64.const {}))) (local.set $x (f64.const 2.5))
        (i32.const 77) (i64.const {}) (v128.const i64x2 3 4) (f32.const 1.5)
        (call $h (local.get $d))
        (local.set $d) (i32.trunc_f32_s) (i32.add (i32.trunc_f64_s (local.get $x))) (i32.add (local.get $d)) (local.set $d)
        (i64x2.extract_lane 1) (i64.add (local.get $a))
        (local.set $a) (i64.add (i64.const {})) (local.get $a) (i64.add (i64x2.extract_lane 0 (local.get $v))) (local.get $d))
      (func (export "trap") (param i32) (result i32) (unreachable))
      (func (export "start2") (call $tick) (drop)))"#, ["aaaa", "bbbb", "cccc"][r.below(3)], marks[0], marks[1], marks[2], marks[3]);
    let m = module(&wat, opt);
    let with_start = module("(module (import \"x\" \"tick\" (func $t (result i32))) (func $s (drop (call $t))) (start $s))", opt);
    let mut st = Store::default();
    let errs: Rc<RefCell<Vec<String>>> = Default::default(); let tried = Rc::new(Cell::new(0u64));
    let h: Rc<RefCell<Option<ModuleInstance>>> = Default::default();
    // how the innermost host call ends
    let ending = r.below(8); let payload = r.u32();
    let mk_err = move || -> Option<Error> { match ending { 0 | 1 => None, 2 => Some(Error::Other(format!("payload {payload}"))), 3 => Some(Error::Trap(Trap::DivisionByZero)), 4 => Some(Error::Trap(Trap::MemoryOutOfBounds { offset: payload as usize, len: 3, max: 9 })), 5 => Some(Error::UnsupportedFeature("feature x")), 6 => Some(Error::Trap(Trap::UndefinedElement { index: payload as usize })), _ => Some(Error::Trap(Trap::Unreachable)) } };
    let (e2, h2, t2) = (errs.clone(), h.clone(), tried.clone());
    let modes: Vec<usize> = (0..40).map(|_| r.below(5)).collect();
    let ws = Rc::new(with_start);
    let host = HostFunction::from(&mut st, move |mut c, d: i32| {
        let inst = h2.borrow().clone().unwrap();
        let fail = |s: String| e2.borrow_mut().push(s);
        if c.module().id() != inst.id() { fail(format!("the host function was told it is called by instance {}, not {}", c.module().id(), inst.id())) }
        match c.memory("m").and_then(|m| m.read_vec(c.store(), 16, 4)) { Ok(b) if b[0] == b[3] => {} x => fail(format!("the caller's memory reads {x:?}")) }
        let ticks0 = inst.global_get(c.store(), "ticks").ok();
        let tick = inst.func_untyped(c.store(), "tick").unwrap();
        // all of these start an unrelated call
        for k in 0..5 { t2.set(t2.get() + 1); let refused = match (modes[(d as usize * 5 + k) % modes.len()] + k) % 5 {
            0 => tick.call(c.store_mut(), &[]).is_err(),
            1 => match tick.call_resumable(c.store_mut(), &[]) { Err(_) => true, Ok(mut e) => e.resume_with_fuel(1000).is_err() },
            2 => inst.func::<(), i32>(c.store(), "tick").and_then(|f| f.call(c.store_mut(), ())).is_err(),
            3 => { let mut im = Imports::new(); im.define("x", "tick", tick.clone()); ModuleInstance::instantiate(c.store_mut(), &ws, Some(im)).is_err() }
            _ => { let w = inst.func_untyped(c.store(), "start2").unwrap(); w.call(c.store_mut(), &[]).is_err() }
        }; if !refused { fail("an unrelated call was started while a call is active".into()) } }
        if inst.global_get(c.store(), "ticks").ok() != ticks0 { fail("a refused call had an effect".into()) }
        // the legitimate way
        let ticks0 = if let Some(WasmValue::I32(x)) = ticks0 { x } else { 0 };
        match c.call_untyped(&tick, &[]) { Ok(v) if v == vec![WasmValue::I32(ticks0 + 1)] => {} x => fail(format!("calling back gives {x:?}, expected {}", ticks0 + 1)) }
        match inst.func::<i32, i32>(c.store(), "trap").and_then(|f| c.call(&f, 3)) { Err(Error::Trap(Trap::Unreachable)) => {} x => fail(format!("calling back into a trap gives {:?}", x.map_err(|e| format!("{e:?}")))) }
        for a in [&[][..], &[WasmValue::I64(1)][..], &[WasmValue::I32(1), WasmValue::I32(1)][..]] { let go = inst.func_untyped(c.store(), "go").unwrap(); if c.call_untyped(&go, a).is_ok() { fail(format!("calling back with arguments {a:?} was accepted")) } }
        if d > 0 { let go = inst.func_untyped(c.store(), "go").unwrap(); let v = c.call_untyped(&go, &[WasmValue::I32(d - 1)])?; let Some(WasmValue::I32(x)) = v.last() else { return Err(Error::Other("type".into())) }; return Ok(*x) }
        match mk_err() { Some(e) => Err(e), None => Ok(1000) }
    });
    let mut im = Imports::new(); im.define("h", "f", host);
    let inst = ModuleInstance::instantiate(&mut st, &m, Some(im)).map_err(|e| bad(format!("{e:?}"), &wat))?;
    *h.borrow_mut() = Some(inst.clone());
    let go = inst.func_untyped(&st, "go").unwrap();
    o.case(crate::hash_bytes(wat.as_bytes()) ^ seed, || format!("seed {seed}: re-entry to depth {depth}, ending {ending}, marks {marks:?}"));
    let sliced = r.chance(1, 2);
    let res = if sliced { (|| { let mut e = go.call_resumable(&mut st, &[i(depth as i32 - 1)])?; loop { if let ExecProgress::Completed(v) = e.resume_with_fuel(*r.pick(&[1, 200]))? { return Ok(v) } } })() } else { go.call(&mut st, &[i(depth as i32 - 1)]) };
    o.add("unrelated_calls_refused", tried.get()); o.add("nested_frames", depth as u64);
    if let Some(e) = errs.borrow().first() { return Err(bad(e.clone(), &wat)) }
    match (mk_err(), res) {
        (None, Ok(v)) => {
            // every level adds 1 (trunc 1.5) and 2 (trunc 2.5) to what the host returned
            let want = vec![i(77), WasmValue::I64(marks[2].wrapping_add(marks[3])), WasmValue::I64(4i64.wrapping_add(marks[0]).wrapping_add(marks[1])), i(1000 + 3 * depth as i32)];
            if v != want { return Err(bad(format!("re-entry to depth {depth} returned {v:?}, expected {want:?}"), &wat)) }
            o.inc("frames_found_unchanged");
        }
        (Some(w), Err(e)) => {
            let (mut x, mut layers) = (&e, 0);
            while let Error::Trap(Trap::HostFunction(b)) = x { layers += 1; match b.downcast_ref::<Error>() { Some(y) => x = y, None => return Err(bad(format!("the host error came back as {e:?}"), &wat)) } }
            if format!("{x:?}") != format!("{w:?}") { return Err(bad(format!("a host function failed with {w:?}, the call failed with {x:?}"), &wat)) }
            if layers != depth { return Err(bad(format!("the failure passed {depth} host functions and names {layers}"), &wat)) }
            o.inc("host_failures_identical");
        }
        (w, res) => return Err(bad(format!("the host function ended with {w:?}, the call with {res:?}"), &wat)),
    }
    // the store is free again
    match inst.func_untyped(&st, "tick").unwrap().call(&mut st, &[]) { Ok(_) => Ok(()), Err(e) => Err(bad(format!("afterwards a call fails: {e:?}"), &wat)) }
}
