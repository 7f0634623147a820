//! Histories in which many instances of a few modules call each other in every way there is, and each activation touches
//! what belongs to its own instance before and after its calls.
use crate::refi::*;
use crate::rng::Rng;
use crate::scen::*;

const TS: u32 = 12; // slots of the shared table
struct Wm { text: String, imports: Vec<&'static str>, nf: usize }

fn effect(r: &mut Rng, nf: usize, sm: bool, sg: bool) -> String {
    let acc = |e: &str| format!("(local.set $a {e})");
    let k = r.below(1000);
    match r.below(24) {
        0 | 1 => acc("(i64.add (i64.mul (local.get $a) (i64.const 31)) (global.get $id))"),
        2 => "(global.set $g (i64.add (global.get $g) (local.get $a))) (local.set $a (i64.xor (local.get $a) (global.get $g)))".into(),
        3 => "(global.set $g32 (i32.add (global.get $g32) (i32.const 1)))".into(),
        4 if sg => "(global.set $sg (i64.add (i64.mul (global.get $sg) (i64.const 3)) (global.get $id)))".into(),
        5 => format!("(i64.store $o offset={k} (i32.and (i32.wrap_i64 (local.get $a)) (i32.const 1023)) (local.get $a))"),
        6 => acc(&format!("(i64.add (local.get $a) (i64.load $o offset={k} (i32.and (i32.wrap_i64 (local.get $a)) (i32.const 1023))))")),
        7 if sm => format!("(i32.store16 $M offset={k} (i32.and (i32.wrap_i64 (local.get $a)) (i32.const 1023)) (i32.wrap_i64 (local.get $a)))"),
        8 if sm => acc(&format!("(i64.add (local.get $a) (i64.load32_u $M offset={k} (i32.and (i32.wrap_i64 (local.get $a)) (i32.const 1023))))")),
        9 if sm => format!("(memory.copy $M $o (i32.const {}) (i32.const {k}) (i32.const {}))", r.below(1000), r.below(40)),
        10 => format!("(memory.init $o $d (i32.const {k}) (i32.const 1) (i32.const {}))", r.below(6)),
        11 => format!("(if (i32.eq (local.get $n) (i32.const {})) (then (data.drop $d)))", r.below(5)),
        12 => acc("(i64.xor (local.get $a) (i64.extend_i32_u (table.size $O)))"),
        13 => "(drop (table.grow $O (ref.null func) (i32.const 1)))".into(),
        14 => format!("(table.set $O (i32.and (i32.wrap_i64 (local.get $a)) (i32.const 3)) (ref.func $f{}))", r.below(nf)),
        15 => format!("(table.init $O $e (i32.const {}) (i32.const 0) (i32.const {}))", r.below(3), r.below(3)),
        16 => format!("(if (i32.eq (local.get $n) (i32.const {})) (then (elem.drop $e)))", r.below(5)),
        17 => acc("(i64.add (local.get $a) (i64.extend_i32_u (memory.size $o)))"),
        18 => "(drop (memory.grow $o (i32.const 1)))".into(),
        19 => format!("(table.set $T (i32.const {}) (ref.func $f{}))", r.below(TS as usize), r.below(nf)),
        20 => format!("(local.set $a (i64.add (local.get $a) (i64.extend_i32_u (ref.is_null (table.get $O (i32.const {}))))))", r.below(4)),
        21 => format!("(if (i32.eq (local.get $n) (i32.const {})) (then (i32.store $o offset=65530 (i32.wrap_i64 (local.get $a)) (i32.const 1))))", r.below(6)),
        22 => format!("(table.copy $O $T (i32.const {}) (i32.const {}) (i32.const {}))", r.below(3), r.below(10), r.below(3)),
        _ => acc(&format!("(i64.add (i64.mul (local.get $a) (i64.const {})) (i64.extend_i32_u (global.get $g32)))", r.below(50) * 2 + 1)),
    }
}
fn module(r: &mut Rng) -> Wm {
    let nf = r.range(1, 4);
    let (sm, sg, own_first) = (r.chance(2, 3), r.chance(2, 3), r.chance(1, 2));
    let mut imports = vec!["t", "id"]; let (hx, xx) = (r.chance(2, 3), r.chance(2, 3));
    let mut imp = format!("(import \"s\" \"t\" (table $T {TS} funcref)) (import \"s\" \"id\" (global $id i64))");
    if sm { imports.push("m"); imp += "(import \"s\" \"m\" (memory $M 1))" }
    if sg { imports.push("sg"); imp += "(import \"s\" \"sg\" (global $sg (mut i64)))" }
    if hx { imports.push("h"); imp += "(import \"s\" \"h\" (func $h (type $t)))" }
    if xx { imports.push("x"); imp += "(import \"s\" \"x\" (func $x (type $t)))" }
    let mut fs = String::new();
    for f in 0..nf {
        let call = |r: &mut Rng, tail: bool| {
            let p = if tail { "return_" } else { "" };
            let args = "(i32.sub (local.get $n) (i32.const 1)) (local.get $a)";
            match r.below(9) {
                0 => format!("({p}call $f{} {args})", r.below(nf)),
                1 | 2 if xx => format!("({p}call $x {args})"),
                3 | 4 if hx => format!("({p}call $h {args})"),
                5 => format!("({p}call_indirect $O (type $t) {args} (i32.and (i32.wrap_i64 (local.get $a)) (i32.const {})))", r.pick(&[0, 1, 3])),
                _ => { let m = r.pick(&[0, 1, 3, 3, 7, 7]); let k = r.below(5); format!("({p}call_indirect $T (type $t) {args} (i32.add (i32.and (i32.add (i32.wrap_i64 (local.get $a)) (local.get $n)) (i32.const {m})) (i32.const {k})))") }
            }
        };
        let mut b = String::new();
        for _ in 0..r.below(3) { b += &effect(r, nf, sm, sg) }
        b += "(if (i32.le_s (local.get $n) (i32.const 0)) (then (return (i64.add (i64.mul (local.get $a) (i64.const 31)) (global.get $id)))))";
        if r.chance(1, 25) { b += &format!("(if (i32.eq (local.get $n) (i32.const {})) (then unreachable))", r.below(4)) }
        for _ in 0..r.below(3) { b += &effect(r, nf, sm, sg) }
        let (w, z) = match r.below(4) { 0 => ("(block ", ")"), 1 => ("(loop ", ")"), _ => ("", "") };
        let op = r.pick(&["i64.add", "i64.xor", "i64.sub"]);
        b += &format!("{w}(local.set $a ({op} (local.get $a) {})){z}", call(r, false));
        for _ in 0..r.range(1, 3) { b += &effect(r, nf, sm, sg) }
        if r.chance(1, 4) { b += &format!("(if (i32.and (local.get $n) (i32.const 1)) (then (local.set $a (i64.add (local.get $a) {}))))", call(r, false)); b += &effect(r, nf, sm, sg) }
        let end = if r.chance(1, 3) { call(r, true) } else { "(i64.add (local.get $a) (global.get $id))".into() };
        let locals: String = (0..r.below(4)).map(|_| format!("(local {})", r.pick(&["i32", "i64", "v128", "funcref", "f32"]))).collect();
        fs += &format!("(func $f{f} (export \"f{f}\") (type $t) {locals} {b} {end})\n").replace("(type $t) (local", "(type $t) (param $n i32) (param $a i64) (result i64) (local").replace(&format!("(export \"f{f}\") (type $t)  "), &format!("(export \"f{f}\") (type $t) (param $n i32) (param $a i64) (result i64) "));
    }
    let names: String = (0..nf).map(|f| format!("$f{f} ")).collect();
    let other = if own_first { "(memory $o 1 3)" } else { "(memory $o 2)" };
    let start = if r.chance(1, 4) { format!("(func $st {} (drop (call $f0 (i32.const {}) (i64.const {})))) (start $st)", (0..r.below(3)).map(|_| effect(r, nf, sm, sg)).filter(|e| !e.contains("$n") && !e.contains("$a")).collect::<String>(), r.below(3), r.below(99)) } else { String::new() };
    let exps: String = [("o", "memory"), ("O", "table"), ("g", "global"), ("g32", "global")].iter().filter(|_| r.chance(2, 3)).map(|(n, k)| format!("(export \"{}\" ({k} ${n}))", match *n { "o" => "m0", "g" => "g0", "g32" => "g1", _ => "O" })).collect();
    let init: String = (0..nf).map(|f| format!(" $f{f}")).collect();
    let text = format!("(module (type $t (func (param i32 i64) (result i64))) {imp} {other} (table $O 4 40 funcref) (global $g (mut i64) (i64.const {})) (global $g32 (mut i32) (i32.const {})) {exps}
      (data $d \"{}\") (elem $e func {names} $f0 $f0) (elem (table $O) (i32.const 0) func{init}) {fs} {start}
      (func (export \"reg\") (param i32 i32) (table.set $T (local.get 0) (table.get $O (local.get 1)))))", r.below(100), r.below(100), (0..8).map(|_| (b'a' + r.below(26) as u8) as char).collect::<String>());
    Wm { text, imports, nf }
}

pub fn gen_weave(r: &mut Rng) -> Scen {
    let mut sc = Scen::default();
    let ft = FT { params: vec![Ty::I32, Ty::I64], results: vec![Ty::I64] };
    let mut nobj = 0; let mut obj = |sc: &mut Scen, a: Act| { sc.acts.push(a); nobj += 1; Item::Obj(nobj - 1) };
    let nt = r.range(1, 2);
    let tabs: Vec<Item> = (0..nt).map(|_| obj(&mut sc, Act::Table(TableTy { elem: Ty::Func, min: TS as u64, max: None, t64: false }))).collect();
    let mems: Vec<Item> = (0..r.range(1, 2)).map(|_| obj(&mut sc, Act::Mem(MemTy { min: 1, max: Some(3), m64: false, page_log2: 16 }))).collect();
    let sgs: Vec<Item> = (0..r.range(1, 2)).map(|_| obj(&mut sc, Act::Global(GlobalTy { ty: Ty::I64, mutable: true }, 7))).collect();
    let mut hs = vec![];
    for _ in 0..r.range(1, 3) {
        let kind = match r.below(8) { 0 => HostKind::Fail(r.range(2, 9) as u32), 1 => HostKind::Poke("m0".into()), 2 => HostKind::Bump("g1".into()), 3 => HostKind::Grow("m0".into()), 4 => HostKind::Log, _ => { let mut names: Vec<String> = (0..4).map(|k| format!("f{k}")).collect(); r.shuffle(&mut names); HostKind::Reenter { names, left: r.range(1, 8) as u32, swallow: r.chance(2, 3) } } };
        hs.push(obj(&mut sc, Act::HostFn { ty: ft.clone(), kind }));
    }
    let wm: Vec<Wm> = (0..r.range(1, 2)).map(|_| module(r)).collect();
    sc.modules = wm.iter().map(|w| wat::parse_str(&w.text).unwrap_or_else(|e| panic!("monitor: {e}\n{}", w.text))).collect();
    let ni = r.range(2, 5);
    let mut slots: Vec<usize> = vec![];
    for s in 0..ni {
        let m = r.below(wm.len());
        let id = obj(&mut sc, Act::Global(GlobalTy { ty: Ty::I64, mutable: false }, 1000 + 7 * s as V));
        let imports = wm[m].imports.iter().map(|n| ("s".to_string(), n.to_string(), match *n {
            "t" => tabs[r.below(nt)].clone(), "m" => r.pick(&mems).clone(), "sg" => r.pick(&sgs).clone(), "h" => r.pick(&hs).clone(), "id" => id.clone(),
            _ => if s > 0 && r.chance(3, 4) { let k = r.below(s); Item::Exp(k, format!("f{}", r.below(wm[slots[k]].nf))) } else { r.pick(&hs).clone() },
        })).collect();
        sc.acts.push(Act::Inst { m, imports, start: true });
        slots.push(m);
        for _ in 0..r.range(1, 5) { let a = vec![(Ty::I32, r.below(TS as usize) as V), (Ty::I32, r.below(wm[m].nf) as V)]; sc.acts.push(Act::Call { slot: s, name: "reg".into(), args: a }) }
        if r.chance(1, 2) { call(r, &mut sc, &wm, &slots) }
    }
    // no empty slot in the shared tables: the missing ones go to whoever comes up
    for k in 0..TS { if r.chance(4, 5) { let s = r.below(ni); let a = vec![(Ty::I32, k as V), (Ty::I32, r.below(wm[slots[s]].nf) as V)]; sc.acts.push(Act::Call { slot: s, name: "reg".into(), args: a }) } }
    for _ in 0..r.range(4, 14) {
        match r.below(12) {
            0 => sc.acts.push(Act::TableCopy { it: r.pick(&tabs).clone(), dst: r.below(6) as u64, src: r.below(6) as u64, len: r.below(7) as u64 }),
            1 => sc.acts.push(Act::TableSet { it: r.pick(&tabs).clone(), idx: r.below(TS as usize) as u32, from: Some((r.pick(&tabs).clone(), r.below(TS as usize) as u32)) }),
            2 => sc.acts.push(Act::MemWrite { it: r.pick(&mems).clone(), off: r.below(2000) as u64, bytes: vec![r.u32() as u8; 9] }),
            3 => sc.acts.push(Act::MemGrow { it: r.pick(&mems).clone(), delta: 1 }),
            4 => { let v = r.u64() as V; sc.acts.push(Act::GlobalSet { it: r.pick(&sgs).clone(), v }) }
            _ => call(r, &mut sc, &wm, &slots),
        }
    }
    sc
}
fn call(r: &mut Rng, sc: &mut Scen, wm: &[Wm], slots: &[usize]) {
    let s = r.below(slots.len());
    sc.acts.push(Act::Call { slot: s, name: format!("f{}", r.below(wm[slots[s]].nf)), args: vec![(Ty::I32, r.below(8) as V), (Ty::I64, r.u64() as V)] })
}

// ------------------------------------------------------------------------------------------------ dropping things
/// Stores, instances, handles, imports, modules and paused executions are dropped (or forgotten) in any order and at any point;
/// what is left goes on being used. Decided by the process surviving under the sanitizer, and by counting what is dropped.
pub fn drops(seed: u64, o: &mut crate::mon::Obs) -> crate::mon::R {
    use crate::mon::Bad;
    use std::{cell::Cell, rc::Rc, sync::{atomic::{AtomicI64, Ordering::SeqCst}, Arc}};
    use tinywasm::engine::{Config, LinearMemory, MemoryBackend, StackConfig};
    use tinywasm::types::*;
    use tinywasm::*;
    struct Live(Rc<Cell<i64>>); impl Live { fn new(c: &Rc<Cell<i64>>) -> Live { c.set(c.get() + 1); Live(c.clone()) } } impl Drop for Live { fn drop(&mut self) { self.0.set(self.0.get() - 1) } }
    struct M(Vec<u8>, Arc<AtomicI64>); impl Drop for M { fn drop(&mut self) { self.1.fetch_sub(1, SeqCst); } }
    impl LinearMemory for M {
        fn len(&self) -> usize { self.0.len() }
        fn grow_to(&mut self, n: usize) -> Result<(), Trap> { self.0.resize(n, 0); Ok(()) }
        fn read(&self, a: usize, d: &mut [u8]) -> usize { if a >= self.0.len() { return 0 } let n = d.len().min(self.0.len() - a); d[..n].copy_from_slice(&self.0[a..a + n]); n }
        fn write(&mut self, a: usize, s: &[u8]) -> usize { if a >= self.0.len() { return 0 } let n = s.len().min(self.0.len() - a); self.0[a..a + n].copy_from_slice(&s[..n]); n }
    }
    let mut r = Rng::new(seed);
    let live = Rc::new(Cell::new(0i64)); let lmem = Arc::new(AtomicI64::new(0));
    let ws: Vec<Wm> = (0..r.range(1, 2)).map(|_| module(&mut r)).collect();
    o.case(crate::hash_bytes(ws[0].text.as_bytes()) ^ seed, || format!("seed {seed}: {} modules, first: {}", ws.len(), ws[0].text.chars().take(300).collect::<String>()));
    let mut mods: Vec<Option<Module>> = ws.iter().map(|w| Some(crate::m_exec::module(&w.text, r.chance(3, 4)))).collect();
    struct St { st: Store, insts: Vec<(usize, ModuleInstance)>, im: Imports, mem: Memory, tab: Table, poisoned: bool }
    let mut sts: Vec<Option<Box<St>>> = vec![]; let mut forgot = false;
    let mut old: Vec<(Option<Function>, Memory, Table)> = vec![];
    let mk = |r: &mut Rng| -> Box<St> {
        let lm = lmem.clone();
        let be = match r.below(4) { 0 => MemoryBackend::paged(1 << r.range(6, 14)), 1 => { MemoryBackend::custom(move |ty: MemoryType| { lm.fetch_add(1, SeqCst); Ok(M(vec![0; ty.initial_size() as usize], lm.clone())) }) } _ => MemoryBackend::vec() };
        let mut st = Store::new(Engine::new(Config::new().with_memory_backend(be).with_call_stack(StackConfig::dynamic(r.below(4), 200))));
        let mem = Memory::new(&mut st, MemoryType::new(MemoryArch::I32, 1, Some(3), None)).unwrap();
        let tab = Table::new(&mut st, TableType::new(WasmType::RefFunc, TS as u64, None), WasmValue::RefFunc(FuncRef::null())).unwrap();
        let l = Live::new(&live); let left = Cell::new(r.below(12)); let pan = r.chance(1, 6); let n = Cell::new(0);
        let h = HostFunction::from(&mut st, move |mut c: FuncContext<'_>, (a, b): (i32, i64)| -> tinywasm::Result<i64> {
            let _ = &l; n.set(n.get() + 1);
            if pan && n.get() == 5 { panic!("monitor's own: a host function panics") }
            if left.get() == 0 { return Ok(b ^ 5) }
            left.set(left.get() - 1);
            let f = c.module().func_untyped(c.store(), "f0")?;
            match c.call_untyped(&f, &[WasmValue::I32(a.min(4) - 1), WasmValue::I64(b)]) { Ok(v) => if let WasmValue::I64(x) = v[0] { Ok(x) } else { Ok(0) }, Err(e) => if a & 1 == 0 { Err(e) } else { Ok(1) } }
        });
        let id = tinywasm::Global::new(&mut st, GlobalType::new(WasmType::I64, false), WasmValue::I64(3)).unwrap();
        let sg = tinywasm::Global::new(&mut st, GlobalType::new(WasmType::I64, true), WasmValue::I64(4)).unwrap();
        let mut im = Imports::new(); im.define("s", "t", tab.clone()); im.define("s", "m", mem.clone()); im.define("s", "h", h.clone()); im.define("s", "x", h); im.define("s", "id", id); im.define("s", "sg", sg);
        Box::new(St { st, insts: vec![], im, mem, tab, poisoned: false })
    };
    sts.push(Some(mk(&mut r)));
    for _ in 0..r.range(10, 40) {
        let k = r.below(sts.len()); let what = r.below(16);
        o.inc("operations");
        if sts.len() < 4 && what == 0 { sts.push(Some(mk(&mut r))); continue }
        let Some(s) = sts[k].as_mut() else { continue };
        if s.poisoned && what != 1 { continue }
        match what {
            1 => { o.inc("stores_dropped"); if !s.insts.is_empty() { old.push((s.insts[0].1.func_untyped(&s.st, "f0").ok(), s.mem.clone(), s.tab.clone())) }
                let b = sts[k].take().unwrap(); let St { st, insts, im, mem, tab, .. } = *b;
                match r.below(3) { 0 => { drop(st); drop(insts); drop(im); let _ = (mem, tab); } 1 => { drop(im); drop(insts); drop(st) } _ => { drop(insts); drop(st); drop(im) } } }
            2..=4 => { let m = r.below(mods.len()); if let Some(md) = &mods[m] { let c = r.chance(1, 6); let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| ModuleInstance::instantiate(&mut s.st, md, Some(if c { Imports::new() } else { s.im.clone() }))));
                match res { Ok(Ok(i)) => { o.inc("instances"); s.insts.push((m, i)) } Ok(Err(_)) => o.inc("failed_instantiations"), Err(_) => s.poisoned = true } } }
            5 => if r.chance(1, 3) { let m = r.below(mods.len()); if let Some(md) = mods[m].take() { o.inc("modules_dropped"); if r.chance(1, 2) { mods.push(Some(md.clone())) } } },
            6 if !s.insts.is_empty() => { let x = r.below(s.insts.len()); s.insts.remove(x); o.inc("instances_dropped") }
            7 => if !old.is_empty() { // handles of a store that is gone, or of another one
                let (f, m, t) = r.pick(&old).clone(); let s = sts[k].as_mut().unwrap(); o.inc("stale_handles_used");
                if let Some(f) = f { if f.call(&mut s.st, &[WasmValue::I32(1), WasmValue::I64(1)]).is_ok() { return Err(Bad::new("a function of a dropped store was called in another one")) } }
                if m.read_vec(&s.st, 0, 4).is_ok() { return Err(Bad::new("a memory of a dropped store was read in another one")) }
                if t.get(&s.st, 0).is_ok() { return Err(Bad::new("a table of a dropped store was read in another one")) }
            },
            _ => if !s.insts.is_empty() {
                let (m, inst) = r.pick(&s.insts).clone(); let f = inst.func_untyped(&s.st, &format!("f{}", r.below(ws[m % ws.len()].nf))); let Ok(f) = f else { continue };
                for (k, slot) in [r.below(12), r.below(12)].into_iter().enumerate() { if let Ok(g) = inst.func_untyped(&s.st, "reg") { let _ = g.call(&mut s.st, &[WasmValue::I32(slot as i32), WasmValue::I32(k as i32)]); } }
                let a = [WasmValue::I32(r.below(6) as i32), WasmValue::I64(r.u64() as i64)];
                let (mode, slices, fu) = (r.below(6), r.below(8), *r.pick(&[1u32, 7, 128, 1000]));
                let mut done = "completed";
                let st = &mut s.st;
                let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| -> bool {
                    if mode == 0 { let _ = f.call(st, &a); return false }
                    let Ok(mut e) = f.call_resumable(st, &a) else { done = "refused"; return false };
                    for _ in 0..slices { match e.resume_with_fuel(fu) { Ok(ExecProgress::Suspended) => done = "abandoned", _ => { done = "finished"; break } } }
                    if mode == 1 { std::mem::forget(e); return true }
                    false
                }));
                match res { Ok(f) => { if f { forgot = true; done = "forgotten" } } Err(_) => { s.poisoned = true; done = "host panicked" } }
                o.note("executions", done); o.inc("executions_started");
            },
        }
    }
    // everything that remains goes in any order
    let mut order: Vec<usize> = (0..sts.len()).collect(); r.shuffle(&mut order);
    if r.chance(1, 2) { mods.clear() }
    for k in order { sts[k] = None }
    let _ = forgot;
    if live.get() < 0 || lmem.load(SeqCst) < 0 { return Err(Bad::new("a host function or memory was dropped more than once")) }
    o.add("host_functions_never_dropped", live.get() as u64);
    Ok(())
}
