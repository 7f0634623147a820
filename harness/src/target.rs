//! Runs scenarios on tinywasm and compares every observable with the reference trace.
use crate::modgen::*;
use crate::refi::*;
use crate::rng::Rng;
use crate::scen::*;
use std::cell::{Cell, RefCell};
use std::collections::HashMap;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;
use std::time::Duration;
use tinywasm::engine::{Config, FuelPolicy, LinearMemory, MemoryBackend, StackConfig};
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::types::{ExternRef, FuncRef, GlobalType, MemoryArch, MemoryType, TableType, WasmType, WasmValue};
use tinywasm::{Engine, Error, ExecProgress, Extern, FuncContext, Function, HostFunction, Imports, Memory, Module, ModuleInstance, Store, Table};

/// What a 32-bit target without threads and clocks lacks.
#[cfg(target_arch = "wasm32")]
pub trait NoThreads: Sized { fn with_parser_threads(self, _: usize) -> Self { self } }
#[cfg(target_arch = "wasm32")]
impl NoThreads for ParserOptions {}
pub trait ResumeFor { fn resume_for(&mut self, d: Duration) -> Result<ExecProgress<Vec<WasmValue>>, Error>; }
impl ResumeFor for tinywasm::FuncExecution<'_> {
    #[cfg(not(target_arch = "wasm32"))]
    fn resume_for(&mut self, d: Duration) -> Result<ExecProgress<Vec<WasmValue>>, Error> { self.resume_with_time_budget(d) }
    #[cfg(target_arch = "wasm32")]
    fn resume_for(&mut self, d: Duration) -> Result<ExecProgress<Vec<WasmValue>>, Error> { self.resume_with_fuel(d.subsec_nanos() / 8 + 64) }
}

#[derive(Clone, Debug, PartialEq)]
pub enum Slice { Direct, Fuel(u32), Rnd(u64), Time(u64), Mixed(u64) }
#[derive(Clone, Debug, PartialEq)]
pub enum ParseMode { Bytes, Stream(usize), Archive }
#[derive(Clone, Debug, PartialEq)]
pub enum Back { Vec, Paged(usize), Custom(usize), Lazy, LazyPaged(usize) }
#[derive(Clone, Debug)]
pub struct Cfg { pub opt: bool, pub alloc: bool, pub parse: ParseMode, pub threads: Option<usize>, pub back: Back, pub stack: Option<(StackConfig, StackConfig)>, pub slice: Slice, pub weighted: bool, pub oom: bool, /// look at the state only at the end
 pub sparse: bool }
impl Default for Cfg { fn default() -> Self { Cfg { opt: true, alloc: true, parse: ParseMode::Bytes, threads: Some(1), back: Back::Vec, stack: None, slice: Slice::Fuel(1_000_000), weighted: false, oom: false, sparse: false } } }
impl Cfg {
    pub fn random(r: &mut Rng) -> Cfg {
        Cfg {
            opt: r.chance(3, 4), alloc: r.chance(3, 4), parse: match r.below(6) { 0 => ParseMode::Stream(*r.pick(&[1, 7, 64, 1000])), 1 => ParseMode::Archive, _ => ParseMode::Bytes }, threads: Some(1),
            back: match r.below(6) { 0 => Back::Paged(1 << r.range(0, 16)), 1 => Back::Custom(r.range(1, 5000)), 2 => Back::Lazy, _ => Back::Vec },
            stack: if r.chance(1, 4) { Some((StackConfig::dynamic(r.below(4), 8192), StackConfig::dynamic(r.below(3), 300))) } else { None },
            slice: match r.below(5) { 0 => Slice::Direct, 1 => Slice::Rnd(r.u64()), 2 => Slice::Fuel(*r.pick(&[1, 2, 3, 50, 127, 128, 129, 1000])), _ => Slice::Fuel(1_000_000) }, weighted: r.chance(1, 4), oom: r.chance(1, 8), sparse: r.chance(1, 4),
        }
    }
    /// short name of the kind of configuration
    pub fn kind(&self) -> String { format!("opt={} alloc={} parse={} backend={} slice={}{}{}", self.opt as u8, self.alloc as u8, match self.parse { ParseMode::Bytes => "bytes", ParseMode::Stream(_) => "stream", ParseMode::Archive => "archive" }, match self.back { Back::Vec => "vec", Back::Paged(_) => "paged", Back::Custom(_) => "custom", Back::Lazy => "lazy", Back::LazyPaged(_) => "lazy-paged" }, match self.slice { Slice::Direct => "direct", Slice::Fuel(n) if n >= 1_000_000 => "one", Slice::Fuel(_) => "fuel", Slice::Rnd(_) => "random", Slice::Time(_) => "time", Slice::Mixed(_) => "mixed" }, if self.weighted { " weighted" } else { "" }, if self.stack.is_some() { " stack" } else { "" }) }
    pub fn opts(&self) -> ParserOptions {
        let mut o = ParserOptions::default().with_rewrite_optimization(self.opt).with_local_memory_allocation_optimization(self.alloc);
        if let Some(t) = self.threads { o = o.with_parser_threads(t) }
        o
    }
    pub fn engine(&self, log: &Rc<MemLog>) -> Engine {
        let mut c = Config::new().with_fuel_policy(if self.weighted { FuelPolicy::Weighted } else { FuelPolicy::PerInstruction }).with_trap_on_oom(self.oom);
        if let Some((v, k)) = self.stack { c = c.with_value_stack(v).with_call_stack(k) }
        c = match &self.back {
            Back::Vec => c, Back::Paged(n) => c.with_memory_backend(MemoryBackend::paged(*n)),
            Back::Custom(n) => { let n = *n; let l = Arc2(log.clone()); c.with_memory_backend(MemoryBackend::custom(move |t: MemoryType| { let l = l.get(); Ok::<_, Error>(RecMem { data: vec![0; t.initial_size() as usize], chunk: n, log: l }) })) }
            Back::LazyPaged(n) => { let n = *n; c.with_memory_backend(MemoryBackend::custom(move |t: MemoryType| tinywasm::engine::LazyLinearMemory::try_new(t, MemoryBackend::paged(n)))) }
            Back::Lazy => c.with_memory_backend(MemoryBackend::custom(|t: MemoryType| tinywasm::engine::LazyLinearMemory::try_new(t, MemoryBackend::default()))),
        };
        Engine::new(c)
    }
    pub fn parse(&self, b: &[u8]) -> Result<Module, String> {
        let p = Parser::with_options(self.opts());
        match &self.parse {
            ParseMode::Bytes => p.parse_module_bytes(b).map_err(|e| format!("{e:?}")),
            ParseMode::Stream(n) => p.parse_module_stream(Chunks { b, n: *n, i: 0 }).map_err(|e| format!("{e:?}")),
            ParseMode::Archive => { let m = p.parse_module_bytes(b).map_err(|e| format!("{e:?}"))?; let t = m.serialize_twasm().map_err(|e| format!("serialize: {e:?}"))?; Module::try_from_twasm(&t).map_err(|e| format!("reload: {e:?}")) }
        }
    }
}
/// A reader that returns at most `n` bytes at a time (irregularly), and is now and then interrupted.
pub struct Chunks<'a> { pub b: &'a [u8], pub n: usize, pub i: usize }
impl std::io::Read for Chunks<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.i += 1;
        if self.i % 11 == 4 { return Err(std::io::ErrorKind::Interrupted.into()) }
        let k = (1 + (self.i * 7919) % self.n).min(out.len()).min(self.b.len());
        out[..k].copy_from_slice(&self.b[..k]); self.b = &self.b[k..]; Ok(k)
    }
}

// ---- a recording linear memory that checks the calls it receives
#[derive(Default)]
pub struct MemLog { pub cap: Cell<Option<usize>>, pub refused: Cell<u64>, pub calls: Cell<u64>, pub bad: RefCell<Option<String>>, pub short: Cell<u64> }
struct Arc2(Rc<MemLog>);
impl Arc2 { fn get(&self) -> Rc<MemLog> { self.0.clone() } }
// the engine and everything made from it stay on one thread
unsafe impl Send for Arc2 {}
unsafe impl Sync for Arc2 {}
pub struct RecMem { data: Vec<u8>, chunk: usize, log: Rc<MemLog> }
impl RecMem { fn c(&self) { self.log.calls.set(self.log.calls.get() + 1) } fn bad(&self, s: String) { self.log.bad.borrow_mut().get_or_insert(s); } }
impl LinearMemory for RecMem {
    fn len(&self) -> usize { self.data.len() }
    fn grow_to(&mut self, n: usize) -> Result<(), tinywasm::Trap> { self.c(); if n < self.data.len() { self.bad(format!("grow_to shrinks {} -> {n}", self.data.len())) } if self.log.cap.get().is_some_and(|c| n > c) { self.log.refused.set(self.log.refused.get() + 1); return Err(tinywasm::Trap::OutOfMemory) } self.data.resize(n, 0); Ok(()) }
    // short transfers are allowed: stop at chunk boundaries
    fn read(&self, a: usize, dst: &mut [u8]) -> usize { self.c(); if a >= self.data.len() { return 0 } let n = dst.len().min(self.data.len() - a).min(self.chunk - a % self.chunk); if n < dst.len() { self.log.short.set(self.log.short.get() + 1) } dst[..n].copy_from_slice(&self.data[a..a + n]); n }
    fn write(&mut self, a: usize, src: &[u8]) -> usize { self.c(); if a >= self.data.len() { return 0 } let n = src.len().min(self.data.len() - a).min(self.chunk - a % self.chunk); if n < src.len() { self.log.short.set(self.log.short.get() + 1) } self.data[a..a + n].copy_from_slice(&src[..n]); n }
}

pub fn wt(t: Ty) -> WasmType { match t { Ty::I32 => WasmType::I32, Ty::I64 => WasmType::I64, Ty::F32 => WasmType::F32, Ty::F64 => WasmType::F64, Ty::V128 => WasmType::V128, Ty::Func => WasmType::RefFunc, Ty::Extern => WasmType::RefExtern } }
pub fn t_mem(t: &MemTy) -> MemoryType { MemoryType::new(if t.m64 { MemoryArch::I64 } else { MemoryArch::I32 }, t.min, t.max, if t.page_log2 == 16 { None } else { Some(1 << t.page_log2) }) }
pub fn t_table(t: &TableTy) -> TableType { if t.t64 { TableType::new64(wt(t.elem), t.min, t.max) } else { TableType::new(wt(t.elem), t.min, t.max) } }
pub fn t_global(t: &GlobalTy) -> GlobalType { GlobalType::new(wt(t.ty), t.mutable) }
pub fn t_ftype(f: &FT) -> tinywasm::types::FuncType { let p: Vec<_> = f.params.iter().map(|t| wt(*t)).collect(); let r: Vec<_> = f.results.iter().map(|t| wt(*t)).collect(); tinywasm::types::FuncType::new(&p, &r) }

/// Correspondence between function addresses of the two stores, learned from what is observed.
#[derive(Default)]
pub struct FMap { t2r: HashMap<u32, usize>, r2t: HashMap<usize, u32> }
impl FMap {
    fn same(&mut self, t: u32, r: usize) -> bool {
        match (self.t2r.get(&t), self.r2t.get(&r)) { (None, None) => { self.t2r.insert(t, r); self.r2t.insert(r, t); true } (Some(a), Some(b)) => *a == r && *b == t, _ => false }
    }
}
pub fn to_val(t: Ty, v: V, fm: &FMap) -> WasmValue {
    match t {
        Ty::I32 => WasmValue::I32(v as u32 as i32), Ty::I64 => WasmValue::I64(v as u64 as i64), Ty::F32 => WasmValue::F32(f32::from_bits(v as u32)), Ty::F64 => WasmValue::F64(f64::from_bits(v as u64)),
        Ty::V128 => WasmValue::V128(v.to_le_bytes()), Ty::Extern => WasmValue::RefExtern(ExternRef::new(if v == NULL { None } else { Some(v as u32) })),
        Ty::Func => WasmValue::RefFunc(FuncRef::new(if v == NULL { None } else { fm.r2t.get(&(v as usize)).copied() })),
    }
}
/// bits of a target value; functions keep their target address
pub fn bits(v: &WasmValue) -> (Ty, V) {
    match v {
        WasmValue::I32(x) => (Ty::I32, *x as u32 as V), WasmValue::I64(x) => (Ty::I64, *x as u64 as V), WasmValue::F32(x) => (Ty::F32, x.to_bits() as V), WasmValue::F64(x) => (Ty::F64, x.to_bits() as V),
        WasmValue::V128(b) => (Ty::V128, u128::from_le_bytes(*b)), WasmValue::RefExtern(r) => (Ty::Extern, r.addr().map(|a| a as V).unwrap_or(NULL)), WasmValue::RefFunc(r) => (Ty::Func, r.addr().map(|a| a as V).unwrap_or(NULL)),
        #[allow(unreachable_patterns)] _ => unreachable!(),
    }
}
pub fn same(a: &(Ty, V), b: &(Ty, V), fm: &mut FMap) -> bool {
    if a.0 != b.0 { return false }
    match a.0 {
        Ty::F32 if is_nan32(a.1) && is_nan32(b.1) => true, Ty::F64 if is_nan64(a.1) && is_nan64(b.1) => true,
        Ty::Func => if a.1 == NULL || b.1 == NULL { a.1 == b.1 } else { fm.same(b.1 as u32, a.1 as usize) },
        _ => a.1 == b.1,
    }
}
pub fn err_class(e: &Error) -> String {
    match e {
        Error::Trap(tinywasm::Trap::HostFunction(e)) => { if let Some(e) = e.downcast_ref::<Error>() { return err_class(e) } let s = e.to_string(); format!("host:{}", s.trim_start_matches("host function trap: ")) }
        Error::Trap(t) => t.message().to_string(),
        Error::Linker(tinywasm::LinkingError::UnknownImport { .. }) => "link:unknown import".into(),
        Error::Linker(tinywasm::LinkingError::IncompatibleImportType { .. }) => "link:incompatible import type".into(),
        Error::Other(s) if s.starts_with("hostfail") => format!("host:{s}"),
        e => format!("error:{e:?}"),
    }
}

#[derive(Default, Clone, Debug)]
pub struct Stats { pub steps: u64, pub slices: u64, pub suspended: u64, pub events: u64, pub bytes: u64, pub refs: u64, pub mem_calls: u64, pub mem_short: u64, pub inconclusive: u64, pub after: u64 }
pub struct Run { pub stats: Stats, pub bad: Option<String> }

struct TRun { store: Store, objs: Vec<Option<Extern>>, slots: Vec<Option<ModuleInstance>>, fm: Rc<RefCell<FMap>>, host: Rc<THost>, stats: Stats, rng: Rng }
#[derive(Default)]
struct THost { log: RefCell<Vec<(usize, Vec<WasmValue>)>>, count: RefCell<Vec<u64>>, left: RefCell<Vec<u32>>, sigs: RefCell<Vec<HashMap<String, Vec<Ty>>>>, inst_mod: RefCell<Vec<usize>>, pending: Cell<usize> }
impl THost { fn params(&self, inst: u32, name: &str) -> Vec<Ty> { let m = self.inst_mod.borrow().get(inst as usize).copied().unwrap_or(self.pending.get()); self.sigs.borrow()[m][name].clone() } }

enum TItem { F(Function), M(Memory), T(Table), G(tinywasm::Global) }
impl TRun {
    fn item(&self, it: &Item) -> Option<TItem> {
        match it {
            Item::Obj(k) => match self.objs.get(*k)?.as_ref()? { Extern::Function(f) => Some(TItem::F(f.clone())), Extern::Memory(m) => Some(TItem::M(m.clone())), Extern::Table(t) => Some(TItem::T(t.clone())), Extern::Global(g) => Some(TItem::G(g.clone())), #[allow(unreachable_patterns)] _ => None },
            Item::Exp(s, n) => { let i = self.slots.get(*s)?.as_ref()?; let x = i.extern_item(n).ok()?; use tinywasm::ExternItem as E; Some(match x { E::Func(f) => TItem::F(f), E::Memory(m) => TItem::M(m), E::Table(t) => TItem::T(t), E::Global(g) => TItem::G(g) }) }
        }
    }
    fn call(&mut self, f: &Function, args: &[WasmValue], slice: &Slice, limit: u64) -> Result<Result<Vec<WasmValue>, Error>, &'static str> {
        match slice {
            Slice::Direct => Ok(f.call(&mut self.store, args)),
            _ => {
                let mut ex = match f.call_resumable(&mut self.store, args) { Ok(e) => e, Err(e) => return Ok(Err(e)) };
                let mut used = 0u64;
                loop {
                    self.stats.slices += 1;
                    let (r, cost) = match slice {
                        Slice::Fuel(n) => (ex.resume_with_fuel(*n), (*n as u64).max(1)),
                        Slice::Rnd(_) => { let n = *self.rng.pick(&[1u32, 1, 0, 2, 3, 7, 100, 127, 128, 129, 255, 1000]); (ex.resume_with_fuel(n), n as u64) }
                        Slice::Time(ns) => (ex.resume_for(Duration::from_nanos(*ns)), 64),
                        _ => if self.rng.chance(1, 2) { let n = self.rng.below(300) as u32; (ex.resume_with_fuel(n), n as u64) } else { let n = self.rng.below(2000) as u64; (ex.resume_for(Duration::from_nanos(n)), 64) },
                    };
                    used += cost;
                    let over = matches!(r, Err(_) | Ok(ExecProgress::Completed(_)));
                    if over && self.stats.slices % 4 == 0 {
                        // nothing is left to resume, whatever the outcome
                        self.stats.after += 1;
                        if match self.stats.slices % 8 { 0 => ex.resume_with_fuel(500), _ => ex.resume_for(Duration::from_micros(50)) }.is_ok() { return Err("a call that was over could be resumed") }
                    }
                    match r {
                        Err(e) => return Ok(Err(e)), Ok(ExecProgress::Completed(v)) => return Ok(Ok(v)),
                        Ok(ExecProgress::Suspended) => { self.stats.suspended += 1; if used > limit { return Err("the call did not finish within the fuel bound") } }
                    }
                }
            }
        }
    }
}

fn make_host(st: &Rc<THost>, fm: &Rc<RefCell<FMap>>, id: usize, ty: &FT, kind: &HostKind, store: &mut Store) -> Function {
    let (st, ty2, kind, fm) = (st.clone(), ty.clone(), kind.clone(), fm.clone());
    HostFunction::from_untyped(store, &t_ftype(ty), move |mut ctx: FuncContext<'_>, args: &[WasmValue]| {
        let targs: Vec<(Ty, V)> = args.iter().map(bits).collect();
        st.log.borrow_mut().push((id, args.to_vec()));
        let n = { let mut c = st.count.borrow_mut(); c[id] += 1; c[id] };
        let mut extra = 0u64;
        match &kind {
            HostKind::Log => {}
            HostKind::Charge(k) => ctx.charge_fuel(*k),
            HostKind::Fail(k) => if n % *k as u64 == 0 { return Err(Error::Other(format!("hostfail {id} {n}"))) },
            HostKind::Poke(name) => if let Ok(m) = ctx.memory(name) {
                let len = m.len(ctx.store())?;
                if len >= 8 { let a = (n as usize * 13) % (len - 1); let b = m.read_vec(ctx.store(), a, 1)?[0]; extra = b as u64; m.copy_from_slice(ctx.store_mut(), a, &[b.wrapping_add(n as u8)])? }
            },
            HostKind::Bump(name) => if let Ok(g) = ctx.global(name) { if g.ty(ctx.store())? == GlobalType::new(WasmType::I32, true) { if let WasmValue::I32(v) = g.get(ctx.store())? { g.set(ctx.store_mut(), WasmValue::I32(v.wrapping_add(n as i32)))? } } },
            HostKind::Grow(name) => if n % 3 == 0 { if let Ok(m) = ctx.memory(name) { extra = m.grow(ctx.store_mut(), 1)?.map(|x| x as u64 + 1).unwrap_or(0) } },
            HostKind::Reenter { names, swallow, .. } => {
                let go = { let mut l = st.left.borrow_mut(); if l[id] > 0 { l[id] -= 1; true } else { false } };
                if go {
                    let inst = ctx.module();
                    let name = &names[n as usize % names.len()];
                    if let Ok(f) = inst.func_untyped(ctx.store(), name) {
                        let params = st.params(inst.id(), name);
                        let a = reenter_args(&params, n, &targs);
                        let a: Vec<WasmValue> = params.iter().zip(a).map(|(t, v)| if *t == Ty::Func { WasmValue::RefFunc(FuncRef::new(if v == NULL { None } else { Some(v as u32) })) } else { to_val(*t, v, &fm.borrow()) }).collect();
                        match ctx.call_untyped(&f, &a) {
                            Ok(v) => { for x in &v { let (t, x) = bits(x); if matches!(t, Ty::I32 | Ty::I64) { extra = extra.rotate_left(7) ^ x as u64 } } }
                            Err(e) => if !*swallow { return Err(e) } else { extra = 99 },
                        }
                    }
                }
            }
        }
        let n2 = n ^ (extra << 8);
        let r = host_results(id, n2, &ty2.results, &targs);
        Ok(ty2.results.iter().zip(r).map(|(t, v)| if *t == Ty::Func { WasmValue::RefFunc(FuncRef::new(if v == NULL { None } else { Some(v as u32) })) } else { to_val(*t, v, &fm.borrow()) }).collect())
    })
}
pub fn rty_of(t: WasmType) -> Ty { match t { WasmType::I32 => Ty::I32, WasmType::I64 => Ty::I64, WasmType::F32 => Ty::F32, WasmType::F64 => Ty::F64, WasmType::V128 => Ty::V128, WasmType::RefFunc => Ty::Func, WasmType::RefExtern => Ty::Extern } }

pub fn panic_text(e: Box<dyn std::any::Any + Send>) -> String { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() }

/// Runs the scenario on the target under `cfg` and compares with the trace. A panic anywhere is a violation.
pub fn run_target(sc: &Scen, tr: &Trace, cfg: &Cfg) -> Run {
    // large memories in tiny chunks take minutes
    let peak = tr.steps.iter().flat_map(|s| &s.snap.mems).map(|m| m.len()).max().unwrap_or(0);
    let wide = |n: usize| if peak > 300_000 { n.max(1024) } else { n };
    let cfg = &Cfg { back: match cfg.back { Back::Paged(n) => Back::Paged(wide(n)), Back::LazyPaged(n) => Back::LazyPaged(wide(n)), Back::Custom(n) => Back::Custom(wide(n)), ref b => b.clone() }, ..cfg.clone() };
    let log = Rc::new(MemLog::default());
    let stats = Rc::new(RefCell::new(Stats::default()));
    let at = Rc::new(Cell::new(usize::MAX));
    let r = catch_unwind(AssertUnwindSafe(|| run_inner(sc, tr, cfg, &log, &stats, &at)));
    let mut st = stats.borrow().clone();
    st.mem_calls = log.calls.get(); st.mem_short = log.short.get();
    let bad = match r {
        Ok(Ok(())) => log.bad.borrow().clone(),
        Ok(Err(s)) => Some(s),
        Err(e) => Some(format!("panic at action {}: {}", at.get() as isize, panic_text(e))),
    };
    Run { stats: st, bad }
}

fn run_inner(sc: &Scen, tr: &Trace, cfg: &Cfg, log: &Rc<MemLog>, out_stats: &Rc<RefCell<Stats>>, at: &Rc<Cell<usize>>) -> Result<(), String> {
    let mut mods = vec![];
    for (i, b) in sc.modules.iter().enumerate() { mods.push(cfg.parse(b).map_err(|e| format!("valid module {i} rejected: {e}"))?) }
    let seed = match cfg.slice { Slice::Rnd(s) | Slice::Mixed(s) => s, _ => 0 };
    let mut t = TRun { store: Store::new(cfg.engine(log)), objs: vec![], slots: vec![], fm: Default::default(), host: Default::default(), stats: Default::default(), rng: Rng::new(seed) };
    *t.host.sigs.borrow_mut() = mods.iter().map(sig_map).collect();
    let limit = tr.ref_steps * 40 + 2_000_000;
    for (k, step) in tr.steps.iter().enumerate() {
        at.set(k);
        let a = &sc.acts[k];
        t.stats.steps += 1;
        let got = act(&mut t, a, &mods, cfg, limit);
        let fail = |what: String| -> String { format!("action {k} {}: {what}", brief(a)) };
        let got = got.map_err(|e| fail(e.to_string()))?;
        // outcome
        let want = &step.out;
        let ok = match (want, &got) {
            (Out::Vals(w), TOut::Vals(g)) => w.len() == g.len() && w.iter().zip(g).all(|(a, b)| same(a, &bits(b), &mut t.fm.borrow_mut())),
            (Out::Trap(w), TOut::Err(g)) => w == g || (w.starts_with("host:") && g.starts_with("host:") && g.contains(&w[5..])),
            (Out::Link(w), TOut::Err(g)) => g.strip_prefix("link:") == Some(w) || *w == "any" && g.starts_with("link:"),
            (Out::Fail, TOut::Err(_)) | (Out::Fail, TOut::Fail) => true,
            (Out::NA, TOut::NA) => true,
            _ => false,
        };
        if !ok { *out_stats.borrow_mut() = t.stats.clone(); return Err(fail(format!("expected {want:x?}, got {got:x?}"))) }
        // host events
        let ev: Vec<(usize, Vec<WasmValue>)> = t.host.log.borrow_mut().drain(..).collect();
        t.stats.events += ev.len() as u64;
        if ev.len() != step.events.len() { return Err(fail(format!("expected {} host calls, saw {}", step.events.len(), ev.len()))) }
        for (i, (w, g)) in step.events.iter().zip(&ev).enumerate() {
            let ok = w.host == g.0 && w.args.len() == g.1.len() && w.args.iter().zip(&g.1).all(|(a, b)| same(a, &bits(b), &mut t.fm.borrow_mut()));
            if !ok { return Err(fail(format!("host call {i}: expected {w:x?}, got {g:x?}"))) }
        }
        if !cfg.sparse || k + 1 == tr.steps.len() { compare_state(&mut t, tr, step).map_err(fail)?; }
        *out_stats.borrow_mut() = t.stats.clone();
    }
    Ok(())
}
fn sig_map(m: &Module) -> HashMap<String, Vec<Ty>> { m.exports().filter_map(|e| match e.ty { tinywasm::types::ExportType::Func(f) => Some((e.name.to_string(), f.params().iter().map(|t| rty_of(*t)).collect())), _ => None }).collect() }
fn brief(a: &Act) -> String { let s = format!("{a:x?}"); let mut o: String = s.chars().take(160).collect(); if o.len() < s.len() { o += "..." } o }

#[derive(Debug)]
enum TOut { Vals(Vec<WasmValue>), Err(String), Fail, NA }

fn act(t: &mut TRun, a: &Act, mods: &[Module], cfg: &Cfg, limit: u64) -> Result<TOut, String> {
    fn res<T>(r: Result<T, Error>, f: impl FnOnce(T) -> Vec<WasmValue>) -> TOut { match r { Ok(v) => TOut::Vals(f(v)), Err(e) => TOut::Err(err_class(&e)) } }
    let e2s = |e: Error| format!("{e:?}");
    Ok(match a {
        Act::HostFn { ty, kind } => {
            let id = t.objs.len();
            { let mut c = t.host.count.borrow_mut(); let mut l = t.host.left.borrow_mut(); while c.len() <= id { c.push(0); l.push(0) } if let HostKind::Reenter { left, .. } = kind { l[id] = *left } }
            let f = make_host(&t.host.clone(), &t.fm.clone(), id, ty, kind, &mut t.store);
            t.objs.push(Some(f.into())); TOut::NA
        }
        Act::Mem(m) => { let m = Memory::new(&mut t.store, t_mem(m)).map_err(e2s)?; t.objs.push(Some(m.into())); TOut::NA }
        Act::Table(x) => { let v = if x.elem == Ty::Func { WasmValue::RefFunc(FuncRef::null()) } else { WasmValue::RefExtern(ExternRef::null()) }; let m = Table::new(&mut t.store, t_table(x), v).map_err(e2s)?; t.objs.push(Some(m.into())); TOut::NA }
        Act::Global(g, v) => { let v = to_val(g.ty, *v, &t.fm.borrow()); let g = tinywasm::Global::new(&mut t.store, t_global(g), v).map_err(e2s)?; t.objs.push(Some(g.into())); TOut::NA }
        Act::Inst { m, imports, start } => {
            let mut im = Imports::new();
            for (md, n, it) in imports { match t.item(it) { None => {} Some(TItem::F(x)) => { im.define(md, n, x); } Some(TItem::M(x)) => { im.define(md, n, x); } Some(TItem::T(x)) => { im.define(md, n, x); } Some(TItem::G(x)) => { im.define(md, n, x); } } }
            let direct = cfg.slice == Slice::Direct && *start;
            t.host.pending.set(*m);
            let r = if direct { ModuleInstance::instantiate(&mut t.store, &mods[*m], Some(im)) } else { ModuleInstance::instantiate_no_start(&mut t.store, &mods[*m], Some(im)) };
            { let mut im = t.host.inst_mod.borrow_mut(); while t.store.get_module_instance(im.len() as u32).is_some() { im.push(*m) } }
            match r {
                Err(e) => { t.slots.push(None); TOut::Err(err_class(&e)) }
                Ok(i) => {
                    if !direct && *start { if let Some(f) = i.start_func(&t.store).map_err(e2s)? { if let Err(e) = t.call(&f, &[], &cfg.slice.clone(), limit)? { t.slots.push(None); return Ok(TOut::Err(err_class(&e))) } } }
                    t.slots.push(Some(i)); TOut::Vals(vec![])
                }
            }
        }
        Act::Start(s) => { let Some(Some(i)) = t.slots.get(*s) else { return Ok(TOut::NA) }; match i.start_func(&t.store).map_err(e2s)? { None => TOut::NA, Some(f) => { let r = t.call(&f, &[], &cfg.slice.clone(), limit)?; res(r, |_| vec![]) } } }
        Act::Call { slot, name, args } => {
            let Some(Some(i)) = t.slots.get(*slot) else { return Ok(TOut::NA) };
            let f = match i.func_untyped(&t.store, name) { Ok(f) => f, Err(e) => return Ok(TOut::Err(err_class(&e))) };
            let args: Vec<WasmValue> = args.iter().map(|(t_, v)| to_val(*t_, *v, &t.fm.borrow())).collect();
            let r = t.call(&f, &args, &cfg.slice.clone(), limit)?;
            res(r, |v| v)
        }
        Act::MemWrite { it, off, bytes } => { let Some(TItem::M(m)) = t.item(it) else { return Ok(TOut::NA) }; res(m.copy_from_slice(&mut t.store, *off as usize, bytes), |_| vec![]) }
        Act::MemRead { it, off, len } => { let Some(TItem::M(m)) = t.item(it) else { return Ok(TOut::NA) }; res(m.read_vec(&t.store, *off as usize, *len as usize), |v| vec![WasmValue::I64(crate::hash_bytes(&v) as i64)]) }
        Act::MemFill { it, off, len, val } => { let Some(TItem::M(m)) = t.item(it) else { return Ok(TOut::NA) }; res(m.fill(&mut t.store, *off as usize, *len as usize, *val), |_| vec![]) }
        Act::MemCopy { it, dst, src, len } => { let Some(TItem::M(m)) = t.item(it) else { return Ok(TOut::NA) }; res(m.copy_within(&mut t.store, *src as usize, *dst as usize, *len as usize), |_| vec![]) }
        Act::MemGrow { it, delta } => { let Some(TItem::M(m)) = t.item(it) else { return Ok(TOut::NA) }; match m.grow(&mut t.store, *delta as i64) { Ok(Some(x)) => TOut::Vals(vec![WasmValue::I64(x)]), Ok(None) => TOut::Fail, Err(e) => TOut::Err(err_class(&e)) } }
        Act::TableSet { it, idx, from } => {
            let Some(TItem::T(x)) = t.item(it) else { return Ok(TOut::NA) };
            let ety = x.ty(&t.store).map_err(e2s)?.element_type;
            let v = match from {
                None => if ety == WasmType::RefFunc { WasmValue::RefFunc(FuncRef::null()) } else { WasmValue::RefExtern(ExternRef::null()) },
                Some((fi, k)) => { let Some(TItem::T(f)) = t.item(fi) else { return Ok(TOut::NA) }; if f.ty(&t.store).map_err(e2s)?.element_type != ety { return Ok(TOut::NA) } match f.get(&t.store, *k) { Ok(v) => v, Err(e) => return Ok(TOut::Err(err_class(&e))) } }
            };
            res(x.set(&mut t.store, *idx, v).map_err(Error::Trap), |_| vec![])
        }
        Act::TableGrow { it, delta } => { let Some(TItem::T(x)) = t.item(it) else { return Ok(TOut::NA) }; let ety = x.ty(&t.store).map_err(e2s)?.element_type; let v = if ety == WasmType::RefFunc { WasmValue::RefFunc(FuncRef::null()) } else { WasmValue::RefExtern(ExternRef::null()) }; res(x.grow(&mut t.store, *delta as i32, v), |n| vec![WasmValue::I64(n as i64)]) }
        Act::TableCopy { it, dst, src, len } => { let Some(TItem::T(x)) = t.item(it) else { return Ok(TOut::NA) }; res(x.copy_within(&mut t.store, *src as usize, *dst as usize, *len as usize).map_err(Error::Trap), |_| vec![]) }
        Act::GlobalSet { it, v } => { let Some(TItem::G(g)) = t.item(it) else { return Ok(TOut::NA) }; let ty = g.ty(&t.store).map_err(e2s)?.ty; let v = to_val(rty_of(ty), *v, &t.fm.borrow()); res(g.set(&mut t.store, v), |_| vec![]) }
    })
}

fn cmp_mem(t: &mut TRun, m: &Memory, want: &[u8], what: &str) -> Result<(), String> {
    let len = m.len(&t.store).map_err(|e| format!("{what}: {e:?}"))?;
    if len != want.len() { return Err(format!("{what}: expected {} bytes, has {len}", want.len())) }
    let got = m.read_vec(&t.store, 0, len).map_err(|e| format!("{what}: {e:?}"))?;
    t.stats.bytes += len as u64;
    if got != want { let i = got.iter().zip(want).position(|(a, b)| a != b).unwrap(); return Err(format!("{what}: byte {i:#x} is {:#x}, expected {:#x}", got[i], want[i])) }
    Ok(())
}
fn cmp_table(t: &mut TRun, x: &Table, want: &[V], what: &str) -> Result<(), String> {
    let n = x.size(&t.store).map_err(|e| format!("{what}: {e:?}"))?;
    if n != want.len() { return Err(format!("{what}: expected size {}, has {n}", want.len())) }
    for (i, w) in want.iter().enumerate() {
        let g = x.get(&t.store, i as u32).map_err(|e| format!("{what}[{i}]: {e:?}"))?;
        t.stats.refs += 1;
        let (ty, g) = bits(&g);
        if !same(&(ty, *w), &(ty, g), &mut t.fm.borrow_mut()) { return Err(format!("{what}[{i}]: expected {w:x}, got {g:x}")) }
    }
    Ok(())
}
fn cmp_global(t: &mut TRun, g: &tinywasm::Global, want: &(Ty, V), what: &str) -> Result<(), String> {
    let v = g.get(&t.store).map_err(|e| format!("{what}: {e:?}"))?;
    if !same(want, &bits(&v), &mut t.fm.borrow_mut()) { return Err(format!("{what}: expected {want:x?}, got {v:x?}")) }
    Ok(())
}
fn compare_state(t: &mut TRun, tr: &Trace, step: &Step) -> Result<(), String> {
    let s = &step.snap;
    for slot in 0..step.slots.min(t.slots.len()) {
        let (Some(sp), Some(i)) = (tr.spaces.get(slot).cloned().flatten(), t.slots[slot].clone()) else { continue };
        // everything with guest-debug, otherwise what is exported
        #[cfg(feature = "gd")]
        {
            for (k, a) in sp.mems.iter().enumerate() { let m = i.memory_by_index(k as u32).map_err(|e| format!("memory {k} of instance {slot}: {e:?}"))?; cmp_mem(t, &m, &s.mems[*a].clone(), &format!("memory {k} of instance {slot}"))?; }
            for (k, a) in sp.tables.iter().enumerate() { let m = i.table_by_index(k as u32).map_err(|e| format!("table {k} of instance {slot}: {e:?}"))?; cmp_table(t, &m, &s.tables[*a].clone(), &format!("table {k} of instance {slot}"))?; }
            for (k, a) in sp.globals.iter().enumerate() { let m = i.global_by_index(k as u32).map_err(|e| format!("global {k} of instance {slot}: {e:?}"))?; cmp_global(t, &m, &s.globals[*a].clone(), &format!("global {k} of instance {slot}"))?; }
        }
        let _ = (&sp.mems, &sp.tables, &sp.globals);
        #[cfg(not(feature = "gd"))]
        for (name, Ext(k, a)) in &sp.exports {
            let what = format!("export {name} of instance {slot}");
            let x = i.extern_item(name).map_err(|e| format!("{what}: {e:?}"))?;
            match (k, x) {
                (Kind::Mem, tinywasm::ExternItem::Memory(m)) => cmp_mem(t, &m, &s.mems[*a].clone(), &what)?,
                (Kind::Table, tinywasm::ExternItem::Table(m)) => cmp_table(t, &m, &s.tables[*a].clone(), &what)?,
                (Kind::Global, tinywasm::ExternItem::Global(m)) => cmp_global(t, &m, &s.globals[*a].clone(), &what)?,
                (Kind::Func, tinywasm::ExternItem::Func(_)) => {}
                _ => return Err(format!("{what} is of another kind")),
            }
        }
    }
    for k in 0..t.objs.len() {
        let Some(Some(Ext(_, a))) = tr.obj_addr.get(k).copied() else { continue };
        match t.objs[k].clone() {
            Some(Extern::Memory(m)) => cmp_mem(t, &m, &s.mems[a].clone(), &format!("host memory {k}"))?,
            Some(Extern::Table(m)) => cmp_table(t, &m, &s.tables[a].clone(), &format!("host table {k}"))?,
            Some(Extern::Global(m)) => cmp_global(t, &m, &s.globals[a].clone(), &format!("host global {k}"))?,
            _ => {}
        }
    }
    Ok(())
}
#[allow(unused)]
fn unused(_: &Prof) {}
