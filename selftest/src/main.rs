//! Validates the reference interpreter (the oracle) against the WebAssembly spec testsuite.
use std::collections::HashMap;
use std::rc::Rc;
use twverif::refi::*;
use wast::core::{NanPattern, V128Pattern, WastArgCore, WastRetCore};
use wast::{QuoteWat, WastArg, WastDirective, WastExecute, WastInvoke, WastRet};

struct Ctx { s: RStore, last: Option<usize>, named: HashMap<String, usize>, reg: HashMap<String, usize>, spectest: HashMap<String, Ext> }
fn nan32(b: u32, p: &NanPattern<wast::token::F32>) -> bool { match p { NanPattern::CanonicalNan => b & 0x7fff_ffff == 0x7fc0_0000, NanPattern::ArithmeticNan => f32::from_bits(b).is_nan() && b & 0x40_0000 != 0, NanPattern::Value(v) => v.bits == b } }
fn nan64(b: u64, p: &NanPattern<wast::token::F64>) -> bool { match p { NanPattern::CanonicalNan => b & (u64::MAX >> 1) == 0x7ff8_0000_0000_0000, NanPattern::ArithmeticNan => f64::from_bits(b).is_nan() && b & (1 << 51) != 0, NanPattern::Value(v) => v.bits == b } }
fn eq(v: V, r: &WastRetCore) -> bool {
    match r {
        WastRetCore::I32(x) => v == *x as u32 as V, WastRetCore::I64(x) => v == *x as u64 as V,
        WastRetCore::F32(p) => nan32(v as u32, p), WastRetCore::F64(p) => nan64(v as u64, p),
        WastRetCore::RefNull(_) => v == NULL, WastRetCore::RefExtern(Some(x)) | WastRetCore::RefHost(x) => v == *x as V, WastRetCore::RefExtern(None) | WastRetCore::RefFunc(_) => v != NULL,
        WastRetCore::V128(p) => match p {
            V128Pattern::I8x16(a) => (0..16).all(|i| (v >> (8 * i)) as u8 == a[i] as u8), V128Pattern::I16x8(a) => (0..8).all(|i| (v >> (16 * i)) as u16 == a[i] as u16),
            V128Pattern::I32x4(a) => (0..4).all(|i| (v >> (32 * i)) as u32 == a[i] as u32), V128Pattern::I64x2(a) => (0..2).all(|i| (v >> (64 * i)) as u64 == a[i] as u64),
            V128Pattern::F32x4(a) => (0..4).all(|i| nan32((v >> (32 * i)) as u32, &a[i])), V128Pattern::F64x2(a) => (0..2).all(|i| nan64((v >> (64 * i)) as u64, &a[i])),
        },
        WastRetCore::Either(v2) => v2.iter().any(|r| eq(v, r)),
        _ => false,
    }
}
impl Ctx {
    fn new() -> Ctx {
        let mut s = RStore::default(); s.mem_cap = 1 << 32; s.fuel = u64::MAX; s.max_depth = 10000; s.table_cap = 20_000_000;
        let mut sp = HashMap::new();
        use Ty::*;
        for (n, p) in [("print", vec![]), ("print_i32", vec![I32]), ("print_i64", vec![I64]), ("print_f32", vec![F32]), ("print_f64", vec![F64]), ("print_i32_f32", vec![I32, F32]), ("print_f64_f64", vec![F64, F64])] {
            let f = s.new_host(FT { params: p, results: vec![] }, Rc::new(|_, _, _| Ok(vec![]))); sp.insert(n.to_string(), Ext(Kind::Func, f));
        }
        for (n, t, v) in [("global_i32", I32, 666), ("global_i64", I64, 666), ("global_f32", F32, 666.6f32.to_bits() as V), ("global_f64", F64, 666.6f64.to_bits() as V)] { let g = s.new_global(GlobalTy { ty: t, mutable: false }, v); sp.insert(n.into(), Ext(Kind::Global, g)); }
        let t = s.new_table(TableTy { elem: Func, min: 10, max: Some(20), t64: false }, NULL).ok().unwrap(); sp.insert("table".into(), Ext(Kind::Table, t));
        let t = s.new_table(TableTy { elem: Func, min: 10, max: Some(20), t64: true }, NULL).ok().unwrap(); sp.insert("table64".into(), Ext(Kind::Table, t));
        let m = s.new_mem(MemTy { min: 1, max: Some(2), m64: false, page_log2: 16 }).ok().unwrap(); sp.insert("memory".into(), Ext(Kind::Mem, m));
        Ctx { s, last: None, named: HashMap::new(), reg: HashMap::new(), spectest: sp }
    }
    fn inst(&mut self, bytes: &[u8]) -> Result<usize, String> {
        let f = wasmparser::WasmFeatures::all() - wasmparser::WasmFeatures::GC - wasmparser::WasmFeatures::EXCEPTIONS - wasmparser::WasmFeatures::LEGACY_EXCEPTIONS - wasmparser::WasmFeatures::THREADS;
        if let Err(e) = wasmparser::Validator::new_with_features(f).validate_all(bytes) { return Err(format!("SKIP {e}")) }
        let m = Rc::new(RModule::decode(bytes).map_err(|e| format!("SKIP {e}"))?);
        let mut im = vec![];
        for (mo, n, _) in &m.imports {
            let e = if mo == "spectest" { self.spectest.get(n).copied() } else { self.reg.get(mo).and_then(|i| self.s.export(*i, n)) };
            im.push(e.ok_or("unknown import")?);
        }
        self.s.instantiate(&m, &im, true).map_err(|e| match e { InstErr::Link(l) => l.to_string(), InstErr::Trap(t) => format!("{t:?}") })
    }
    fn call(&mut self, i: &WastInvoke) -> Result<Vec<V>, String> {
        let id = match i.module { Some(n) => self.named.get(n.name()).copied(), None => self.last }.ok_or("SKIP noinst")?;
        let Some(Ext(Kind::Func, f)) = self.s.export(id, i.name) else { return Err("SKIP noexp".into()) };
        let args: Vec<V> = i.args.iter().map(|a| match a { WastArg::Core(c) => match c { WastArgCore::I32(x) => *x as u32 as V, WastArgCore::I64(x) => *x as u64 as V, WastArgCore::F32(x) => x.bits as V, WastArgCore::F64(x) => x.bits as V, WastArgCore::V128(v) => V::from_le_bytes(v.to_le_bytes()), WastArgCore::RefNull(_) => NULL, WastArgCore::RefExtern(x) | WastArgCore::RefHost(x) => *x as V }, _ => 0 }).collect();
        std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| self.s.invoke(f, &args))).map_err(|e| format!("SKIP panic {:?}", e.downcast_ref::<String>()))?.map_err(|t| format!("{t:?}"))
    }
    fn exec(&mut self, e: &mut WastExecute) -> Result<Vec<V>, String> {
        match e { WastExecute::Invoke(i) => self.call(i), WastExecute::Wat(w) => { let b = w.encode().map_err(|_| "SKIP enc")?; self.inst(&b).map(|_| vec![]) }
            WastExecute::Get { module, global, .. } => { let id = match module { Some(n) => self.named.get(n.name()).copied(), None => self.last }.ok_or("SKIP")?; match self.s.export(id, global) { Some(Ext(_, g)) => Ok(vec![self.s.globals[g].v]), None => Err("SKIP".into()) } } }
    }
}
fn trapname(msg: &str) -> &'static str {
    if msg.starts_with("out of bounds memory") { "MemOob" } else if msg.starts_with("out of bounds table") { "TableOob" } else if msg.starts_with("undefined element") { "UndefElem" } else if msg.starts_with("uninit") { "UninitElem" } else if msg.starts_with("indirect") { "SigMismatch" } else if msg.starts_with("integer divide") { "DivZero" } else if msg.starts_with("integer overflow") { "IntOverflow" } else if msg.starts_with("invalid conv") { "BadConv" } else if msg.starts_with("unreachable") { "Unreachable" } else { "" }
}
fn main() {
    std::panic::set_hook(Box::new(|_| {}));
    use wasm_testsuite::data::*;
    let mut files: Vec<(String, String)> = vec![];
    for f in spec(&SpecVersion::V3) { files.push((f.name().to_string(), f.raw().to_string())) }
    for p in [Proposal::Simd, Proposal::MultiMemory, Proposal::Memory64, Proposal::CustomPageSizes, Proposal::WideArithmetic, Proposal::TailCall, Proposal::ExtendedConst, Proposal::BulkMemoryOperations, Proposal::ReferenceTypes, Proposal::MultiValue, Proposal::NontrappingFloatToIntConversions, Proposal::SignExtensionOps] {
        let n = format!("{p:?}"); for f in proposal(&p) { files.push((format!("{n}/{}", f.name()), f.raw().to_string())) }
    }
    let (mut ok, mut bad, mut skip) = (0u64, 0u64, 0u64);
    for (name, text) in files {
        let mut lx = wast::lexer::Lexer::new(&text); lx.allow_confusing_unicode(true);
        let Ok(buf) = wast::parser::ParseBuffer::new_with_lexer(lx) else { println!("{name}: no buffer"); continue };
        let Ok(w) = wast::parser::parse::<wast::Wast>(&buf) else { println!("{name}: parse fail"); continue };
        let mut c = Ctx::new(); let (mut b, mut k, mut o) = (0, 0, 0);
        let mut defs: HashMap<String, Vec<u8>> = HashMap::new();
        let mut lastdef: Vec<u8> = vec![];
        for d in w.directives {
            let (line, _) = d.span().linecol_in(&text);
            let mut fail = |b: &mut i32, m: String| { *b += 1; if *b < 6 { println!("  {name}:{} {m}", line + 1) } };
            match d {
                WastDirective::Module(mut q) => { let id = q.name().map(|n| n.name().to_string()); match q.encode() { Ok(bytes) => match c.inst(&bytes) { Ok(i) => { c.last = Some(i); if let Some(n) = id { c.named.insert(n, i); } o += 1 } Err(e) => { c.last = None; if e.starts_with("SKIP") { k += 1 } else { fail(&mut b, e) } } }, Err(_) => k += 1 } }
                WastDirective::ModuleDefinition(mut q) => { let id = q.name().map(|n| n.name().to_string()); if let Ok(x) = q.encode() { lastdef = x.clone(); if let Some(n) = id { defs.insert(n, x); } } }
                WastDirective::ModuleInstance { instance, module, .. } => { let by = match module { Some(m) => defs.get(m.name()).cloned().unwrap_or_default(), None => lastdef.clone() }; match c.inst(&by) { Ok(i) => { c.last = Some(i); if let Some(n) = instance { c.named.insert(n.name().to_string(), i); } } Err(_) => k += 1 } }
                WastDirective::Register { name: n, module, .. } => { let id = match module { Some(m) => c.named.get(m.name()).copied(), None => c.last }; if let Some(i) = id { c.reg.insert(n.to_string(), i); } }
                WastDirective::Invoke(i) => match c.call(&i) { Ok(_) => o += 1, Err(e) if e.starts_with("SKIP") => k += 1, Err(e) => fail(&mut b, e) },
                WastDirective::AssertReturn { mut exec, results, .. } => match c.exec(&mut exec) {
                    Ok(v) => { if v.len() == results.len() && v.iter().zip(&results).all(|(v, r)| match r { WastRet::Core(r) => eq(*v, r), _ => false }) { o += 1 } else { fail(&mut b, format!("got {v:x?} want {results:?}")) } }
                    Err(e) if e.starts_with("SKIP") => k += 1, Err(e) => fail(&mut b, e) },
                WastDirective::AssertTrap { mut exec, message, .. } => match c.exec(&mut exec) { Ok(v) => fail(&mut b, format!("no trap {v:x?}")), Err(e) if e.starts_with("SKIP") => k += 1, Err(e) => if e == trapname(message) || (message == "out of bounds" && e.ends_with("Oob")) || (message == "undefined" && e == "UndefElem") { o += 1 } else { fail(&mut b, format!("trap {e} want {message}")) } },
                WastDirective::AssertExhaustion { call, .. } => match c.call(&call) { Err(e) if e.starts_with("Skip") => o += 1, Err(e) if e.starts_with("SKIP") => k += 1, x => fail(&mut b, format!("exhaust {x:?}")) },
                WastDirective::AssertUnlinkable { mut module, message, .. } => { match module.encode() { Ok(by) => match c.inst(&by) { Err(e) if e.starts_with("SKIP") => k += 1, Err(e) => if message.starts_with(&e) { o += 1 } else { fail(&mut b, format!("link {e} want {message}")) }, Ok(_) => fail(&mut b, "linked".into()) }, Err(_) => k += 1 } }
                _ => {}
            }
        }
        if b > 0 { println!("{name}: ok {o} bad {b} skip {k}") }
        ok += o as u64; bad += b as u64; skip += k as u64;
    }
    println!("oracle selftest: ok={ok} bad={bad} skipped={skip}");
    if bad > 0 { std::process::exit(2) }
}
