//! Monitors of the parser: verdicts, streams, threads, archives, descriptions.
use crate::mon::*;
use crate::modgen::*;
use crate::refi::*;
use crate::rng::Rng;
use crate::target::*;
use std::panic::{catch_unwind, AssertUnwindSafe};
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::types::{ExportType, ImportType, MemoryArch, WasmType};
use tinywasm::Module;
use wasmparser::{Validator, WasmFeatures as F};

/// The proposals the parser supports.
pub fn features() -> F {
    F::CALL_INDIRECT_OVERLONG | F::BULK_MEMORY_OPT | F::RELAXED_SIMD | F::GC_TYPES | F::REFERENCE_TYPES | F::MUTABLE_GLOBAL | F::MULTI_VALUE | F::FLOATS | F::BULK_MEMORY | F::SATURATING_FLOAT_TO_INT | F::SIGN_EXTENSION
        | F::EXTENDED_CONST | F::FUNCTION_REFERENCES | F::TAIL_CALL | F::MULTI_MEMORY | F::SIMD | F::MEMORY64 | F::CUSTOM_PAGE_SIZES | F::WIDE_ARITHMETIC
}
/// What a parse of `b` must say: Some(true) accept, Some(false) reject, None either (typed function references are only partly supported).
pub fn expected(b: &[u8]) -> (Option<bool>, String) {
    match Validator::new_with_features(features()).validate_all(b) {
        Err(e) => (Some(false), e.message().to_string()),
        Ok(_) => match Validator::new_with_features(features() - F::FUNCTION_REFERENCES).validate_all(b) { Ok(_) => (Some(true), String::new()), Err(e) => (None, e.message().to_string()) },
    }
}

// ------------------------------------------------------------------ mutation
fn leb(mut v: u64, pad: usize) -> Vec<u8> { let mut o = vec![]; loop { let b = (v & 0x7f) as u8; v >>= 7; if v == 0 && o.len() >= pad { o.push(b); return o } o.push(b | 0x80) } }
fn rleb(b: &[u8], i: &mut usize) -> Option<u64> { let mut v = 0u64; let mut s = 0; loop { let x = *b.get(*i)?; *i += 1; v |= ((x & 0x7f) as u64) << s; if x & 0x80 == 0 { return Some(v) } s += 7; if s > 35 { return None } } }
type Secs = Vec<(u8, Vec<u8>)>;
pub fn split(b: &[u8]) -> Option<Secs> {
    let mut i = 8; let mut o = vec![]; if b.len() < 8 { return None }
    while i < b.len() { let id = b[i]; i += 1; let n = rleb(b, &mut i)? as usize; o.push((id, b.get(i..i + n)?.to_vec())); i += n }
    Some(o)
}
pub fn join(s: &Secs) -> Vec<u8> { let mut o = b"\0asm\x01\0\0\0".to_vec(); for (id, p) in s { o.push(*id); o.extend(leb(p.len() as u64, 0)); o.extend(p) } o }
const BYTES: &[u8] = &[0, 1, 2, 3, 4, 5, 0x0b, 0x0f, 0x40, 0x41, 0x42, 0x60, 0x6f, 0x70, 0x7b, 0x7c, 0x7d, 0x7e, 0x7f, 0x80, 0xfc, 0xfd, 0xff, 0x20, 0x21, 0x22, 0x1a, 0x1b, 0x1c, 0xd0, 0xd2, 0x10, 0x11, 0x12, 0x13, 0x14, 0x15, 0x63, 0x64, 0xfb, 0xfe, 0x06, 0x08, 0x1f];
fn mut_bytes(r: &mut Rng, v: &mut Vec<u8>) {
    if v.is_empty() { v.push(r.u32() as u8); return }
    let i = r.below(v.len());
    match r.below(9) {
        0 => v[i] ^= 1 << r.below(8), 1 => v[i] = r.u32() as u8, 2 => v[i] = *r.pick(BYTES), 3 => v[i] = v[i].wrapping_add(if r.chance(1, 2) { 1 } else { 255 }),
        4 => v.insert(i, *r.pick(BYTES)), 5 => { v.remove(i); }
        6 => { let n = r.range(1, 9).min(v.len() - i); let c: Vec<u8> = v[i..i + n].to_vec(); let j = r.below(v.len() + 1); v.splice(j..j, c); }
        7 => { let n = r.range(1, 9).min(v.len() - i); v.drain(i..i + n); }
        _ => { let x = leb(*r.pick(&[0u64, 1, 2, 127, 128, 50000, 65535, 65536, 1 << 20, (1 << 31) - 1, 1 << 31, u32::MAX as u64, 1 << 34, 1 << 48]), r.below(6)); v.splice(i..i + 1, x); }
    }
}
pub fn mutate(r: &mut Rng, b: &[u8], kinds: &mut Vec<&'static str>) -> Vec<u8> {
    let mut secs = split(b).unwrap_or_default();
    match r.below(14) {
        0 => { kinds.push("truncate"); let n = r.below(b.len() + 1); b[..n].to_vec() }
        1 => { kinds.push("trailing"); let mut v = b.to_vec(); for _ in 0..r.range(1, 4) { v.push(*r.pick(BYTES)) } v }
        2 => { kinds.push("header"); let mut v = b.to_vec(); if v.len() >= 8 { let i = r.below(8); v[i] = *r.pick(&[0, 1, 2, 0x0d, 0x61, 0xff]); } v }
        3 => { kinds.push("raw bytes"); let mut v = b.to_vec(); for _ in 0..r.range(1, 4) { mut_bytes(r, &mut v) } v }
        4 if secs.len() > 1 => { kinds.push("section order"); let (i, j) = (r.below(secs.len()), r.below(secs.len())); secs.swap(i, j); join(&secs) }
        5 if !secs.is_empty() => { kinds.push("section removed"); let i = r.below(secs.len()); secs.remove(i); join(&secs) }
        6 if !secs.is_empty() => { kinds.push("section duplicated"); let i = r.below(secs.len()); let s = secs[i].clone(); let j = r.below(secs.len() + 1); secs.insert(j, s); join(&secs) }
        7 => { kinds.push("custom section"); let j = r.below(secs.len() + 1); let mut p = leb(4, 0); p.extend(*r.pick(&[b"name", b"abcd", b"\xff\xfe\x80a"])); for _ in 0..r.below(20) { p.push(*r.pick(BYTES)) } if r.chance(1, 5) { p = vec![r.u32() as u8] } secs.insert(j, (0, p)); join(&secs) }
        8 => { kinds.push("section id"); if secs.is_empty() { return b.to_vec() } let i = r.below(secs.len()); secs[i].0 = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 255]); join(&secs) }
        9 => { // a size that lies
            kinds.push("section size"); if secs.is_empty() { return b.to_vec() }
            let i = r.below(secs.len()); let mut o = b"\0asm\x01\0\0\0".to_vec();
            for (k, (id, p)) in secs.iter().enumerate() { o.push(*id); let n = p.len() as u64; let n = if k == i { *r.pick(&[n + 1, n.saturating_sub(1), 0, n + 100, u32::MAX as u64, 1 << 31, 1 << 30, 1 << 28, n]) } else { n }; o.extend(leb(n, if k == i { r.below(6) } else { 0 })); o.extend(p) }
            o
        }
        10 => { // an item count that lies
            kinds.push("item count"); if secs.is_empty() { return b.to_vec() }
            let i = r.below(secs.len()); let p = &mut secs[i].1; let mut k = 0; if let Some(n) = rleb(p, &mut k) { let n = *r.pick(&[n + 1, n.saturating_sub(1), 0, 1000, 1 << 20, 1 << 24, 1 << 28, u32::MAX as u64, 1 << 31]); let x = leb(n, r.below(6)); p.splice(0..k, x); }
            join(&secs)
        }
        11 | 12 => { // inside a function body, sizes kept right
            kinds.push("function body");
            let Some(ci) = secs.iter().position(|s| s.0 == 10) else { let mut v = b.to_vec(); mut_bytes(r, &mut v); return v };
            let p = secs[ci].1.clone(); let mut i = 0; let Some(n) = rleb(&p, &mut i) else { return b.to_vec() };
            let mut bodies = vec![]; for _ in 0..n { let Some(m) = rleb(&p, &mut i) else { return b.to_vec() }; let Some(x) = p.get(i..i + m as usize) else { return b.to_vec() }; bodies.push(x.to_vec()); i += m as usize }
            if bodies.is_empty() { return b.to_vec() }
            for _ in 0..r.range(1, 3) { let k = r.below(bodies.len()); mut_bytes(r, &mut bodies[k]) }
            let mut o = leb(n, 0); for x in &bodies { o.extend(leb(x.len() as u64, 0)); o.extend(x) }
            secs[ci].1 = o; join(&secs)
        }
        _ => { kinds.push("section bytes"); if secs.is_empty() { return b.to_vec() } let i = r.below(secs.len()); for _ in 0..r.range(1, 2) { mut_bytes(r, &mut secs[i].1) } join(&secs) }
    }
}
/// A reader whose pieces end at given places.
struct Cuts<'a> { b: &'a [u8], at: usize, cuts: Vec<usize>, calls: usize }
impl std::io::Read for Cuts<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        self.calls += 1; if self.calls % 7 == 3 { return Err(std::io::ErrorKind::Interrupted.into()) }
        let end = self.cuts.iter().copied().filter(|c| *c > self.at).min().unwrap_or(self.b.len()).min(self.b.len());
        let n = (end - self.at).min(out.len()); out[..n].copy_from_slice(&self.b[self.at..self.at + n]); self.at += n; Ok(n)
    }
}
/// Where sections start, their contents start and end, as far as the bytes can be read.
fn edges(b: &[u8]) -> Vec<usize> {
    let mut o = vec![4, 8]; let mut i = 8;
    while i < b.len() { i += 1; let Some(n) = rleb(b, &mut i) else { break }; o.push(i); let Some(e) = i.checked_add(n as usize) else { break }; o.push(e); i = e }
    o
}
/// A code section that is not what it says: one byte too many or too few somewhere, a body or the count off by one.
fn code_lies(r: &mut Rng, b: &[u8]) -> Option<Vec<u8>> {
    let mut secs = split(b)?; let ci = secs.iter().position(|s| s.0 == 10)?;
    let p = secs[ci].1.clone(); let mut i = 0; let n = rleb(&p, &mut i)?;
    let mut bodies = vec![]; for _ in 0..n { let m = rleb(&p, &mut i)? as usize; bodies.push(p.get(i..i + m)?.to_vec()); i += m }
    if bodies.is_empty() { return None }
    let k = match r.below(3) { 0 => 0, 1 => bodies.len() - 1, _ => r.below(bodies.len()) };
    let (mut count, mut size, mut tail) = (n, 0i64, vec![]);
    match r.below(8) {
        0 | 1 => tail = vec![*r.pick(BYTES); r.range(1, 3)],
        2 => tail = vec![2, 0, 0x0b],
        3 => count += 1, 4 => count -= 1,
        5 => size = 1, 6 => size = -1,
        _ => { bodies.remove(k); }
    }
    let mut o = leb(count, 0); for (j, x) in bodies.iter().enumerate() { o.extend(leb((x.len() as i64 + if j == k { size } else { 0 }) as u64, 0)); o.extend(x) } o.extend(tail);
    secs[ci].1 = o; Some(join(&secs))
}
/// Small modules built to be expensive or odd.
fn hostile(r: &mut Rng) -> Vec<u8> {
    let h = b"\0asm\x01\0\0\0".to_vec();
    let n = *r.pick(&[0u64, 1, 50000, 50001, 65535, 65536, 1_000_000, 1 << 24, 1 << 28, u32::MAX as u64]);
    let sec = |id: u8, p: Vec<u8>| -> Secs { vec![(id, p)] };
    let f = || -> Secs { vec![(1, vec![1, 0x60, 0, 0]), (3, vec![1, 0])] };
    match r.below(9) {
        0 => { let id = r.range(0, 14) as u8; join(&sec(id, leb(n, 0))) }
        1 => { let mut s = f(); let mut body = vec![1]; body.extend(leb(n, 0)); body.extend([0x7f, 0x0b]); let mut p = vec![1]; p.extend(leb(body.len() as u64, 0)); p.extend(body); s.push((10, p)); join(&s) } // locals
        2 => { let mut s = f(); let k = r.range(1, 20); let mut body = leb(k as u64, 0); for _ in 0..k { body.extend(leb(*r.pick(&[2500, 49999 / k as u64, n]), 0)); body.push(*r.pick(&[0x7f, 0x7e, 0x7b, 0x70])) } body.push(0x0b); let mut p = vec![1]; p.extend(leb(body.len() as u64, 0)); p.extend(body); s.push((10, p)); join(&s) }
        3 => { let mut s = f(); let mut body = vec![0, 0x41, 0, 0x0e]; body.extend(leb(n, 0)); body.extend([0, 0, 0x0b]); let mut p = vec![1]; p.extend(leb(body.len() as u64, 0)); p.extend(body); s.push((10, p)); join(&s) } // br_table
        4 => { let mut s = f(); let d = *r.pick(&[10usize, 1000, 20000]); let mut body = vec![0]; for _ in 0..d { body.extend([*r.pick(&[2u8, 3]), 0x40]) } body.extend(vec![0x0b; d + 1]); let mut p = vec![1]; p.extend(leb(body.len() as u64, 0)); p.extend(body); s.push((10, p)); join(&s) } // nesting
        5 => { let mut p = vec![1, r.below(8) as u8]; p.extend(leb(n, 0)); p.extend(leb(n, 0)); join(&sec(*r.pick(&[4, 5]), if r.chance(1, 2) { p } else { let mut q = vec![1, 0x70, r.below(6) as u8]; q.extend(leb(n, 0)); q.extend(leb(n, 0)); q })) }
        6 => { let mut v = h; for _ in 0..r.below(60) { v.push(*r.pick(BYTES)) } v }
        7 => (0..r.below(40)).map(|_| r.u32() as u8).collect(),
        _ => { // a code section that claims many functions
            let mut s = f(); let mut p = leb(n, 0); p.extend([2, 0, 0x0b]); if r.chance(1, 2) { let z = r.below(40000); p.extend(vec![0; z]) } if r.chance(1, 2) { s.clear() } s.push((10, p)); join(&s)
        }
    }
}
pub fn any_prof(r: &mut Rng) -> Prof {
    Prof { nfuncs: r.range(1, 6), budget: *r.pick(&[5, 20, 60, 120]), depth: r.range(2, 6), float: r.chance(2, 3), simd: *r.pick(&[0, 4, 20]), relaxed: r.chance(1, 3), mem64: 30, page1: 30, table64: 30, tail: *r.pick(&[0, 10]), bulk: 10, unreach: *r.pick(&[0, 5, 15]), bad_seg: 10, idiom: *r.pick(&[0, 20, 50]), ..Prof::default() }
}
/// A pool of importable types.
pub fn any_imports(r: &mut Rng, p: &Prof, names: bool) -> Vec<Import> {
    (0..r.below(6)).map(|i| {
        let ty = match r.below(5) { 0 | 1 => Imp::Func(gen_ftype(r, p)), 2 => Imp::Mem(gen_mem(r, p)), 3 => Imp::Table(gen_table(r, p)), _ => Imp::Global(gen_gtype(r, p)) };
        if names { Import { module: weird(r), name: weird(r), ty } } else { Import { module: "env".into(), name: format!("i{i}"), ty } }
    }).collect()
}
pub fn weird(r: &mut Rng) -> String {
    match r.below(8) { 0 => String::new(), 1 => "env".into(), 2 => "\0".into(), 3 => "ä\u{10ffff}\u{feff}".into(), 4 => "a.b c\n".into(), 5 => "x".repeat(r.below(300)), 6 => "m".into(), _ => format!("n{}", r.below(5)) }
}

fn parse(o: ParserOptions, b: &[u8]) -> Result<Result<Module, String>, String> { catch_unwind(AssertUnwindSafe(|| Parser::with_options(o).parse_module_bytes(b).map_err(|e| e.to_string()))).map_err(|e| panic_text(&e)) }
fn parse_stream(o: ParserOptions, s: impl std::io::Read) -> Result<Result<Module, String>, String> { catch_unwind(AssertUnwindSafe(|| Parser::with_options(o).parse_module_stream(s).map_err(|e| e.to_string()))).map_err(|e| panic_text(&e)) }
pub fn panic_text(e: &Box<dyn std::any::Any + Send>) -> String { e.downcast_ref::<String>().cloned().or_else(|| e.downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default() }
fn ser(m: &Module) -> Vec<u8> { m.serialize_twasm().unwrap_or_default() }

/// C16: verdicts, streams, panics, allocation.
pub fn verdict(seed: u64, o: &mut Obs) -> crate::mon::R {
    let mut r = Rng::new(seed);
    let mut kinds: Vec<&'static str> = vec![];
    let mut cases: Vec<Vec<u8>> = vec![];
    let mut valid_len = None; let mut many = false;
    if r.chance(1, 4) { kinds.push("hostile"); for _ in 0..8 { cases.push(hostile(&mut r)) } }
    else {
        let p = any_prof(&mut r);
        let imps = any_imports(&mut r, &p, false);
        let (mut b, _) = gen_module(&mut r, &p, &imps);
        if r.chance(1, 12) { if let Some((x, _)) = crate::m_wide::widen(&mut r, &b) { if x.len() < 40_000 { b = x; o.inc("widened_modules") } } }
        // large enough to be parsed by several threads
        if r.chance(1, 40) { if let Some(x) = amplify(&mut r, &b, 17000) { b = x; many = true; kinds.push("large module") } }
        kinds.push("valid module");
        valid_len = Some(b.len());
        cases.push(b.clone());
        if let Some(x) = code_lies(&mut r, &b) { kinds.push("code section that lies"); cases.push(x) }
        for _ in 0..10 { let mut x = mutate(&mut r, &b, &mut kinds); while r.chance(1, 4) { x = mutate(&mut r, &x, &mut kinds) } cases.push(x) }
    }
    for k in kinds { o.note("kinds_of_input", k) }
    for b in cases {
        let bad = |w: String| Bad { what: format!("{w} ({} bytes)", b.len()), files: vec![("input.wasm".into(), b.clone())] };
        // the validator alone may reserve for a count it has only checked against its own limits
        let ((want, why), vpeak, _) = crate::mem::measure(512 << 20, || expected(&b));
        let opts = ParserOptions::default().with_rewrite_optimization(r.chance(4, 5)).with_local_memory_allocation_optimization(r.chance(1, 2)).with_parser_threads(if many { r.range(1, 4) } else { 1 });
        let bound = vpeak + 4 * 1024 * 1024 + 2000 * b.len() as u64;
        let (res, peak, _) = crate::mem::measure(512 << 20, || parse(opts.clone(), &b));
        let res = res.map_err(|p| bad(format!("parsing panicked: panic at {p}")))?;
        if peak > bound { return Err(bad(format!("parsing allocated {peak} bytes, validating alone {vpeak}"))) }
        o.n.entry("peak_allocation_bytes_total".into()).and_modify(|x| *x += peak).or_insert(peak);
        o.inc(match want { Some(true) => "inputs_valid", Some(false) => "inputs_invalid", None => "inputs_undecided" });
        if let Err(e) = &res { let e: String = crate::key_of(e).chars().take(70).collect(); o.note("parse_errors", &e) }
        o.inc("evaluations");
        o.case(crate::hash_bytes(&b), || format!("seed {seed}: {} bytes, expected {want:?} ({why}), got {}", b.len(), match &res { Ok(_) => "a module".to_string(), Err(e) => e.clone() }));
        match (&res, want) {
            (Ok(_), Some(false)) => return Err(bad(format!("an invalid module was accepted: {why}"))),
            (Err(e), Some(true)) => return Err(bad(format!("a valid module was rejected: {e}"))),
            _ => {}
        }
        // the same bytes from a stream
        for _ in 0..2 {
            let n = match r.below(6) { 0 => 1, 1 => r.range(1, 9), 2 => r.range(1, 300), 3 => 1 << 20, _ => r.range(1, b.len().max(1)) };
            let at_edges = r.chance(1, 3);
            let mut cuts = edges(&b); if let Some(l) = valid_len { cuts.push(l) } let keep = r.range(1, 5); cuts.retain(|_| keep == 5 || r.below(5) < keep);
            let (sres, peak, _) = crate::mem::measure(512 << 20, || if at_edges { parse_stream(opts.clone(), Cuts { b: &b, at: 0, cuts, calls: r.below(7) }) } else { parse_stream(opts.clone(), Chunks { b: &b, n, i: r.below(1000) }) });
            o.inc("stream_parses"); if at_edges { o.inc("stream_parses_cut_at_section_edges") }
            let sres = sres.map_err(|p| bad(format!("parsing from a stream panicked: panic at {p}")))?;
            if peak > bound + 1024 * 1024 { return Err(bad(format!("parsing from a stream allocated {peak} bytes, validating alone {vpeak}"))) }
            match (&res, &sres) {
                (Ok(a), Ok(b2)) => if ser(a) != ser(b2) { return Err(bad("parsing from a stream gave another module".into())) },
                (Err(_), Err(_)) => {}
                (a, b2) => return Err(bad(format!("from memory: {}; from a stream in pieces of up to {n}: {}", v(a), v(b2)))),
            }
        }
        // without validation valid modules stay what they are
        if want == Some(true) {
            let op = opts.clone().with_validation(false); let stream = r.chance(1, 3);
            let un = if stream { parse_stream(op, Chunks { b: &b, n: r.range(1, 3000), i: r.below(1000) }) } else { parse(op, &b) }.map_err(|p| bad(format!("parsing a valid module without validation panicked: panic at {p}")))?;
            match (&res, &un) { (Ok(a), Ok(b2)) if ser(a) == ser(b2) => o.inc("parsed_without_validation"), (_, u) => return Err(bad(format!("a valid module parsed without validation{}: {}", if stream { " from a stream" } else { "" }, if u.is_ok() { "another module".to_string() } else { v(u) }))) }
        }
        // from a file
        if r.chance(1, 12) {
            let f = std::env::temp_dir().join(format!("tw-{}-{}.wasm", std::process::id(), r.below(1 << 30)));
            let fr = std::fs::write(&f, &b).ok().map(|_| catch_unwind(AssertUnwindSafe(|| (Parser::with_options(opts.clone()).parse_module_file(&f).map_err(|e| e.to_string()), tinywasm::parser::parse_file(&f).map_err(|e| e.to_string())))).map_err(|e| panic_text(&e)));
            let _ = std::fs::remove_file(&f);
            if let Some(fr) = fr {
                let (fr, dr) = fr.map_err(|p| bad(format!("parsing from a file: panic at {p}")))?;
                match (&res, &fr) { (Ok(a), Ok(b2)) if ser(a) == ser(b2) => {} (Err(_), Err(_)) => {} (a, b2) => return Err(bad(format!("from memory: {}; from a file: {}", v(a), v(b2)))) }
                if dr.is_ok() != res.is_ok() { return Err(bad(format!("from memory: {}; by parse_file: {}", v(&res), v(&dr)))) }
                if Parser::new().parse_module_file(&f).is_ok() { return Err(bad("a file that is not there was parsed".into())) }
                o.inc("file_parses");
            }
        }
        // a stream that fails
        if r.chance(1, 3) && !b.is_empty() {
            struct Fails<'a>(&'a [u8], std::io::ErrorKind);
            impl std::io::Read for Fails<'_> { fn read(&mut self, o: &mut [u8]) -> std::io::Result<usize> { if self.0.is_empty() { return Err(std::io::Error::new(self.1, "broken stream")) } let n = o.len().min(self.0.len()); o[..n].copy_from_slice(&self.0[..n]); self.0 = &self.0[n..]; Ok(n) } }
            let k = r.below(b.len());
            if parse_stream(opts.clone(), Fails(&b[..k], *r.pick(&[std::io::ErrorKind::Other, std::io::ErrorKind::UnexpectedEof, std::io::ErrorKind::WouldBlock, std::io::ErrorKind::BrokenPipe, std::io::ErrorKind::InvalidData]))).map_err(|p| bad(format!("a failing stream: panic at {p}")))?.is_ok() { return Err(bad(format!("a stream that failed after {k} bytes was accepted"))) }
            o.inc("failing_streams");
        }
    }
    Ok(())
}
fn v(r: &Result<Module, String>) -> String { match r { Ok(_) => "accepted".into(), Err(e) => format!("rejected ({e})") } }

/// C17: any number of threads gives the same bytes or the same verdict.
/// Adds copies of the module's own functions, in random order, until its code section has at least `bytes` bytes.
pub fn amplify(r: &mut Rng, b: &[u8], bytes: usize) -> Option<Vec<u8>> {
    let mut secs = split(b)?;
    let fi = secs.iter().position(|s| s.0 == 3)?; let ci = secs.iter().position(|s| s.0 == 10)?;
    let mut i = 0; let n = rleb(&secs[fi].1, &mut i)?; let mut tys = vec![]; for _ in 0..n { tys.push(rleb(&secs[fi].1, &mut i)?) }
    let c = &secs[ci].1; let mut i = 0; if rleb(c, &mut i)? != n || n == 0 { return None }
    let mut bodies = vec![]; for _ in 0..n { let l = rleb(c, &mut i)? as usize; bodies.push(c.get(i..i + l)?.to_vec()); i += l }
    let mut total: usize = bodies.iter().map(|x| x.len() + 2).sum();
    if !bodies.iter().any(|x| x.len() > 24) { return None }
    // sizes as uneven as they come: a few functions with thousands of bytes of their own, or thousands of small ones
    let limit = if r.chance(1, 30) { 9000 } else { 4000 };
    let bytes = if limit == 9000 { total = 0; 17 * 9000 } else { bytes };
    if r.chance(1, 3) {
        for _ in 0..r.range(1, 3) {
            let any = r.below(n as usize); let k = *r.pick(&[0, bodies.len() - 1, any]);
            let extra = *r.pick(&[300, 4000, 9500, 17000, 40000]);
            if let Some(x) = fatten(r, &bodies[k], extra) { total += x.len(); let last = r.chance(1, 3); let t = tys[k]; if last { tys.push(t); bodies.push(x) } else { bodies[k] = x } }
        }
    }
    let small: Vec<usize> = (0..n as usize).filter(|k| bodies[*k].len() < 40).collect();
    while total < bytes && bodies.len() < limit {
        if limit == 9000 && !small.is_empty() && r.chance(9, 10) { let k = small[r.below(small.len())]; total += bodies[k].len() + 2; let (t, x) = (tys[k], bodies[k].clone()); tys.push(t); bodies.push(x); continue } let k = r.below(n as usize); total += bodies[k].len() + 2; let (t, x) = (tys[k], bodies[k].clone()); tys.push(t); bodies.push(x) }
    if r.chance(1, 3) { let any = r.below(bodies.len()); let k = *r.pick(&[bodies.len() - 1, bodies.len() - 1, 0, any]); let extra = *r.pick(&[9500, 17000, 40000]); if let Some(x) = fatten(r, &bodies[k], extra) { bodies[k] = x } }
    let mut f = leb(tys.len() as u64, 0); for t in &tys { f.extend(leb(*t, 0)) }
    let mut c = leb(bodies.len() as u64, 0); for x in &bodies { c.extend(leb(x.len() as u64, 0)); c.extend(x) }
    secs[fi].1 = f; secs[ci].1 = c;
    Some(join(&secs))
}

/// Puts about `bytes` bytes of code that does nothing in front of a function's own.
fn fatten(r: &mut Rng, body: &[u8], bytes: usize) -> Option<Vec<u8>> {
    let mut i = 0; let n = rleb(body, &mut i)?;
    for _ in 0..n { rleb(body, &mut i)?; i += 1; if i > body.len() { return None } }
    let mut o = body[..i].to_vec();
    while o.len() < bytes {
        match r.below(6) {
            0 => o.push(0x01),
            1 => { o.push(0x41); o.extend([r.below(0x40) as u8, 0x1a]) }
            2 => { o.push(0x42); o.extend([r.below(0x40) as u8, 0x1a]) }
            3 => o.extend([0x02, 0x40, 0x0b]),
            4 => { o.extend([0x41, r.below(0x40) as u8, 0x41, r.below(0x40) as u8, *r.pick(&[0x6a, 0x6b, 0x6c, 0x71, 0x72, 0x73]), 0x1a]) }
            _ => { o.extend([0x41, r.below(2) as u8, 0x04, 0x40, 0x01, 0x0b]) }
        }
    }
    o.extend(&body[i..]);
    Some(o)
}
/// Puts calls that never run into functions: of themselves, of neighbours, and of the functions whose number agrees in the low bits.
fn cross_calls(r: &mut Rng, b: &[u8]) -> Option<Vec<u8>> {
    use wasmparser::{Parser, Payload, TypeRef, ValType};
    let (mut sig, mut funcs, mut nimp): (Vec<(Vec<ValType>, Vec<ValType>)>, Vec<u32>, usize) = (vec![], vec![], 0);
    for p in Parser::new(0).parse_all(b) { match p.ok()? {
        Payload::TypeSection(t) => for f in t.into_iter_err_on_gc_types() { let f = f.ok()?; sig.push((f.params().to_vec(), f.results().to_vec())) },
        Payload::ImportSection(t) => for i in t.into_imports() { if let TypeRef::Func(k) = i.ok()?.ty { funcs.push(k); nimp += 1 } },
        Payload::FunctionSection(t) => for k in t { funcs.push(k.ok()?) },
        Payload::CodeSectionStart { .. } => break, _ => {} } }
    let mut secs = split(b)?; let ci = secs.iter().position(|s| s.0 == 10)?;
    let c = &secs[ci].1; let mut i = 0; let n = rleb(c, &mut i)? as usize; if n == 0 || nimp + n != funcs.len() { return None }
    let mut bodies = vec![]; for _ in 0..n { let l = rleb(c, &mut i)? as usize; bodies.push(c.get(i..i + l)?.to_vec()); i += l }
    for _ in 0..r.range(10, 60) {
        let k = match r.below(4) { 0 => n - 1 - r.below(n.min(8)), 1 if n > 256 => 256 + r.below(n - 256), 2 if n > 4096 => 4096 + r.below(n - 4096), _ => r.below(n) };
        let me = k + nimp;
        let x = match r.below(10) { 0..=2 => me, 3 => k, 4 => me % 256, 5 => me % 4096, 6 => me + 1, 7 => me.wrapping_sub(1), 8 => k % 256, _ => r.below(funcs.len()) };
        if x >= funcs.len() || bodies[k].len() > 60000 { continue }
        let (ps, rs) = &sig[funcs[x] as usize];
        let mut code = vec![0x41, 0, 0x04, 0x40];
        for p in ps { match p { ValType::I32 => code.extend([0x41, 0]), ValType::I64 => code.extend([0x42, 0]), ValType::F32 => code.extend([0x43, 0, 0, 0, 0]), ValType::F64 => code.extend([0x44, 0, 0, 0, 0, 0, 0, 0, 0]), ValType::V128 => { code.extend([0xfd, 0x0c]); code.extend([0; 16]) } ValType::Ref(t) => code.extend([0xd0, if t.is_func_ref() { 0x70 } else { 0x6f }]) } }
        if rs == &sig[funcs[me] as usize].1 && r.chance(1, 4) { code.push(0x12); code.extend(leb(x as u64, 0)) } else { code.push(0x10); code.extend(leb(x as u64, 0)); code.extend(rs.iter().map(|_| 0x1a)) }
        code.push(0x0b);
        let body = &bodies[k]; let mut i = 0; let m = rleb(body, &mut i)?; for _ in 0..m { rleb(body, &mut i)?; i += 1; if i > body.len() { return None } }
        let mut o = body[..i].to_vec(); o.extend(code); o.extend(&body[i..]); bodies[k] = o;
    }
    let mut c = leb(bodies.len() as u64, 0); for x in &bodies { c.extend(leb(x.len() as u64, 0)); c.extend(x) }
    secs[ci].1 = c;
    Some(join(&secs))
}
pub fn threads(seed: u64, o: &mut Obs) -> crate::mon::R { threads_with(seed, o, 3, 40) }
pub fn threads_with(seed: u64, o: &mut Obs, lo: usize, hi: usize) -> crate::mon::R {
    let mut r = Rng::new(seed);
    let p = Prof { nfuncs: r.range(lo, hi), budget: *r.pick(&[60, 120, 300]), simd: *r.pick(&[0, 10]), idiom: *r.pick(&[0, 20, 50]), depth: 5, ..any_prof(&mut r) };
    let p = Prof { nfuncs: p.nfuncs.max(lo), budget: p.budget.max(200), ..p };
    let imps = any_imports(&mut r, &p, false);
    let (mut b, _) = gen_module(&mut r, &p, &imps);
    if r.chance(1, 8) { if let Some((x, _)) = crate::m_wide::widen(&mut r, &b) { b = x; o.inc("widened_modules") } }
    if r.chance(9, 10) { let n = *r.pick(&[16384, 16500, 17000, 20000, 30000, 60000]); if let Some(x) = amplify(&mut r, &b, n) { b = x } }
    if r.chance(1, 2) { if let Some(x) = cross_calls(&mut r, &b) { b = x; o.inc("with_calls_across"); } }
    let secs = split(&b).ok_or("generator".to_string())?;
    let code = secs.iter().find(|s| s.0 == 10).map(|s| s.1.len()).unwrap_or(0);
    let invalid = r.chance(1, 3);
    if invalid { let mut k = vec![]; for _ in 0..50 { let x = match r.below(5) { 0 => code_lies(&mut r, &b).unwrap_or_else(|| b.clone()), 1 => mutate(&mut r, &b, &mut k), _ => loop { let x = mutate(&mut r, &b, &mut k); if k.last() == Some(&"function body") { break x } } }; if expected(&x).0 == Some(false) { b = x; break } } }
    let bad = |w: String| Bad { what: format!("{w} ({} bytes)", b.len()), files: vec![("input.wasm".into(), b.clone())] };
    let base = ParserOptions::default().with_rewrite_optimization(r.chance(4, 5)).with_local_memory_allocation_optimization(r.chance(1, 2));
    let one = parse(base.clone().with_parser_threads(1), &b).map_err(|p| bad(format!("one thread: panic at {p}")))?;
    let want = expected(&b).0;
    if want.map(|w| w != one.is_ok()).unwrap_or(false) { o.inc("other_verdict_than_expected"); return Ok(()) } // C16's business
    o.inc(if one.is_ok() { "modules_accepted" } else { "modules_rejected" });
    o.inc(if code >= 16 * 1024 { "modules_over_the_parallel_threshold" } else { "modules_below_the_parallel_threshold" });
    o.case(crate::hash_bytes(&b), || format!("seed {seed}: {} bytes, {} functions, code section {code} bytes, {}", b.len(), p.nfuncs, v(&one)));
    for t in [Some(2), Some(3), Some(r.range(4, 9)), Some(*r.pick(&[10, 12, 13, 40])), None] {
        let op = match t { Some(t) => base.clone().with_parser_threads(t), None => base.clone() };
        let op = if want == Some(true) && r.chance(1, 5) { o.inc("threaded_parses_without_validation"); op.with_validation(false) } else { op };
        let stream = r.chance(1, 2);
        let res = if stream { if r.chance(1, 3) { parse_stream(op, Cuts { b: &b, at: 0, cuts: edges(&b), calls: r.below(7) }) } else { parse_stream(op, Chunks { b: &b, n: r.range(1, 40000), i: r.below(1000) }) } } else { parse(op, &b) }.map_err(|p| bad(format!("{t:?} threads: panic at {p}")))?;
        o.inc(if stream { "threaded_stream_parses" } else { "threaded_parses" }); o.note("thread_counts", &format!("{t:?}"));
        match (&one, &res) {
            (Ok(a), Ok(b2)) => if ser(a) != ser(b2) { return Err(bad(format!("{t:?} threads parsed another module than one thread"))) } else { o.add("module_bytes_compared", ser(a).len() as u64) },
            (Err(a), Err(b2)) => if a == b2 { o.inc("same_message") } else { o.inc("same_verdict_other_message") },
            (a, b2) => return Err(bad(format!("one thread: {}; {t:?} threads{}: {}", v(a), if stream { " from a stream" } else { "" }, v(b2)))),
        }
    }
    Ok(())
}

/// C15: archives that are damaged are refused, intact ones survive any number of round trips.
pub fn archive(seed: u64, o: &mut Obs) -> crate::mon::R {
    let mut r = Rng::new(seed);
    let p = any_prof(&mut r);
    let imps = { let w = r.chance(1, 3); any_imports(&mut r, &p, w) };
    let (mut b, _) = gen_module(&mut r, &p, &imps);
    if r.chance(1, 8) { if let Some((x, _)) = crate::m_wide::widen(&mut r, &b) { b = x; o.inc("widened_modules") } }
    let bad = |w: String| Bad { what: w, files: vec![("input.wasm".into(), b.clone())] };
    let opts = ParserOptions::default().with_rewrite_optimization(r.chance(4, 5)).with_parser_threads(1);
    let Ok(Ok(m)) = parse(opts, &b) else { o.inc("not_parsed"); return Ok(()) };
    let a = m.serialize_twasm().map_err(|e| bad(format!("serialising failed: {e}")))?;
    let m2 = catch_unwind(|| Module::try_from_twasm(&a)).map_err(|e| bad(format!("loading: panic at {}", panic_text(&e))))?.map_err(|e| bad(format!("its own archive was refused: {e}")))?;
    if *m2 != *m && !has_nan(&a, &m) { return Err(bad("the loaded module differs from the one serialised".into())) }
    let a2 = m2.serialize_twasm().map_err(|e| bad(format!("serialising again failed: {e}")))?;
    if a != a2 { return Err(bad("serialising the loaded module gives other bytes".into())) }
    o.case(crate::hash_bytes(&b), || format!("seed {seed}: module of {} bytes, archive of {} bytes, every prefix and damaged headers", b.len(), a.len()));
    o.add("archive_bytes", a.len() as u64);
    let load = |d: &[u8]| catch_unwind(AssertUnwindSafe(|| Module::try_from_twasm(d).map_err(|e| e.to_string()))).map_err(|e| panic_text(&e));
    // truncation: every prefix of a small one, a sample of a large one
    let mut cuts: Vec<usize> = if a.len() < 700 { (0..a.len()).collect() } else { (0..200).map(|_| r.below(a.len())).chain(0..32).chain(a.len() - 40..a.len()).collect() };
    cuts.dedup();
    for n in cuts { o.inc("truncations_tried"); match load(&a[..n]) { Ok(Ok(_)) => return Err(bad(format!("an archive of {} bytes truncated to {n} was accepted", a.len()))), Ok(Err(e)) => o.note("refusals", &e), Err(p) => return Err(bad(format!("a truncated archive: panic at {p}"))) } }
    for i in 0..16 { for _ in 0..3 { let mut d = a.clone(); d[i] ^= 1 + r.below(255) as u8; o.inc("wrong_headers_tried"); match load(&d) { Ok(Ok(_)) => return Err(bad(format!("an archive whose header byte {i} is {:#x} was accepted", d[i]))), Ok(Err(e)) => o.note("refusals", &e), Err(p) => return Err(bad(format!("wrong header: panic at {p}"))) } } }
    Ok(())
}
fn has_nan(a: &[u8], m: &Module) -> bool { // NaN constants are not equal to themselves: then the serialised bytes decide
    let _ = a; m.funcs.iter().any(|f| f.instructions.iter().any(|i| { let s = format!("{i:?}"); s.contains("NaN") })) || m.globals.iter().any(|g| format!("{:?}", g.init).contains("NaN")) || m.elements.iter().any(|e| format!("{e:?}").contains("NaN"))
}

// ------------------------------------------------------------------ descriptions
pub fn from_t(t: WasmType) -> Ty { match t { WasmType::I32 => Ty::I32, WasmType::I64 => Ty::I64, WasmType::F32 => Ty::F32, WasmType::F64 => Ty::F64, WasmType::V128 => Ty::V128, WasmType::RefFunc => Ty::Func, WasmType::RefExtern => Ty::Extern, #[allow(unreachable_patterns)] _ => panic!("type") } }
fn d_func(f: &tinywasm::types::FuncType) -> String { format!("func {:?} -> {:?}", f.params().iter().map(|t| from_t(*t)).collect::<Vec<_>>(), f.results().iter().map(|t| from_t(*t)).collect::<Vec<_>>()) }
fn d_table(t: &tinywasm::types::TableType) -> String { format!("table {:?} {} {} {:?}", from_t(t.element_type), t.arch() == MemoryArch::I64, t.size_initial, t.size_max) }
pub fn d_mem(m: &tinywasm::types::MemoryType) -> String { format!("memory {} {} {:?} page {} eff {}", m.arch() == MemoryArch::I64, m.page_count_initial(), m.declared_page_count_max(), m.page_size(), m.initial_size()) }
fn d_global(g: &tinywasm::types::GlobalType) -> String { format!("global {:?} {}", from_t(g.ty), g.mutable) }
fn d_imp(i: &ImportType<'_>) -> String { match i { ImportType::Func(f) => d_func(f), ImportType::Table(t) => d_table(t), ImportType::Memory(m) => d_mem(m), ImportType::Global(g) => d_global(g) } }
fn d_exp(i: &ExportType<'_>) -> String { match i { ExportType::Func(f) => d_func(f), ExportType::Table(t) => d_table(t), ExportType::Memory(m) => d_mem(m), ExportType::Global(g) => d_global(g) } }
// the same texts from the binary
fn w_ty(t: wasmparser::ValType) -> Ty { use wasmparser::ValType as V; match t { V::I32 => Ty::I32, V::I64 => Ty::I64, V::F32 => Ty::F32, V::F64 => Ty::F64, V::V128 => Ty::V128, V::Ref(r) => if r.is_extern_ref() { Ty::Extern } else { Ty::Func } } }
fn w_func(f: &wasmparser::FuncType) -> String { format!("func {:?} -> {:?}", f.params().iter().map(|t| w_ty(*t)).collect::<Vec<_>>(), f.results().iter().map(|t| w_ty(*t)).collect::<Vec<_>>()) }
fn w_table(t: &wasmparser::TableType) -> String { format!("table {:?} {} {} {:?}", w_ty(wasmparser::ValType::Ref(t.element_type)), t.table64, t.initial, t.maximum) }
fn w_mem(m: &wasmparser::MemoryType) -> String { let ps = 1u64 << m.page_size_log2.unwrap_or(16); format!("memory {} {} {:?} page {} eff {}", m.memory64, m.initial, m.maximum, ps, m.initial.saturating_mul(ps)) }
fn w_global(g: &wasmparser::GlobalType) -> String { format!("global {:?} {}", w_ty(g.content_type), g.mutable) }
type Desc = (Vec<(String, String, String)>, Vec<(String, String)>);
pub fn declared(b: &[u8]) -> Desc {
    use wasmparser::{ExternalKind as K, Payload as P, TypeRef as T};
    let (mut types, mut f, mut t, mut m, mut g) = (vec![], vec![], vec![], vec![], vec![]);
    let (mut imps, mut exps) = (vec![], vec![]);
    for p in wasmparser::Parser::new(0).parse_all(b) {
        match p.unwrap() {
            P::TypeSection(s) => for x in s.into_iter_err_on_gc_types() { types.push(x.unwrap()) },
            P::ImportSection(s) => for i in s.into_imports() { let i = i.unwrap(); let d = match i.ty { T::Func(k) => { let d = w_func(&types[k as usize]); f.push(d.clone()); d } T::Table(x) => { let d = w_table(&x); t.push(d.clone()); d } T::Memory(x) => { let d = w_mem(&x); m.push(d.clone()); d } T::Global(x) => { let d = w_global(&x); g.push(d.clone()); d } _ => "?".into() }; imps.push((i.module.to_string(), i.name.to_string(), d)) },
            P::FunctionSection(s) => for x in s { f.push(w_func(&types[x.unwrap() as usize])) },
            P::TableSection(s) => for x in s { t.push(w_table(&x.unwrap().ty)) },
            P::MemorySection(s) => for x in s { m.push(w_mem(&x.unwrap())) },
            P::GlobalSection(s) => for x in s { g.push(w_global(&x.unwrap().ty)) },
            P::ExportSection(s) => for x in s { let x = x.unwrap(); let i = x.index as usize; exps.push((x.name.to_string(), match x.kind { K::Func => f[i].clone(), K::Table => t[i].clone(), K::Memory => m[i].clone(), K::Global => g[i].clone(), _ => "?".into() })) },
            _ => {}
        }
    }
    (imps, exps)
}
pub fn described(m: &Module) -> Desc { (m.imports().map(|i| (i.module.to_string(), i.name.to_string(), d_imp(&i.ty))).collect(), m.exports().map(|e| (e.name.to_string(), d_exp(&e.ty))).collect()) }

/// A module that only declares: any limits, any names.
fn declare(r: &mut Rng) -> Vec<u8> {
    use wasm_encoder as e;
    let p = any_prof(r);
    let many = r.chance(1, 12); let small = many || r.chance(1, 2); // thousands of entries; or small enough to instantiate
    let mut ft: Vec<FT> = (0..if many { r.range(100, 300) } else { r.range(1, 6) }).map(|_| gen_ftype(r, &p)).collect();
    ft.push(FT { params: (0..r.below(30)).map(|_| tys(&p, r)).collect(), results: (0..r.below(12)).map(|_| tys(&p, r)).collect() });
    let mut m = e::Module::new();
    let mut ts = e::TypeSection::new(); for f in &ft { ts.ty().function(f.params.iter().map(|t| vt(*t)), f.results.iter().map(|t| vt(*t))); } m.section(&ts);
    let lim = |r: &mut Rng, top: u64| -> (u64, Option<u64>) { let a = match r.below(4) { _ if small => r.below(4) as u64, 0 => 0, 1 => r.below(10) as u64, 2 => top - r.below(2) as u64, _ => r.u64() % (top.max(1)) }; let b = match r.below(4) { 0 => None, 1 => Some(a), 2 => Some(top), _ => Some(a + r.u64() % (top - a).max(1)) }; (a, b) };
    let mem = |r: &mut Rng| { let m64 = r.chance(1, 2); let pg = *r.pick(&[None, None, Some(0u32), Some(16)]); let top = match (m64, pg) { (false, Some(0)) => u32::MAX as u64, (false, _) => 65536, (true, Some(0)) => u64::MAX, (true, _) => 1 << 48 }; let (a, b) = lim(r, top); e::MemoryType { minimum: a, maximum: b, memory64: m64, shared: false, page_size_log2: pg } };
    let tab = |r: &mut Rng| { let t64 = r.chance(1, 2); let (a, b) = lim(r, 10_000_000); e::TableType { element_type: rt(if r.chance(1, 2) { Ty::Func } else { Ty::Extern }), table64: t64, minimum: a, maximum: if r.chance(1, 8) && t64 { Some(u64::MAX) } else { b }, shared: false } };
    let (mut nf, mut nt, mut nm, mut ng) = (0u32, 0u32, 0u32, 0u32);
    let mut is = e::ImportSection::new();
    for _ in 0..r.below(12) {
        let (a, b) = (weird(r), weird(r));
        match r.below(4) { 0 => { nf += 1; is.import(&a, &b, e::EntityType::Function(r.below(ft.len()) as u32)); } 1 => { nt += 1; is.import(&a, &b, tab(r)); } 2 => { nm += 1; is.import(&a, &b, mem(r)); } _ => { ng += 1; is.import(&a, &b, e_global(&gen_gtype(r, &p))); } }
    }
    m.section(&is);
    let n_own = if many { *r.pick(&[250, 260, 300, 520, 700]) } else { r.below(4) };
    let own: Vec<u32> = (0..n_own).map(|_| r.below(ft.len()) as u32).collect();
    let mut fs = e::FunctionSection::new(); for f in &own { fs.function(*f); } nf += own.len() as u32; m.section(&fs);
    let mut s = e::TableSection::new(); for _ in 0..r.below(4) { nt += 1; s.table(tab(r)); } m.section(&s);
    let mut s = e::MemorySection::new(); for _ in 0..r.below(4) { nm += 1; s.memory(mem(r)); } m.section(&s);
    let mut s = e::GlobalSection::new();
    for _ in 0..if many { r.below(400) } else { r.below(4) } { ng += 1; let g = gen_gtype(r, &p); s.global(e_global(&g), &e::ConstExpr::extended([konst(r, g.ty)])); } m.section(&s);
    let mut s = e::ExportSection::new(); let mut seen = std::collections::HashSet::new();
    for k in 0..if many { r.range(100, 400) } else { r.below(14) } { let n = if many && r.chance(9, 10) { format!("{}{k}", ["f", "export ", "x"][r.below(3)]) } else { weird(r) }; if !seen.insert(n.clone()) { continue } match r.below(4) { 0 if nf > 0 => { s.export(&n, e::ExportKind::Func, r.below(nf as usize) as u32); } 1 if nt > 0 => { s.export(&n, e::ExportKind::Table, r.below(nt as usize) as u32); } 2 if nm > 0 => { s.export(&n, e::ExportKind::Memory, r.below(nm as usize) as u32); } 3 if ng > 0 => { s.export(&n, e::ExportKind::Global, r.below(ng as usize) as u32); } _ => {} } }
    m.section(&s);
    let mut c = e::CodeSection::new(); for _ in &own { let mut f = e::Function::new([]); f.instruction(&e::Instruction::Unreachable); f.instruction(&e::Instruction::End); c.function(&f); } m.section(&c);
    m.finish()
}
/// C20: descriptions of modules and instances.
pub fn describe(seed: u64, o: &mut Obs) -> crate::mon::R {
    use tinywasm::{Engine, Extern, Imports, Memory, ModuleInstance, Store};
    let mut r = Rng::new(seed);
    let declare_only = r.chance(1, 2);
    let (b, imps) = if declare_only { (declare(&mut r), vec![]) } else { let p = any_prof(&mut r); let i = { let w = r.chance(1, 2); any_imports(&mut r, &p, w) }; (if r.chance(1, 10) { let b = gen_module(&mut r, &p, &i).0; match crate::m_wide::widen(&mut r, &b) { Some((x, _)) => { o.inc("widened_modules"); x } None => b } } else { gen_module(&mut r, &p, &i).0 }, i) };
    let bad = |w: String| Bad { what: w, files: vec![("input.wasm".into(), b.clone())] };
    if expected(&b).0 != Some(true) { o.inc("generated_invalid"); return Ok(()) }
    let want = declared(&b);
    o.add("imports_checked", want.0.len() as u64); o.add("exports_checked", want.1.len() as u64);
    if !want.0.is_empty() || !want.1.is_empty() { o.case(crate::hash_bytes(&b), || format!("seed {seed}: imports {:?} exports {:?}", want.0, want.1)) }
    let mut modules = vec![];
    for k in 0..4 {
        let cfg = Cfg { opt: r.chance(1, 2), alloc: r.chance(1, 2), parse: match k { 0 => ParseMode::Bytes, 1 => ParseMode::Stream(r.range(1, 500)), _ => ParseMode::Archive }, threads: if k == 3 { None } else { Some(1) }, ..Cfg::default() };
        let m = match catch_unwind(AssertUnwindSafe(|| cfg.parse(&b))) { Ok(Ok(m)) => m, Ok(Err(e)) => return Err(bad(format!("a valid module was not parsed: {e}"))), Err(e) => return Err(bad(format!("parsing: panic at {}", panic_text(&e)))) };
        let got = catch_unwind(AssertUnwindSafe(|| described(&m))).map_err(|e| bad(format!("describing: panic at {}", panic_text(&e))))?;
        if got != want {
            let d = got.0.iter().zip(&want.0).find(|(a, b)| a != b).map(|(a, b)| format!("import reported as {a:?}, declared as {b:?}")).or_else(|| got.1.iter().zip(&want.1).find(|(a, b)| a != b).map(|(a, b)| format!("export reported as {a:?}, declared as {b:?}"))).unwrap_or_else(|| format!("{} imports and {} exports reported, {} and {} declared", got.0.len(), got.1.len(), want.0.len(), want.1.len()));
            return Err(bad(format!("description differs ({:?}): {d}", cfg.parse)));
        }
        modules.push((m, cfg));
    }
    // an instance
    let (m, cfg) = &modules[r.below(modules.len())];
    if declare_only { // what is small enough can be instantiated too
        let big = |d: &str| { let x: Vec<&str> = d.split(' ').collect(); match x[0] { "memory" => x.last().unwrap().parse::<u64>().map(|v| v > 1 << 20).unwrap_or(true), "table" => x[3].parse::<u64>().map(|v| v > 10000).unwrap_or(true), _ => false } };
        let all = declared_all(&b); if all.iter().any(|d| big(d)) { o.inc("too_large_to_instantiate"); return Ok(()) }
    }
    let log = Default::default();
    let mut store = Store::new(cfg.engine(&log));
    let mut im = Imports::new();
    let mut given: std::collections::HashMap<(String, String), String> = Default::default();
    for (i, imp) in m.imports().enumerate() {
        let _ = i;
        let key = (imp.module.to_string(), imp.name.to_string());
        let d = d_imp(&imp.ty);
        if let Some(x) = given.get(&key) { if *x != d { o.inc("imports_clash"); return Ok(()) } continue }
        given.insert(key, d);
        let e: Extern = match imp.ty {
            ImportType::Func(f) => tinywasm::HostFunction::from_untyped(&mut store, f, |_, _| Ok(vec![])).into(),
            ImportType::Memory(t) => Memory::new(&mut store, *t).map_err(|e| bad(format!("memory: {e}")))?.into(),
            ImportType::Table(t) => tinywasm::Table::new(&mut store, t.clone(), tinywasm::types::WasmValue::default_for(t.element_type)).map_err(|e| bad(format!("table: {e}")))?.into(),
            ImportType::Global(g) => tinywasm::Global::new(&mut store, *g, tinywasm::types::WasmValue::default_for(g.ty)).map_err(|e| bad(format!("global: {e}")))?.into(),
        };
        im.define(imp.module, imp.name, e);
    }
    let _ = imps; let _: Option<Engine> = None;
    let res = catch_unwind(AssertUnwindSafe(|| ModuleInstance::instantiate_no_start(&mut store, m, Some(im)))).map_err(|e| bad(format!("instantiating: panic at {}", panic_text(&e))))?;
    let inst = match res { Ok(i) => i, Err(e) => { o.note("not_instantiated", &err_class(&e)); if matches!(e, tinywasm::Error::Linker(_)) { return Err(bad(format!("imports made from the reported types were refused: {e}"))) } return Ok(()) } };
    o.inc("instances_described");
    let item = |x: &tinywasm::ExternItem, store: &mut Store, want_f: &str| -> Result<String, Bad> { use tinywasm::ExternItem as E; Ok(match x { E::Func(f) => probe(f, store, want_f)?, E::Memory(m) => { let t = m.ty(store).map_err(|e| Bad::new(e.to_string()))?; d_mem(&t) } E::Table(t) => d_table(&t.ty(store).map_err(|e| Bad::new(e.to_string()))?), E::Global(g) => d_global(&g.ty(store).map_err(|e| Bad::new(e.to_string()))?) }) };
    let got: Vec<(String, tinywasm::ExternItem)> = inst.exports().map(|(n, x)| (n.to_string(), x)).collect();
    if got.len() != want.1.len() { return Err(bad(format!("the instance reports {} exports, {} declared", got.len(), want.1.len()))) }
    // which exports are of imported objects: their own type may be narrower than declared, here it is the same
    for ((n, x), (wn, wd)) in got.iter().zip(&want.1) {
        let d = item(x, &mut store, wd)?; if n != wn || d != *wd { return Err(bad(format!("the instance reports export {n:?} as {d}, declared {wn:?} {wd}"))) }
        let y = inst.extern_item(n).map_err(|e| bad(format!("export {n:?} is not found by name: {e}")))?;
        let d = item(&y, &mut store, wd)?; if d != *wd { return Err(bad(format!("looking up {n:?} returns {d}, declared {wd}"))) }
        let (k_mem, k_tab, k_glob, k_func) = (inst.memory(n).is_ok(), inst.table(n).is_ok(), inst.global(n).is_ok(), inst.func_untyped(&store, n).is_ok());
        let kind = wd.split(' ').next().unwrap();
        if (k_mem, k_tab, k_glob, k_func) != (kind == "memory", kind == "table", kind == "global", kind == "func") { return Err(bad(format!("looking up {n:?} ({kind}) by kind: memory {k_mem} table {k_tab} global {k_glob} function {k_func}"))) }
        o.inc("lookups_checked");
    }
    for _ in 0..6 { let n = if r.chance(1, 2) { weird(&mut r) } else { let mut n = want.1.get(r.below(want.1.len().max(1))).map(|x| x.0.clone()).unwrap_or_default(); if r.chance(1, 2) { n.pop(); } else if r.chance(1, 2) { n = n.chars().map(|c| if c.is_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect() } else { n.push(*r.pick(&['x', '\0', ' '])) } n };
        if want.1.iter().any(|x| x.0 == n) { continue }
        o.inc("unknown_names_tried");
        if inst.extern_item(&n).is_ok() || inst.memory(&n).is_ok() || inst.table(&n).is_ok() || inst.global(&n).is_ok() || inst.func_untyped(&store, &n).is_ok() || inst.export_addr(&n).is_some() { return Err(bad(format!("the unknown name {n:?} was found; exports {:?}", want.1))) }
    }
    Ok(())
}
/// The handle does not tell its type: a module that imports a function of the declared type must link, one of another type must not.
fn probe(f: &tinywasm::Function, store: &mut tinywasm::Store, want: &str) -> Result<String, Bad> {
    use wasm_encoder as e;
    let Some(w) = want.strip_prefix("func ") else { return Ok("func".into()) };
    let list = |s: &str| -> Vec<Ty> { s.trim_matches(|c| c == '[' || c == ']').split(", ").filter(|x| !x.is_empty()).map(|x| match x { "I32" => Ty::I32, "I64" => Ty::I64, "F32" => Ty::F32, "F64" => Ty::F64, "V128" => Ty::V128, "Func" => Ty::Func, _ => Ty::Extern }).collect() };
    let (a, b) = w.split_once(" -> ").unwrap(); let (p, q) = (list(a), list(b));
    let mut ok = |p: &[Ty], q: &[Ty]| -> Result<bool, Bad> {
        let mut m = e::Module::new();
        let mut ts = e::TypeSection::new(); ts.ty().function(p.iter().map(|t| vt(*t)), q.iter().map(|t| vt(*t))); m.section(&ts);
        let mut is = e::ImportSection::new(); is.import("p", "f", e::EntityType::Function(0)); m.section(&is);
        let m = Parser::new().parse_module_bytes(m.finish()).map_err(|e| Bad::new(e.to_string()))?;
        let mut im = tinywasm::Imports::new(); im.define("p", "f", f.clone());
        Ok(tinywasm::ModuleInstance::instantiate(store, &m, Some(im)).is_ok())
    };
    if !ok(&p, &q)? { return Ok("func of another type".into()) }
    let mut p2 = p.clone(); p2.push(Ty::I64); if ok(&p2, &q)? { return Ok("func of any parameters".into()) }
    let mut q2 = q.clone(); if q2.pop().is_none() { q2.push(Ty::F32) } if ok(&p, &q2)? { return Ok("func of any results".into()) }
    Ok(want.to_string())
}
fn declared_all(b: &[u8]) -> Vec<String> {
    let mut o: Vec<String> = declared(b).0.into_iter().map(|x| x.2).collect();
    for p in wasmparser::Parser::new(0).parse_all(b) { match p.unwrap() { wasmparser::Payload::TableSection(s) => for x in s { o.push(w_table(&x.unwrap().ty)) }, wasmparser::Payload::MemorySection(s) => for x in s { o.push(w_mem(&x.unwrap())) }, _ => {} } }
    o
}
