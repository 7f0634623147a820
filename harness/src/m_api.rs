//! Monitors of the embedding API: host-side object access against plain models (C24), and typing, arity and store checks (C18).
use crate::m_exec::{bad, module};
use crate::mon::{Bad, Obs, R};
use crate::refi::{Ty, NULL, V};
use crate::rng::Rng;
use crate::target::{bits, rty_of, Back, Cfg, MemLog};
use std::cell::{Cell, RefCell};
use std::ffi::CString;
use std::io::{Read, Seek, SeekFrom, Write};
use std::rc::Rc;
use tinywasm::types::{ExternRef, FuncRef, FuncType, GlobalType, MemoryArch, MemoryType, TableType, WasmType, WasmValue};
use tinywasm::{Error, ExternItem, FuncContext, Function, Global, HostFunction, Imports, Memory, ModuleInstance, Store, Table, Trap, WasmTupleChain};

fn i(v: i32) -> WasmValue { WasmValue::I32(v) }
fn l(v: i64) -> WasmValue { WasmValue::I64(v) }
fn is_mem_oob<T>(r: &Result<T, Error>) -> bool { matches!(r, Err(Error::Trap(Trap::MemoryOutOfBounds { .. }))) }
fn is_tab_oob(e: &Error) -> bool { matches!(e, Error::Trap(Trap::TableOutOfBounds { .. })) }

// ------------------------------------------------------------------------------------------------ host access
pub fn hostacc(seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed);
    match r.below(10) { 0 | 1 => table_model(&mut r, seed, o), 2 => global_model(&mut r, seed, o), _ => mem_model(&mut r, seed, o) }
}
fn off(r: &mut Rng, len: usize, chunk: usize) -> usize {
    match r.below(12) {
        0 => 0, 1 => len, 2 => len.wrapping_sub(1), 3 => len + 1, 4 => usize::MAX - r.below(10), 5 => r.below(len + 20),
        6 => 1usize.checked_shl(32).unwrap_or(0).wrapping_sub(r.below(3)), 7 | 8 => (r.below(len / chunk.max(1) + 2) * chunk + r.below(5)).wrapping_sub(2).min(usize::MAX >> 1), 9 => len.saturating_sub(r.below(300)), _ => r.below(len.max(1)),
    }
}
fn cnt(r: &mut Rng, len: usize, at: usize, chunk: usize) -> usize {
    let left = len.saturating_sub(at);
    match r.below(11) { 0 => 0, 1 => left, 2 => left + 1, 3 => left.saturating_sub(1), 4 => r.below(left + 2), 5 => chunk.min(70000), 6 => (chunk + 1).min(70000), 7 => 1, 8 => r.below(600), _ => r.below(40) }.min(150_000)
}
fn text(r: &mut Rng) -> String { let n = r.below(20); (0..n).map(|_| *r.pick(&['a', 'z', '0', ' ', 'é', 'ß', '€', '漢', '🦀', '\u{10ffff}', '\u{7f}', '\n', '\u{0800}', '\u{ffff}', 'x'])).collect() }

fn mem_model(r: &mut Rng, seed: u64, o: &mut Obs) -> R {
    let page: usize = if r.chance(1, 2) { 1 } else { 65536 };
    let min = if page == 1 { *r.pick(&[0, 1, 7, 16, 100, 1000, 4096, 5000]) } else { r.below(3) } as u64;
    let max = if r.chance(2, 3) { Some(min + r.below(if page == 1 { 2000 } else { 3 }) as u64) } else { None };
    let m64 = r.chance(1, 4);
    let chunk = 1usize << r.range(0, 17);
    let back = match r.below(8) { 0 | 1 => Back::Vec, 2 | 3 | 4 => Back::Paged(chunk), 5 => Back::Custom(r.range(1, 5000)), 6 => Back::Lazy, _ => Back::LazyPaged(chunk) };
    let partial = matches!(back, Back::Paged(_) | Back::LazyPaged(_) | Back::Custom(_));
    let chunk = match back { Back::Paged(n) | Back::LazyPaged(n) | Back::Custom(n) => n, _ => 64 };
    let cfg = Cfg { back, oom: r.chance(1, 3), ..Cfg::default() };
    let log = Rc::new(MemLog::default());
    // a backend of the embedder's that cannot give more than so much
    let cap = if matches!(cfg.back, Back::Custom(_)) && r.chance(2, 3) { Some(min as usize * page + r.below(if page == 1 { 1500 } else { 200_000 })) } else { None };
    log.cap.set(cap);
    let beyond = |n: usize| cap.is_some_and(|c| n > c);
    let mut s = Store::new(cfg.engine(&log));
    let own = r.chance(1, 2); // whose memory it is: the guest's own or the host's
    let (x, _k) = if m64 { ("i64", "i64") } else { ("i32", "i32") };
    let ty = format!("{}{min}{}{}", if m64 { "i64 " } else { "" }, max.map(|m| format!(" {m}")).unwrap_or_default(), if page == 1 { " (pagesize 1)" } else { "" });
    let wat = format!("(module {} (func (export \"ld\") (param {x}) (result i32) (i32.load8_u (local.get 0))) (func (export \"st\") (param {x} i32) (i32.store8 (local.get 0) (local.get 1)))
      (func (export \"ld8\") (param {x}) (result i64) (i64.load align=1 (local.get 0))) (func (export \"st8\") (param {x} i64) (i64.store align=1 (local.get 0) (local.get 1)))
      (func (export \"fill\") (param {x} i32 {x}) (memory.fill (local.get 0) (local.get 1) (local.get 2))) (func (export \"copy\") (param {x} {x} {x}) (memory.copy (local.get 0) (local.get 1) (local.get 2)))
      (func (export \"grow\") (param {x}) (result {x}) (memory.grow (local.get 0))) (func (export \"size\") (result {x}) (memory.size)) (memory (export \"unrelated\") 1))",
        if own { format!("(memory (export \"mem\") {ty})") } else { format!("(import \"h\" \"mem\" (memory {ty}))") });
    // one memory besides, to see that it is left alone
    let wat = wat.replace("(memory (export \"unrelated\") 1)", "");
    let m = module(&wat, r.chance(1, 2));
    let mt = MemoryType::new(if m64 { MemoryArch::I64 } else { MemoryArch::I32 }, min, max, if page == 1 { Some(1) } else { None });
    let err = |e: Error| bad(format!("setting up: {e:?}"), &wat);
    let neighbour = Memory::new(&mut s, MemoryType::default().with_page_count_initial(1)).map_err(err)?;
    let (mem, inst) = if own { let inst = ModuleInstance::instantiate(&mut s, &m, None).map_err(err)?; (inst.memory("mem").map_err(err)?, inst) } else {
        let mem = Memory::new(&mut s, mt).map_err(err)?; let mut im = Imports::new(); im.define("h", "mem", mem); (mem, ModuleInstance::instantiate(&mut s, &m, Some(im)).map_err(err)?)
    };
    neighbour.fill(&mut s, 100, 50, 0xAB).map_err(err)?;
    let mut d = vec![0u8; min as usize * page];
    let hard = max.unwrap_or(if page == 1 { if m64 { 1 << 32 } else { (1 << 32) - 1 } } else { 65536 }).min((usize::MAX / page) as u64);
    let n = r.range(10, 60);
    let mut done: Vec<String> = vec![]; let mut oob = 0u64; let mut partials = 0u64;
    // all ones whatever the machine's word
    let addr = |v: usize| if m64 { l(if v == usize::MAX { -1 } else { v as i64 }) } else { i(v as i32) };
    let bytes = |pages: u64| usize::try_from(pages.saturating_mul(page as u64)).unwrap_or(usize::MAX);
    for _ in 0..n {
        let len = d.len(); let a = off(r, len, chunk); let c = cnt(r, len, a, chunk);
        let fits = a.checked_add(c).map(|e| e <= len).unwrap_or(false);
        let avail = if a < len { c.min(len - a) } else { 0 };
        let op = r.below(24);
        let mut what = format!("op {op} at {a} count {c} of {len}");
        let mut fail: Option<String> = None;
        macro_rules! want { ($c:expr, $($t:tt)*) => { if !($c) && fail.is_none() { fail = Some(format!($($t)*)) } } }
        if !fits { oob += 1 }
        match op {
            0 => { let mut b = vec![0x5Au8; c]; what = format!("read({a}, {c} bytes) of {len}"); match mem.read(&s, a, &mut b) { Err(e) => want!(false, "{e:?}"), Ok(k) => {
                want!(k <= avail && (k > 0) == (avail > 0) && (partial || k == avail), "returned {k}, {avail} bytes are there");
                let k = k.min(avail); if k < avail { partials += 1 } want!(b[..k] == d[a.min(len)..a.min(len) + k], "wrong bytes"); want!(b[k..].iter().all(|x| *x == 0x5A), "wrote beyond the count it returned") } } }
            1 => { let v: Vec<u8> = (0..c).map(|_| r.u32() as u8).collect(); what = format!("write({a}, {c} bytes) of {len}"); match mem.write(&mut s, a, &v) { Err(e) => want!(false, "{e:?}"), Ok(k) => {
                want!(k <= avail && (k > 0) == (avail > 0) && (partial || k == avail), "returned {k}, there is room for {avail} bytes"); let k = k.min(avail); if k < avail { partials += 1 } if k > 0 { d[a..a + k].copy_from_slice(&v[..k]) } } } }
            2 => { let mut b = vec![0x5Au8; c]; what = format!("read_exact({a}, {c}) of {len}"); let e = mem.read_exact(&s, a, &mut b); if fits { want!(e.is_ok(), "{e:?}"); want!(b == d[a..a + c], "wrong bytes") } else { want!(is_mem_oob(&e), "expected out of bounds, got {e:?}") } }
            3 => { what = format!("read_vec({a}, {c}) of {len}"); let e = mem.read_vec(&s, a, c); if fits { want!(e.as_ref().map(|b| b[..] == d[a..a + c]).unwrap_or(false), "wrong bytes or error {:?}", e.as_ref().err()) } else { want!(is_mem_oob(&e), "expected out of bounds") } }
            4 | 5 => { let v = if r.chance(1, 2) { 0 } else { r.u32() as u8 }; what = format!("fill({a}, {c}, {v}) of {len}"); let e = mem.fill(&mut s, a, c, v); if fits { want!(e.is_ok(), "{e:?}"); d[a..a + c].fill(v) } else { want!(is_mem_oob(&e), "expected out of bounds, got {e:?}") } }
            6 => { let v: Vec<u8> = (0..c).map(|_| r.u32() as u8).collect(); what = format!("copy_from_slice({a}, {c}) of {len}"); let e = mem.copy_from_slice(&mut s, a, &v); if fits { want!(e.is_ok(), "{e:?}"); d[a..a + c].copy_from_slice(&v) } else { want!(is_mem_oob(&e), "expected out of bounds, got {e:?}") } }
            7 | 8 => { let b = if r.chance(1, 2) { a.wrapping_add(r.below(600)).wrapping_sub(300) } else { off(r, len, chunk) }; what = format!("copy_within(src {a}, dst {b}, {c}) of {len}"); let e = mem.copy_within(&mut s, a, b, c);
                if fits && b.checked_add(c).map(|e| e <= len).unwrap_or(false) { want!(e.is_ok(), "{e:?}"); d.copy_within(a..a + c, b) } else { want!(is_mem_oob(&e), "expected out of bounds, got {e:?}") } }
            9 => { let pages = (len / page) as i64; let room = (hard as i64 - pages).max(0);
                let dl = match r.below(10) { 0 => 0, 1 => -1 - r.below(5) as i64, 2 => i64::MIN, 3 => i64::MAX, 4 => room + 1, 5 if room < 3000 || cap.is_some() => room, 6 if cap.is_some() => (cap.unwrap() / page) as i64 - pages + r.below(3) as i64 - 1, 7 if cap.is_some() => room - r.below(3) as i64, _ => r.below(if page == 1 { 300 } else { 2 }) as i64 };
                if dl > 0 && dl <= room && bytes(dl as u64) > 4 << 20 && !beyond(len.saturating_add(bytes(dl as u64))) { continue }
                what = format!("grow({dl}) of {pages} pages (limit {hard})"); let e = mem.grow(&mut s, dl);
                if dl > 0 && dl <= room && beyond(len.saturating_add(bytes(dl as u64))) { want!(matches!(e, Err(Error::Trap(Trap::OutOfMemory))), "the backend refused, got {e:?}") }
                else if dl >= 0 && dl <= room { want!(matches!(e, Ok(Some(p)) if p == pages), "got {e:?}"); d.resize(len + dl as usize * page, 0) } else { want!(matches!(e, Ok(None)), "expected no growth, got {e:?}") } }
            10 => { let t = mem.ty(&s); what = "page_count, len, ty".into(); want!(mem.page_count(&s).ok() == Some(len / page), "page count {:?}", mem.page_count(&s)); want!(mem.len(&s).ok() == Some(len), "len"); want!(t.as_ref().ok() == Some(&mt), "type {t:?}") }
            11 => { let t = text(r); let z = CString::new(t.replace('\0', "")).unwrap(); let b = z.as_bytes_with_nul(); what = format!("write_cstring({a}, {t:?}) of {len}"); let e = mem.write_cstring(&mut s, a, &z);
                if a.checked_add(b.len()).map(|e| e <= len).unwrap_or(false) { want!(e.is_ok(), "{e:?}"); d[a..a + b.len()].copy_from_slice(b);
                    let back = mem.read_cstring(&s, a, b.len()); want!(back.as_ref().ok() == Some(&z), "read back {back:?}"); let back = mem.read_cstring_until_null(&s, a, (len - a).min(b.len() + r.below(9))); want!(back.as_ref().ok() == Some(&z), "read back until nul: {back:?}");
                    let back = mem.read_string(&s, a, b.len() - 1); want!(back.as_ref().ok().map(|x| x.as_str()) == z.to_str().ok(), "read back as UTF-8: {back:?}")
                } else { want!(is_mem_oob(&e), "expected out of bounds, got {e:?}") } }
            12 => { let t = text(r); what = format!("write_cstring_bytes({a}, {t:?}) of {len}"); let e = mem.write_cstring_bytes(&mut s, a, &t); let n = t.len() + 1;
                if a.checked_add(n).map(|e| e <= len).unwrap_or(false) { want!(e.is_ok(), "{e:?}"); d[a..a + n - 1].copy_from_slice(t.as_bytes()); d[a + n - 1] = 0 } else { want!(is_mem_oob(&e), "expected out of bounds, got {e:?}") } }
            13 => { what = format!("read_cstring({a}, {c}) of {len}"); let e = mem.read_cstring(&s, a, c); if !fits { want!(is_mem_oob(&e), "expected out of bounds, got {e:?}") } else { let w = CString::from_vec_with_nul(d[a..a + c].to_vec()).ok(); want!(e.as_ref().ok() == w.as_ref(), "got {e:?}, expected {w:?}"); } }
            14 => { what = format!("read_cstring_until_null({a}, {c}) of {len}"); let e = mem.read_cstring_until_null(&s, a, c); if !fits { want!(is_mem_oob(&e), "expected out of bounds, got {e:?}") } else { let w = d[a..a + c].iter().position(|x| *x == 0).map(|p| CString::new(&d[a..a + p]).unwrap()); want!(e.as_ref().ok() == w.as_ref(), "got {e:?}, expected {w:?}"); } }
            15 => { what = format!("read_string({a}, {c}) of {len}"); let e = mem.read_string(&s, a, c); if !fits { want!(is_mem_oob(&e), "expected out of bounds, got {e:?}") } else { let w = String::from_utf8(d[a..a + c].to_vec()).ok(); want!(e.as_ref().ok() == w.as_ref(), "got {e:?}, expected {w:?}"); } }
            16 => { // UTF-16, sometimes a string we put there
                let mut c = c; if r.chance(2, 3) { let t = text(r); let b: Vec<u8> = t.encode_utf16().flat_map(|u| u.to_le_bytes()).collect(); if a.checked_add(b.len()).map(|e| e <= len).unwrap_or(false) { if let Err(e) = mem.copy_from_slice(&mut s, a, &b) { want!(false, "{e:?}") } d[a..a + b.len()].copy_from_slice(&b); c = b.len() + if r.chance(1, 4) && a + b.len() < len { 1 } else { 0 } } }
                let fits = a.checked_add(c).map(|e| e <= len).unwrap_or(false);
                what = format!("read_js_string({a}, {c}) of {len}"); let e = mem.read_js_string(&s, a, c); if !fits { want!(is_mem_oob(&e), "expected out of bounds, got {e:?}") } else { let u: Vec<u16> = d[a..a + c].chunks_exact(2).map(|x| u16::from_le_bytes([x[0], x[1]])).collect(); let w = String::from_utf16(&u).ok(); want!(e.as_ref().ok() == w.as_ref(), "got {e:?}, expected {w:?}"); } }
            17 | 18 => { what = "cursor".into(); if let Err(e) = cursor_model(r, &mem, &mut s, &mut d, partial, chunk) { fail = Some(e) } o.inc("cursor_sessions") }
            _ => { // the guest's view
                let f = |n: &str| inst.func_untyped(&s, n).unwrap();
                let top = if m64 { usize::MAX } else { u32::MAX as usize };
                let a = a & top; let fits = a.checked_add(c).map(|e| e <= len).unwrap_or(false);
                let oob = |e: &Result<Vec<WasmValue>, Error>| matches!(e, Err(Error::Trap(Trap::MemoryOutOfBounds { .. })));
                match r.below(8) {
                    0 => { what = format!("guest load8 {a} of {len}"); let e = f("ld").call(&mut s, &[addr(a)]); if a < len { want!(matches!(&e, Ok(v) if v[0] == i(d[a] as i32)), "got {e:?}, host wrote {}", d[a]) } else { want!(oob(&e), "expected out of bounds, got {e:?}") } }
                    1 => { let v = r.u32() as u8; what = format!("guest store8 {a} of {len}"); let e = f("st").call(&mut s, &[addr(a), i(v as i32)]); if a < len { want!(e.is_ok(), "{e:?}"); d[a] = v } else { want!(oob(&e), "expected out of bounds, got {e:?}") } }
                    2 => { what = format!("guest i64.load {a} of {len}"); let e = f("ld8").call(&mut s, &[addr(a)]); if a.checked_add(8).map(|e| e <= len).unwrap_or(false) { let w = i64::from_le_bytes(d[a..a + 8].try_into().unwrap()); want!(matches!(&e, Ok(v) if v[0] == l(w)), "got {e:?}, expected {w:#x}") } else { want!(oob(&e), "expected out of bounds, got {e:?}") } }
                    3 => { let v = r.u64(); what = format!("guest i64.store {a} of {len}"); let e = f("st8").call(&mut s, &[addr(a), l(v as i64)]); if a.checked_add(8).map(|e| e <= len).unwrap_or(false) { want!(e.is_ok(), "{e:?}"); d[a..a + 8].copy_from_slice(&v.to_le_bytes()) } else { want!(oob(&e), "expected out of bounds, got {e:?}") } }
                    4 => { let v = r.u32(); what = format!("guest fill {a} {c} of {len}"); let e = f("fill").call(&mut s, &[addr(a), i(v as i32), addr(c)]); if fits { want!(e.is_ok(), "{e:?}"); d[a..a + c].fill(v as u8) } else { want!(oob(&e), "expected out of bounds, got {e:?}") } }
                    5 => { let b = off(r, len, chunk) & top; what = format!("guest copy to {b} from {a} {c} of {len}"); let e = f("copy").call(&mut s, &[addr(b), addr(a), addr(c)]); if fits && b.checked_add(c).map(|e| e <= len).unwrap_or(false) { want!(e.is_ok(), "{e:?}"); d.copy_within(a..a + c, b) } else { want!(oob(&e), "expected out of bounds, got {e:?}") } }
                    6 => { what = format!("guest memory.size of {len}"); let e = f("size").call(&mut s, &[]); want!(matches!(&e, Ok(v) if v[0] == addr(len / page)), "got {e:?}") }
                    _ => { let pages = (len / page) as u64; let mut dl = r.below(if page == 1 { 200 } else { 2 }) as u64; if let (Some(c), true) = (cap, r.chance(1, 2)) { dl = match r.below(4) { 0 => hard.saturating_sub(pages), 1 => hard.saturating_sub(pages + r.below(3) as u64), 2 => ((c / page) as u64 + r.below(3) as u64).saturating_sub(pages), _ => hard.saturating_sub(pages) / (1 + r.below(9) as u64) } }
                        if !m64 { dl &= 0x7fff_ffff }
                        if pages + dl <= hard && !beyond(bytes(pages + dl)) && bytes(dl) > 4 << 20 { continue }
                        what = format!("guest grow {dl} from {pages}"); let e = f("grow").call(&mut s, &[if m64 { l(dl as i64) } else { i(dl as i32) }]);
                        if dl > 0 && pages + dl <= hard && beyond(bytes(pages + dl)) { if cfg.oom { want!(matches!(e, Err(Error::Trap(Trap::OutOfMemory))), "the backend refused, got {e:?}") } else { want!(matches!(&e, Ok(v) if v[0] == addr(usize::MAX)), "the backend refused, got {e:?}") } }
                        else if pages + dl <= hard { want!(matches!(&e, Ok(v) if v[0] == addr(pages as usize)), "got {e:?}"); d.resize(len + dl as usize * page, 0) } else { want!(matches!(&e, Ok(v) if v[0] == addr(usize::MAX)), "got {e:?}") } }
                }
            }
        }
        if fail.is_none() {
            let got = mem.read_vec(&s, 0, d.len()).map_err(|e| bad(format!("{what}: then reading everything: {e:?}"), &wat))?;
            if got != d || mem.len(&s).ok() != Some(d.len()) || mem.page_count(&s).ok() != Some(d.len() / page) { let k = got.iter().zip(&d).position(|(a, b)| a != b); fail = Some(format!("the memory is not what it should be: size {:?} (expected {}), pages {:?}, first difference at {k:?}", mem.len(&s), d.len(), mem.page_count(&s))) }
        }
        done.push(what.clone());
        if let Some(f) = fail { return Err(bad(format!("{what}: {f}\nmemory {ty:?}, {}, backend {:?}\nbefore: {:?}", if own { "the guest's" } else { "the host's" }, cfg.back, &done[done.len().saturating_sub(8)..]), &wat)) }
    }
    if neighbour.read_vec(&s, 0, 65536).ok().map(|v| v.iter().enumerate().all(|(k, x)| *x == if (100..150).contains(&k) { 0xAB } else { 0 })) != Some(true) { return Err(bad("another memory of the store changed".into(), &wat)) }
    o.add("memory_operations", n as u64); o.add("operations_out_of_bounds", oob); o.add("partial_transfers", partials); o.add("growths_refused_by_the_backend", log.refused.get()); o.note("backends", &cfg.kind());
    for w in &done { o.note("operations", w.split(|c: char| c == '(' || c.is_ascii_digit()).next().unwrap_or("")) }
    o.case(seed, || format!("seed {seed}: memory {ty}, {:?}: {:?}", cfg.back, &done[..done.len().min(6)]));
    Ok(())
}
fn cursor_model(r: &mut Rng, mem: &Memory, s: &mut Store, d: &mut [u8], partial: bool, chunk: usize) -> Result<(), String> {
    let len = d.len();
    let mut pos: u64 = 0;
    let mut c = if r.chance(1, 2) { mem.cursor(s) } else { pos = off(r, len, chunk) as u64; mem.cursor_at(s, pos) }.map_err(|e| format!("{e:?}"))?;
    let mut hist = vec![format!("at {pos} of {len}")];
    for _ in 0..r.range(1, 12) {
        let at = pos.min(len as u64) as usize; let left = len - at;
        let n = cnt(r, len, at, chunk);
        // a position the machine cannot address is an error there
        let far = usize::try_from(pos).is_err();
        let fail = |h: &[String], w: String| Err(format!("{h:?}: {w}"));
        match r.below(9) {
            0 | 1 => { let mut b = vec![0x5Au8; n]; hist.push(format!("read {n}")); match c.read(&mut b) { Err(_) if far => {} Err(e) => return fail(&hist, format!("{e}")), Ok(k) => { let w = n.min(left); if k > w || (k > 0) != (w > 0) || !partial && k != w { return fail(&hist, format!("read {k} bytes, {w} are there")) } if b[..k] != d[at..at + k] || b[k..].iter().any(|x| *x != 0x5A) { return fail(&hist, "wrong bytes".into()) } pos += k as u64 } } }
            2 | 3 => { let v: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect(); hist.push(format!("write {n}")); match c.write(&v) { Err(_) if far => {} Err(e) => return fail(&hist, format!("{e}")), Ok(k) => { let w = n.min(left); if k > w || (k > 0) != (w > 0) || !partial && k != w { return fail(&hist, format!("wrote {k} bytes, there is room for {w}")) } d[at..at + k].copy_from_slice(&v[..k]); pos += k as u64 } } }
            4 => { let mut b = vec![0u8; n]; hist.push(format!("read_exact {n}")); let e = c.read_exact(&mut b); if n <= left { if e.is_err() || b != d[at..at + n] { return fail(&hist, format!("{e:?} or wrong bytes")) } pos += n as u64 } else if e.is_ok() { return fail(&hist, "succeeded beyond the end".into()) } else { pos = c.position() } }
            5 => { let v: Vec<u8> = (0..n).map(|_| r.u32() as u8).collect(); hist.push(format!("write_all {n}")); let e = c.write_all(&v); let k = n.min(left); d[at..at + k].copy_from_slice(&v[..k]); if (n <= left) != e.is_ok() { return fail(&hist, format!("{e:?}, room for {left}")) } pos += k as u64 }
            6 => { let p = off(r, len, chunk) as u64; hist.push(format!("set_position {p}")); c.set_position(p); pos = p }
            _ => {
                let by = match r.below(6) { 0 => 0, 1 => -(r.below(len + 3) as i64), 2 => r.below(len + 3) as i64, 3 => i64::MIN + r.below(2) as i64, 4 => i64::MAX, _ => (-(pos.min(i64::MAX as u64) as i64)).saturating_add(r.below(5) as i64 - 2) };
                let (to, w): (SeekFrom, i128) = match r.below(3) { 0 => (SeekFrom::Start(by as u64), by as u64 as i128), 1 => (SeekFrom::End(by), len as i128 + by as i128), _ => (SeekFrom::Current(by), pos as i128 + by as i128) };
                hist.push(format!("seek {to:?}"));
                let e = c.seek(to);
                if (0..=u64::MAX as i128).contains(&w) { if e.as_ref().ok() != Some(&(w as u64)) { return fail(&hist, format!("{e:?}, expected {w}")) } pos = w as u64 } else if e.is_ok() { return fail(&hist, format!("{e:?}, expected an error")) }
            }
        }
        if c.position() != pos { return Err(format!("{hist:?}: the position is {}, expected {pos}", c.position())) }
    }
    Ok(())
}

fn table_model(r: &mut Rng, seed: u64, o: &mut Obs) -> R {
    let func = r.chance(1, 2); let t64 = r.chance(1, 4); let own = r.chance(1, 2);
    let (min, e, x) = (r.below(12) as u64, if func { "funcref" } else { "externref" }, if t64 { "i64" } else { "i32" });
    let max = if r.chance(2, 3) { Some(min + r.below(10) as u64) } else { None };
    let ty = format!("{}{min}{} {e}", if t64 { "i64 " } else { "" }, max.map(|m| format!(" {m}")).unwrap_or_default());
    let wat = format!("(module {} (table $src 4 funcref) (elem (table $src) ({x}.const 0) func $f0 $f1 $f2 $f3) (func $f0 (result i32) (i32.const 0)) (func $f1 (result i32) (i32.const 1)) (func $f2 (result i32) (i32.const 2)) (func $f3 (result i32) (i32.const 3)) (export \"src\" (table $src))
      (func (export \"get\") (param {x}) (result {e}) (table.get $t (local.get 0))) (func (export \"set\") (param {x} {e}) (table.set $t (local.get 0) (local.get 1))) (func (export \"size\") (result {x}) (table.size $t)) (func (export \"grow\") (param {x} {e}) (result {x}) (table.grow $t (local.get 1) (local.get 0))) (func (export \"fill\") (param {x} {e} {x}) (table.fill $t (local.get 0) (local.get 1) (local.get 2))) (func (export \"copy\") (param {x} {x} {x}) (table.copy $t $t (local.get 0) (local.get 1) (local.get 2))))",
        if own { format!("(table $t (export \"t\") {ty})") } else { format!("(import \"h\" \"t\" (table $t {ty}))") }).replace(&format!("({x}.const 0) func"), "(i32.const 0) func");
    let m = module(&wat, true); let err = |e: Error| bad(format!("setting up: {e:?}"), &wat);
    let et = if func { WasmType::RefFunc } else { WasmType::RefExtern };
    let tt = if t64 { TableType::new64(et, min, max) } else { TableType::new(et, min, max) };
    let null = WasmValue::default_for(et); let other = WasmValue::default_for(if func { WasmType::RefExtern } else { WasmType::RefFunc });
    let mut s = Store::default();
    let (t, inst) = if own { let inst = ModuleInstance::instantiate(&mut s, &m, None).map_err(err)?; (inst.table("t").map_err(err)?, inst) } else { let t = Table::new(&mut s, tt, null).map_err(err)?; let mut im = Imports::new(); im.define("h", "t", t); (t, ModuleInstance::instantiate(&mut s, &m, Some(im)).map_err(err)?) };
    let vals: Vec<WasmValue> = if func { let src = inst.table("src").map_err(err)?; let mut v = vec![null]; for k in 0..4 { v.push(src.get(&s, k).map_err(err)?) } v } else { vec![null, WasmValue::RefExtern(ExternRef::new(Some(0))), WasmValue::RefExtern(ExternRef::new(Some(7))), WasmValue::RefExtern(ExternRef::new(Some(u32::MAX - 1)))] };
    let mut d = vec![null; min as usize];
    let hard = max.unwrap_or(u64::MAX) as usize;
    let n = r.range(10, 50); let mut done: Vec<String> = vec![];
    let adr = |v: usize| if t64 { l(if v == usize::MAX { -1 } else { v as i64 }) } else { i(v as i32) };
    for _ in 0..n {
        let len = d.len();
        let a = match r.below(8) { 0 => len, 1 => len + 1, 2 => usize::MAX - r.below(3), 3 => u32::MAX as usize, _ => r.below(len + 1) }; let c = match r.below(6) { 0 => 0, 1 => len.saturating_sub(a), 2 => len.saturating_sub(a) + 1, 3 => usize::MAX - r.below(3), _ => r.below(len + 2) };
        let b = match r.below(8) { 0 => len, 1 => usize::MAX, _ => r.below(len + 1) };
        let fits = |a: usize, c: usize| a.checked_add(c).map(|e| e <= len).unwrap_or(false);
        let v = *r.pick(&vals); let a32 = a.min(u32::MAX as usize) as u32;
        let mut fail: Option<String> = None; let mut what;
        macro_rules! want { ($c:expr, $($t:tt)*) => { if !($c) && fail.is_none() { fail = Some(format!($($t)*)) } } }
        let f = |n: &str| inst.func_untyped(&s, n).unwrap();
        let goob = |e: &Result<Vec<WasmValue>, Error>| matches!(e, Err(Error::Trap(Trap::TableOutOfBounds { .. })));
        match r.below(15) {
            0 | 1 => { what = format!("get({a32}) of {len}"); let e = t.get(&s, a32); if (a32 as usize) < len { want!(matches!(&e, Ok(x) if *x == d[a32 as usize]), "got {e:?}, expected {:?}", d[a32 as usize]) } else { want!(e.as_ref().err().map(is_tab_oob).unwrap_or(false), "expected out of bounds, got {e:?}") } }
            2 | 3 => { what = format!("set({a32}, {v:?}) of {len}"); let e = t.set(&mut s, a32, v); if (a32 as usize) < len { want!(e.is_ok(), "{e:?}"); d[a32 as usize] = v } else { want!(matches!(e, Err(Trap::TableOutOfBounds { .. })), "expected out of bounds, got {e:?}") } }
            4 => { what = format!("set({a32}) to a value of another type, of {len}"); let e = t.set(&mut s, a32, if r.chance(1, 2) { other } else { i(1) }); want!(e.is_err(), "accepted") }
            5 => { what = format!("load({a}, {c}) of {len}"); let e = t.load(&s, a, c).map(|x| x.collect::<Vec<_>>()); if fits(a, c) { want!(matches!(&e, Ok(x) if x[..] == d[a..a + c]), "got {e:?}") } else { want!(e.as_ref().err().map(is_tab_oob).unwrap_or(false), "expected out of bounds, got {e:?}") } }
            6 => { what = format!("copy_within(src {a}, dst {b}, {c}) of {len}"); let e = t.copy_within(&mut s, a, b, c); if fits(a, c) && fits(b, c) { want!(e.is_ok(), "{e:?}"); d.copy_within(a..a + c, b) } else { want!(matches!(e, Err(Trap::TableOutOfBounds { .. })), "expected out of bounds, got {e:?}") } }
            7 => { let dl = match r.below(6) { 0 => 0, 1 => -1, 2 => i32::MIN, 3 => (hard.saturating_sub(len)).min(100) as i32, 4 => (hard.saturating_sub(len)).min(100) as i32 + 1, _ => r.below(6) as i32 }; what = format!("grow({dl}) of {len} (limit {hard})"); let e = t.grow(&mut s, dl, v);
                if dl >= 0 && len + dl as usize <= hard { want!(matches!(e, Ok(x) if x == len), "got {e:?}"); d.resize(len + dl as usize, v) } else { want!(e.is_err(), "expected an error, got {e:?}") } }
            8 => { what = format!("grow with a value of another type, of {len}"); let e = t.grow(&mut s, r.below(3) as i32, if r.chance(1, 2) { other } else { l(0) }); want!(e.is_err(), "accepted") }
            9 => { what = "size and type".into(); want!(t.size(&s).ok() == Some(len), "size {:?}, expected {len}", t.size(&s)); want!(t.ty(&s).ok() == Some(tt), "type {:?}, expected {tt:?}", t.ty(&s)) }
            10 => { let a = a32 as usize; what = format!("guest get {a} of {len}"); let e = f("get").call(&mut s, &[adr(a)]); if a < len { want!(matches!(&e, Ok(x) if x[0] == d[a]), "got {e:?}") } else { want!(goob(&e), "expected out of bounds, got {e:?}") } }
            11 => { let a = a32 as usize; what = format!("guest set {a} of {len}"); let e = f("set").call(&mut s, &[adr(a), v]); if a < len { want!(e.is_ok(), "{e:?}"); d[a] = v } else { want!(goob(&e), "expected out of bounds, got {e:?}") } }
            12 => { let dl = r.below(5); what = format!("guest grow {dl} of {len} (limit {hard})"); let e = f("grow").call(&mut s, &[adr(dl), v]); if len + dl <= hard { want!(matches!(&e, Ok(x) if x[0] == adr(len)), "got {e:?}"); d.resize(len + dl, v) } else { want!(matches!(&e, Ok(x) if x[0] == adr(usize::MAX)), "got {e:?}") } }
            13 => { let (a, c) = (a.min(u32::MAX as usize), c.min(u32::MAX as usize)); what = format!("guest fill {a} {c} of {len}"); let e = f("fill").call(&mut s, &[adr(a), v, adr(c)]); if fits(a, c) { want!(e.is_ok(), "{e:?}"); d[a..a + c].fill(v) } else { want!(goob(&e), "expected out of bounds, got {e:?}") } }
            _ => { let (a, b, c) = (a.min(u32::MAX as usize), b.min(u32::MAX as usize), c.min(u32::MAX as usize)); what = format!("guest copy to {b} from {a} {c} of {len}"); let e = f("copy").call(&mut s, &[adr(b), adr(a), adr(c)]); if fits(a, c) && fits(b, c) { want!(e.is_ok(), "{e:?}"); d.copy_within(a..a + c, b) } else { want!(goob(&e), "expected out of bounds, got {e:?}") } }
        }
        if fail.is_none() { let got = t.load(&s, 0, d.len()).map(|x| x.collect::<Vec<_>>()); if t.size(&s).ok() != Some(d.len()) || got.as_ref().ok() != Some(&d) { fail = Some(format!("the table is {got:?}, expected {d:?}")) } }
        if let Some(f) = fail { what += &format!(": {f}\ntable {ty}, before: {:?}", &done[done.len().saturating_sub(8)..]); return Err(bad(what, &wat)) }
        done.push(what);
    }
    o.add("table_operations", n as u64);
    for w in &done { o.note("operations", &format!("table {}", w.split(|c: char| c == '(' || c.is_ascii_digit()).next().unwrap_or(""))) }
    o.case(seed, || format!("seed {seed}: table {ty}: {:?}", &done[..done.len().min(6)]));
    Ok(())
}
pub fn val(r: &mut Rng, t: WasmType) -> WasmValue {
    match t {
        WasmType::I32 => i(r.i32v()), WasmType::I64 => l(r.i64v()), WasmType::F32 => WasmValue::F32(f32::from_bits(if r.chance(1, 6) { 0x7f80_0000 | r.u32() & 0x807f_ffff } else { r.f32bits() })), WasmType::F64 => WasmValue::F64(f64::from_bits(if r.chance(1, 6) { 0x7ff0_0000_0000_0000 | r.u64() & 0x800f_ffff_ffff_ffff } else { r.f64bits() })),
        WasmType::V128 => WasmValue::V128(r.u128().to_le_bytes()), WasmType::RefExtern => WasmValue::RefExtern(ExternRef::new(if r.chance(1, 3) { None } else { Some(addr(r)) })), WasmType::RefFunc => WasmValue::RefFunc(FuncRef::null()),
    }
}
fn addr(r: &mut Rng) -> u32 { match r.below(6) { 0 => *r.pick(&[0, 1, 0x7fff_ffff, 0x8000_0000, u32::MAX - 1]), 1 => r.below(300) as u32, _ => r.u32().min(u32::MAX - 1) } }
pub const TYPES: [WasmType; 7] = [WasmType::I32, WasmType::I64, WasmType::F32, WasmType::F64, WasmType::V128, WasmType::RefExtern, WasmType::RefFunc];
pub fn name(t: WasmType) -> &'static str { match t { WasmType::I32 => "i32", WasmType::I64 => "i64", WasmType::F32 => "f32", WasmType::F64 => "f64", WasmType::V128 => "v128", WasmType::RefExtern => "externref", WasmType::RefFunc => "funcref" } }
fn eq(a: &WasmValue, b: &WasmValue) -> bool { bits(a) == bits(b) }
fn eqs(a: &[WasmValue], b: &[WasmValue]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(a, b)| eq(a, b)) }

fn global_model(r: &mut Rng, seed: u64, o: &mut Obs) -> R {
    let tys: Vec<(WasmType, bool)> = (0..r.range(1, 8)).map(|_| (*r.pick(&TYPES), r.chance(2, 3))).collect();
    let mut s = Store::default(); let mut im = Imports::new(); let mut gs = vec![]; let mut d = vec![];
    let mut wat = String::from("(module\n");
    for (k, (t, m)) in tys.iter().enumerate() {
        let v = val(r, *t);
        let wrong = val(r, *TYPES.iter().find(|x| *x != t).unwrap());
        if Global::new(&mut s, GlobalType::new(*t, *m), wrong).is_ok() { return Err(bad(format!("Global::new of type {t:?} accepted {wrong:?}"), "")) }
        let g = Global::new(&mut s, GlobalType::new(*t, *m), v).map_err(|e| bad(format!("Global::new: {e:?}"), ""))?;
        im.define("h", &format!("g{k}"), g); gs.push(g); d.push(v);
        wat += &format!("(import \"h\" \"g{k}\" (global $g{k} {}))\n", if *m { format!("(mut {})", name(*t)) } else { name(*t).into() });
    }
    for (k, (t, m)) in tys.iter().enumerate() { wat += &format!("(export \"e{k}\" (global $g{k})) (func (export \"get{k}\") (result {}) (global.get $g{k}))\n", name(*t)); if *m { wat += &format!("(func (export \"set{k}\") (param {}) (global.set $g{k} (local.get 0)))\n", name(*t)) } }
    wat += ")";
    let m = module(&wat, r.chance(1, 2));
    let inst = ModuleInstance::instantiate(&mut s, &m, Some(im)).map_err(|e| bad(format!("{e:?}"), &wat))?;
    let n = r.range(10, 50);
    for _ in 0..n {
        let k = r.below(tys.len()); let (t, mutable) = tys[k]; let v = val(r, t); let en = format!("e{k}");
        let what; let mut fail: Option<String> = None;
        macro_rules! want { ($c:expr, $($t:tt)*) => { if !($c) && fail.is_none() { fail = Some(format!($($t)*)) } } }
        match r.below(8) {
            0 => { what = format!("get {k}"); let e = gs[k].get(&s); want!(matches!(&e, Ok(x) if eq(x, &d[k])), "got {e:?}, expected {:?}", d[k]) }
            1 => { what = format!("global_get {en}"); let e = inst.global_get(&s, &en); want!(matches!(&e, Ok(x) if eq(x, &d[k])), "got {e:?}, expected {:?}", d[k]) }
            2 => { what = format!("set {k} {v:?}"); let e = gs[k].set(&mut s, v); want!(e.is_ok() == mutable, "mutable {mutable}: {e:?}"); if mutable { d[k] = v } }
            3 => { what = format!("global_set {en} {v:?}"); let e = inst.global_set(&mut s, &en, v); want!(e.is_ok() == mutable, "mutable {mutable}: {e:?}"); if mutable { d[k] = v } }
            4 => { let wt = *TYPES.iter().filter(|x| **x != t).nth(r.below(6)).unwrap(); let w = val(r, wt); what = format!("set {k} of type {t:?} to {w:?}"); let e = if r.chance(1, 2) { gs[k].set(&mut s, w) } else { inst.global_set(&mut s, &en, w) }; want!(e.is_err(), "accepted") }
            5 => { what = format!("type of {k}"); want!(gs[k].ty(&s).ok() == Some(GlobalType::new(t, mutable)), "{:?}", gs[k].ty(&s)) }
            6 => { what = format!("guest get {k}"); let e = inst.func_untyped(&s, &format!("get{k}")).unwrap().call(&mut s, &[]); want!(matches!(&e, Ok(x) if eqs(x, &[d[k]])), "got {e:?}, expected {:?}", d[k]) }
            _ => { what = format!("guest set {k} {v:?}"); if mutable { let e = inst.func_untyped(&s, &format!("set{k}")).unwrap().call(&mut s, &[v]); want!(e.is_ok(), "{e:?}"); d[k] = v } }
        }
        for (j, g) in gs.iter().enumerate() { let e = g.get(&s); want!(matches!(&e, Ok(x) if eq(x, &d[j])), "global {j} is {e:?}, expected {:?}", d[j]) }
        if let Some(f) = fail { return Err(bad(format!("{what}: {f}"), &wat)) }
    }
    o.add("global_operations", n as u64); o.case(seed, || format!("seed {seed}: globals {tys:?}"));
    Ok(())
}

// ------------------------------------------------------------------------------------------------ typing, arity, stores
/// Rust values of one shape, made and taken apart without the conversions under test.
trait Shape: Sized { fn make(r: &mut Rng) -> (Self, Vec<(Ty, V)>); fn flat(self) -> Vec<(Ty, V)>; fn types() -> Vec<Ty>; }
macro_rules! shape1 { ($($t:ty => $ty:ident, |$r:ident| $mk:expr, |$v:ident| $fl:expr);+ $(;)?) => { $(impl Shape for $t { fn make($r: &mut Rng) -> (Self, Vec<(Ty, V)>) { let $v: $t = $mk; let b = $fl; ($v, vec![(Ty::$ty, b)]) } fn flat(self) -> Vec<(Ty, V)> { let $v = self; vec![(Ty::$ty, $fl)] } fn types() -> Vec<Ty> { vec![Ty::$ty] } })+ } }
shape1! {
    i32 => I32, |r| r.i32v(), |v| v as u32 as V;
    i64 => I64, |r| r.i64v(), |v| v as u64 as V;
    f32 => F32, |r| f32::from_bits(r.f32bits()), |v| v.to_bits() as V;
    f64 => F64, |r| f64::from_bits(r.f64bits()), |v| v.to_bits() as V;
    ExternRef => Extern, |r| ExternRef::new(if r.chance(1, 3) { None } else { Some(addr(r)) }), |v| v.addr().map(|a| a as V).unwrap_or(NULL);
    FuncRef => Func, |_r| FuncRef::null(), |v| v.addr().map(|a| a as V).unwrap_or(NULL);
}
macro_rules! shapen { ($($($T:ident)+;)+) => { $(#[allow(non_snake_case)] impl<$($T: Shape),+> Shape for ($($T,)+) { fn make(r: &mut Rng) -> (Self, Vec<(Ty, V)>) { let mut b = vec![]; $(let (x, y) = $T::make(r); let $T = x; b.extend(y);)+ (($($T,)+), b) } fn flat(self) -> Vec<(Ty, V)> { let ($($T,)+) = self; let mut b = vec![]; $(b.extend($T.flat());)+ b } fn types() -> Vec<Ty> { let mut b = vec![]; $(b.extend($T::types());)+ b } })+ } }
shapen! { A; A B; A B C; A B C D; A B C D E; A B C D E F; A B C D E F G; A B C D E F G H; A B C D E F G H I; A B C D E F G H I J; A B C D E F G H I J K; A B C D E F G H I J K L; }
impl Shape for () { fn make(_: &mut Rng) -> ((), Vec<(Ty, V)>) { ((), vec![]) } fn flat(self) -> Vec<(Ty, V)> { vec![] } fn types() -> Vec<Ty> { vec![] } }
impl<A: Shape, B: Shape> Shape for WasmTupleChain<A, B> { fn make(r: &mut Rng) -> (Self, Vec<(Ty, V)>) { let (a, mut x) = A::make(r); let (b, y) = B::make(r); x.extend(y); (WasmTupleChain::new(a, b), x) } fn flat(self) -> Vec<(Ty, V)> { let (a, b) = self.into_inner(); let mut x = a.flat(); x.extend(b.flat()); x } fn types() -> Vec<Ty> { let mut x = A::types(); x.extend(B::types()); x } }

fn nm(t: Ty) -> &'static str { match t { Ty::I32 => "i32", Ty::I64 => "i64", Ty::F32 => "f32", Ty::F64 => "f64", Ty::V128 => "v128", Ty::Extern => "externref", Ty::Func => "funcref" } }
/// Looks every export up as P -> R, calls it where the types agree, and checks a host function of that shape.
/// The traits that say what can be passed are not exported, so one function is made for each pair.
macro_rules! shape_fn { ($name:ident, $p:ty, $q:ty) => {
fn $name(r: &mut Rng, s: &mut Store, inst: &ModuleInstance, sigs: &[(String, Vec<Ty>, Vec<Ty>)], o: &mut Obs, wat: &str) -> R {
    type P = $p; type Q = $q;

    let (pt, qt) = (P::types(), Q::types());
    for (n, p, q) in sigs {
        let f = inst.func::<P, Q>(s, n);
        let fits = *p == pt && *q == qt;
        o.inc("typed_lookups");
        if f.is_ok() != fits { return Err(bad(format!("func::<{pt:?}, {qt:?}> of a function {p:?} -> {q:?}: {}", if fits { "refused" } else { "accepted" }), wat)) }
    }
    // a host function of this shape, called through a guest that passes everything on
    let got: Rc<RefCell<Vec<Vec<(Ty, V)>>>> = Rc::default(); let give: Rc<RefCell<Option<Vec<(Ty, V)>>>> = Rc::default();
    let (g2, v2) = (got.clone(), give.clone()); let sd = r.u64();
    let h = HostFunction::from(s, move |_c: FuncContext<'_>, p: P| -> tinywasm::Result<Q> { g2.borrow_mut().push(p.flat()); let (q, b) = Q::make(&mut Rng::new(sd)); *v2.borrow_mut() = Some(b); Ok(q) });
    let w = format!("(module (import \"h\" \"f\" (func $h (param {}) (result {}))) (func (export \"f\") (param {}) (result {}) {} call $h) (export \"h\" (func $h)))", pt.iter().map(|t| nm(*t)).collect::<Vec<_>>().join(" "), qt.iter().map(|t| nm(*t)).collect::<Vec<_>>().join(" "), pt.iter().map(|t| nm(*t)).collect::<Vec<_>>().join(" "), qt.iter().map(|t| nm(*t)).collect::<Vec<_>>().join(" "), (0..pt.len()).map(|k| format!("(local.get {k})")).collect::<String>());
    let m = module(&w, true); let mut im = Imports::new(); im.define("h", "f", h.clone());
    let i2 = ModuleInstance::instantiate(s, &m, Some(im)).map_err(|e| bad(format!("a typed host function does not have the type of its shape: {e:?}"), &w))?;
    for n in ["f", "h"] {
        let f = i2.func::<P, Q>(s, n).map_err(|e| bad(format!("looking up {n}: {e:?}"), &w))?;
        let (p, pb) = P::make(r);
        let q = if r.chance(1, 3) { let mut x = f.call_resumable(s, p).map_err(|e| bad(format!("{e:?}"), &w))?; loop { match x.resume_with_fuel(1).map_err(|e| bad(format!("resumed typed call: {e:?}"), &w))? { tinywasm::ExecProgress::Completed(q) => break q, tinywasm::ExecProgress::Suspended => {} } } } else { f.call(s, p).map_err(|e| bad(format!("typed call: {e:?}"), &w))? };
        let q = q.flat();
        let seen = got.borrow_mut().pop();
        if seen.as_ref() != Some(&pb) { return Err(bad(format!("the host function was given {seen:x?}, the caller passed {pb:x?}"), &w)) }
        if Some(&q) != give.borrow().as_ref() { return Err(bad(format!("the caller got {q:x?}, the host function returned {:x?}", give.borrow()), &w)) }
        o.inc("typed_round_trips"); o.note("shapes", &format!("{pt:?} -> {qt:?}"));
    }
    // the same function, called from within a host function
    let f = i2.func::<P, Q>(s, "f").map_err(|e| bad(format!("{e:?}"), &w))?;
    let (p, pb) = P::make(r); let p = RefCell::new(Some(p)); let out: Rc<RefCell<Option<Vec<(Ty, V)>>>> = Rc::default(); let out2 = out.clone();
    let again = HostFunction::from_untyped(s, &FuncType::new(&[], &[]), move |mut c: FuncContext<'_>, _| { let p = p.borrow_mut().take().unwrap(); let q: Q = c.call(&f, p)?; *out2.borrow_mut() = Some(q.flat()); Ok(vec![]) });
    let m = module("(module (import \"h\" \"f\" (func $h)) (func (export \"go\") call $h))", true); let mut im = Imports::new(); im.define("h", "f", again);
    let i3 = ModuleInstance::instantiate(s, &m, Some(im)).map_err(|e| bad(format!("{e:?}"), &w))?;
    i3.func_untyped(s, "go").unwrap().call(s, &[]).map_err(|e| bad(format!("typed call from a host function: {e:?}"), &w))?;
    if got.borrow_mut().pop().as_ref() != Some(&pb) || *out.borrow() != *give.borrow() { return Err(bad(format!("a typed call from within a host function did not pass its values on: passed {pb:x?}, got {:x?}", out.borrow()), &w)) }
    Ok(())
}
} }

type E = ExternRef; type F = FuncRef;
macro_rules! shapes { ($($k:literal => $p:ty, $q:ty;)+) => { fn any_shape(r: &mut Rng, s: &mut Store, inst: &ModuleInstance, sigs: &[(String, Vec<Ty>, Vec<Ty>)], o: &mut Obs, wat: &str) -> R {
    match r.below(26) { $($k => { shape_fn!(go, $p, $q); go(r, s, inst, sigs, o, wat) })+ _ => Ok(()) } } } }
shapes! {
        0 => (), (); 1 => i32, i32; 2 => i64, i64; 3 => f32, f32; 4 => f64, f64; 5 => E, E; 6 => F, F; 7 => (i32,), (i32,); 8 => (i32, i64), (i64, i32); 9 => (f32, f64), (f64, f32); 10 => (i32, i32), i32; 11 => (), (i32, f32, E);
        12 => (i64, f64, i32, f32, E, F), (F, E, f32, i32, f64, i64); 13 => (i32, i32, i32), (i32, i32); 14 => (f64, f64, f64, f64), (f32, i64); 15 => (i64, i64, i32, i32, i64), (i32, i64, i32); 16 => (i32, i64, f32, f64, i32, i64, f32), (i64,); 17 => (i32, i64, f32, f64, i32, i64, f32, f64), i64;
        18 => (i32, i64, f32, f64, i32, i64, f32, f64, E), (); 19 => (E, i32, E, i64, F, f32, F, f64, E, i32), (i32, i64, f32, f64, i32, i64, f32, f64, E, F); 20 => (i32, i64, f32, f64, i32, i64, f32, f64, E, F, i32), f64; 21 => (f64, f32, i64, i32, f64, f32, i64, i32, f64, f32, i64, i32), (i32, i64, f32, f64, i32, i64, f32, f64, i32, i64, f32, f64);
        22 => WasmTupleChain<(i32, i64), (f32, f64)>, (i32, i64, f32, f64); 23 => (i32, f64), WasmTupleChain<(f64, i32, E), i64>; 24 => WasmTupleChain<(i32, i64, f32, f64, i32, i64, f32, f64), (f64, f32, i64, i32, f64, f32, i64, i32)>, WasmTupleChain<(), (i32, i64)>; 25 => WasmTupleChain<WasmTupleChain<i32, (i64, f32)>, WasmTupleChain<f64, i32>>, WasmTupleChain<(i32, i64), WasmTupleChain<(f32,), f64>>;
}

struct World { store: Store, inst: ModuleInstance, mem: Memory, tab: Table, glob: Global, im: Imports, hostfn: Function, calls: Rc<Cell<u64>> }
impl World {
    fn snap(&self) -> String {
        let s = &self.store; let g: Vec<String> = ["g0", "g1", "g2", "k"].iter().map(|n| format!("{:?}", self.inst.global_get(s, n).map(|v| bits(&v)))).collect();
        let mem = |m: &Memory| m.len(s).and_then(|n| m.read_vec(s, 0, n)).map(|v| (v.len(), crate::hash_bytes(&v)));
        let m2 = self.inst.memory("m").unwrap(); let t2 = self.inst.table("t").unwrap();
        let tab = |t: &Table| t.size(s).and_then(|n| t.load(s, 0, n)).map(|v| v.map(|x| bits(&x)).collect::<Vec<_>>());
        let mut n = 0; while s.get_module_instance(n).is_some() { n += 1 }
        format!("{g:?} {:?} {:?} {:?} {:?} {:?} instances {n} calls {}", mem(&self.mem), mem(&m2), tab(&self.tab), tab(&t2), self.glob.get(s).map(|v| bits(&v)), self.calls.get())
    }
}
fn world(r: &mut Rng, wat: &str, m: &tinywasm::Module) -> Result<World, Bad> {
    let mut s = Store::default(); let err = |e: Error| bad(format!("setting up: {e:?}"), wat);
    // the two stores have different numbers of objects of every kind, mostly
    for _ in 0..r.below(3) { Memory::new(&mut s, MemoryType::default().with_page_count_initial(0)).map_err(err)?; Table::new(&mut s, TableType::new(WasmType::RefExtern, 1, None), WasmValue::default_for(WasmType::RefExtern)).map_err(err)?; Global::new(&mut s, GlobalType::new(WasmType::I32, true), i(5)).map_err(err)?; }
    let mem = Memory::new(&mut s, MemoryType::default().with_page_count_initial(1)).map_err(err)?; mem.copy_from_slice(&mut s, 10, b"hello\0").map_err(err)?;
    let tab = Table::new(&mut s, TableType::new(WasmType::RefExtern, 5, Some(9)), WasmValue::RefExtern(ExternRef::new(Some(3)))).map_err(err)?;
    let glob = Global::new(&mut s, GlobalType::new(WasmType::I64, true), l(77)).map_err(err)?;
    let calls = Rc::new(Cell::new(0)); let c2 = calls.clone();
    let hostfn = HostFunction::from_untyped(&mut s, &FuncType::new(&[WasmType::I32], &[WasmType::I32]), move |_c: FuncContext<'_>, a: &[WasmValue]| { c2.set(c2.get() + 1); Ok(vec![a[0]]) });
    let mut im = Imports::new(); im.define("h", "f", hostfn.clone()); im.define("h", "m", mem); im.define("h", "t", tab); im.define("h", "g", glob);
    let inst = ModuleInstance::instantiate(&mut s, m, Some(im.clone())).map_err(err)?;
    Ok(World { store: s, inst, mem, tab, glob, im, hostfn, calls })
}

pub fn api(seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed); let r = &mut r;
    // exported functions: echo of some values, with an effect that shows if they ran
    let mut sigs: Vec<(String, Vec<WasmType>, Vec<usize>)> = vec![];
    for k in 0..r.range(1, 5) {
        let p: Vec<WasmType> = if r.chance(1, 3) { let t = *r.pick(&TYPES); vec![t; r.range(1, 4)] } else { (0..*r.pick(&[0, 1, 2, 3, 5, 9, 14])).map(|_| *r.pick(&TYPES)).collect() };
        let q: Vec<usize> = if p.is_empty() { vec![] } else if r.chance(1, 2) { (0..p.len()).collect() } else { (0..r.below(8)).map(|_| r.below(p.len())).collect() };
        sigs.push((format!("f{k}"), p, q));
    }
    let mut wat = String::from("(module (import \"h\" \"f\" (func $h (param i32) (result i32))) (import \"h\" \"m\" (memory $hm 1)) (import \"h\" \"t\" (table $ht 5 externref)) (import \"h\" \"g\" (global $hg (mut i64)))
      (memory $m (export \"m\") 1) (table $t (export \"t\") 3 funcref) (global $g0 (export \"g0\") (mut i32) (i32.const 0)) (global (export \"g1\") (mut f32) (f32.const 1.5)) (global (export \"g2\") (mut externref) (ref.null extern)) (global (export \"k\") i64 (i64.const 9)) (data (memory $m) (i32.const 0) \"abc\") (elem (table $t) (i32.const 0) func $h)
      (func (export \"pass\") (param i32) (result i32) (call $h (local.get 0))) (func $ef (export \"\\u{e9}\\n\"))\n".to_string());
    for (n, p, q) in &sigs { wat += &format!("(func (export \"{n}\") (param {}) (result {}) (global.set $g0 (i32.add (global.get $g0) (i32.const 1))) {})\n", p.iter().map(|t| name(*t)).collect::<Vec<_>>().join(" "), q.iter().map(|k| name(p[*k])).collect::<Vec<_>>().join(" "), q.iter().map(|k| format!("(local.get {k})")).collect::<String>()) }
    if r.chance(1, 3) { wat += "(func $start (global.set $g0 (i32.const 40))) (start $start)" }
    wat += ")";
    let m = module(&wat, r.chance(1, 2));
    let mut a = world(r, &wat, &m)?; let mut b = world(r, &wat, &m)?;
    let mut tried = 0u64;
    let (mut sa, sb) = (a.snap(), b.snap());
    macro_rules! refused { ($what:expr, $e:expr) => {{ let e = $e; tried += 1; o.inc("mismatches_tried"); let w: String = $what.to_string(); o.note("mismatches", &w.chars().filter(|c| !c.is_ascii_digit()).take(60).collect::<String>()); if e.is_ok() { return Err(bad(format!("{w}: accepted"), &wat)) } let (na, nb) = (a.snap(), b.snap()); if na != sa || nb != sb { return Err(bad(format!("{w}: refused, but something changed\nbefore {sa}\n   now {na}\nbefore {sb}\n   now {nb}"), &wat)) } }} }
    // arguments
    for (n, p, q) in &sigs {
        let args: Vec<WasmValue> = p.iter().map(|t| val(r, *t)).collect();
        let f = a.inst.func_untyped(&a.store, n).map_err(|e| bad(format!("{e:?}"), &wat))?;
        let ef = match a.inst.extern_item(n) { Ok(ExternItem::Func(f)) => f, x => return Err(bad(format!("extern_item({n}): {:?}", x.err()), &wat)) };
        // a correct call, first and last
        let mut wrong: Vec<Vec<WasmValue>> = vec![];
        if !p.is_empty() { wrong.push(args[..p.len() - 1].to_vec()); wrong.push(vec![]); wrong.push(args[1..].to_vec()) }
        wrong.push({ let mut x = args.clone(); x.push(val(r, *r.clone().pick(&TYPES))); x }); wrong.push({ let mut x = args.clone(); x.insert(0, i(0)); x });
        for k in 0..p.len() { let t = *TYPES.iter().filter(|t| **t != p[k]).nth(r.below(6)).unwrap(); let mut x = args.clone(); x[k] = val(r, t); wrong.push(x) }
        if p.len() > 1 { let (x, y) = (r.below(p.len()), r.below(p.len())); if p[x] != p[y] { let mut z = args.clone(); z.swap(x, y); wrong.push(z) } }
        wrong.retain(|w| w.len() != p.len() || w.iter().zip(p).any(|(v, t)| WasmType::from(v) != *t));
        for w in wrong {
            match r.below(4) {
                0 => refused!(format!("call of ({p:?}) with {} arguments ({w:?})", w.len()), f.call(&mut a.store, &w)),
                1 => refused!(format!("call_resumable of ({p:?}) with {} arguments", w.len()), f.call_resumable(&mut a.store, &w).map(|_| ())),
                2 => refused!(format!("call of an exported item ({p:?}) with {} arguments", w.len()), ef.call(&mut a.store, &w)),
                _ => { // from within a host function
                    let (f2, w2, ok) = (f.clone(), w.clone(), Rc::new(Cell::new(false))); let ok2 = ok.clone();
                    let h = HostFunction::from_untyped(&mut a.store, &FuncType::new(&[], &[]), move |mut c: FuncContext<'_>, _| { ok2.set(c.call_untyped(&f2, &w2).is_err()); Ok(vec![]) });
                    let run = h.call(&mut a.store, &[]);
                    let _ = run;
                    let m2 = module("(module (import \"h\" \"f\" (func $h)) (func (export \"go\") call $h))", true); let mut im = Imports::new(); im.define("h", "f", h);
                    let i2 = ModuleInstance::instantiate(&mut a.store, &m2, Some(im)).map_err(|e| bad(format!("{e:?}"), &wat))?; sa = a.snap(); ok.set(false);
                    let e = i2.func_untyped(&a.store, "go").unwrap().call(&mut a.store, &[]);
                    if e.is_err() { return Err(bad(format!("a host function that ignores an error: {e:?}"), &wat)) }
                    refused!(format!("call from a host function of ({p:?}) with {} arguments", w.len()), if ok.get() { Err(()) } else { Ok(()) })
                }
            }
        }
        let g0 = a.inst.global_get(&a.store, "g0").unwrap();
        let res = if r.chance(1, 2) { f.call(&mut a.store, &args) } else { ef.call(&mut a.store, &args) };
        let want: Vec<WasmValue> = q.iter().map(|k| args[*k]).collect();
        if !matches!(&res, Ok(v) if eqs(v, &want)) { return Err(bad(format!("{n}({args:?}): got {res:?}, expected {want:?}"), &wat)) }
        let WasmValue::I32(x) = g0 else { unreachable!() };
        if a.inst.global_get(&a.store, "g0").ok() != Some(i(x + 1)) { return Err(bad(format!("a call of {n} ran {g0:?} -> {:?} times", a.inst.global_get(&a.store, "g0")), &wat)) }
        o.inc("correct_calls"); sa = a.snap();
    }
    // the wrong kind, the unknown name
    for n in ["m", "t", "g0", "f0", "nothing", "", "M", "m\0", "g"] {
        let kind = match n { "m" => 0, "t" => 1, "g0" => 2, "f0" => 3, _ => 9 };
        if kind != 0 { refused!(format!("memory({n:?})"), a.inst.memory(n)) } else if a.inst.memory(n).is_err() { return Err(bad(format!("memory({n:?}) refused"), &wat)) }
        if kind != 1 { refused!(format!("table({n:?})"), a.inst.table(n)) } else if a.inst.table(n).is_err() { return Err(bad(format!("table({n:?}) refused"), &wat)) }
        if kind != 2 { refused!(format!("global({n:?})"), a.inst.global(n)); refused!(format!("global_get({n:?})"), a.inst.global_get(&a.store, n)); refused!(format!("global_set({n:?})"), a.inst.global_set(&mut a.store, n, i(1))) }
        if kind != 3 { refused!(format!("func_untyped({n:?})"), a.inst.func_untyped(&a.store, n).map(|_| ())); refused!(format!("func({n:?})"), a.inst.func::<(), ()>(&a.store, n).map(|_| ())) }
        if kind == 9 { refused!(format!("extern_item({n:?})"), a.inst.extern_item(n).map(|_| ())); if a.inst.export_addr(n).is_some() { return Err(bad(format!("export_addr({n:?})"), &wat)) } }
    }
    // globals and tables of the wrong type
    for (n, v) in [("g0", l(1)), ("g0", WasmValue::F32(1.0)), ("g1", i(1)), ("g1", WasmValue::F64(0.0)), ("g2", WasmValue::RefFunc(FuncRef::null())), ("k", l(1)), ("k", i(1))] { refused!(format!("setting {n} to {v:?}"), a.inst.global_set(&mut a.store, n, v)); let g = a.inst.global(n).unwrap(); refused!(format!("setting {n} to {v:?} by handle"), g.set(&mut a.store, v)) }
    refused!("a table with an initial value of another type", Table::new(&mut a.store, TableType::new(WasmType::RefFunc, 2, None), *r.pick(&[i(0), WasmValue::RefExtern(ExternRef::null())])));
    refused!("a global with a value of another type", Global::new(&mut a.store, GlobalType::new(WasmType::I64, true), *r.pick(&[i(0), WasmValue::F64(0.0), WasmValue::V128([0; 16])])));
    { let t = a.inst.table("t").unwrap(); refused!("storing an extern reference in a function table", t.set(&mut a.store, 0, WasmValue::RefExtern(ExternRef::null()))); refused!("storing a number in a table", a.tab.set(&mut a.store, 0, i(0))); refused!("growing by a value of another type", t.grow(&mut a.store, 1, WasmValue::RefExtern(ExternRef::new(Some(1))))); refused!("growing a table of extern references by a function", a.tab.grow(&mut a.store, 1, WasmValue::RefFunc(FuncRef::null()))) }
    // everything of `a` used with the store of `b`
    let mut buf = [0u8; 4];
    let s = &mut b.store;
    macro_rules! foreign { ($what:expr, $e:expr) => { { let e = $e.map(|_| ()); refused!(concat!("with another store: ", $what), e); let _ = e; } } }
    let _ = &s;
    foreign!("memory len", a.mem.len(&b.store)); foreign!("memory ty", a.mem.ty(&b.store)); foreign!("memory read", a.mem.read(&b.store, 0, &mut buf)); foreign!("memory write", a.mem.write(&mut b.store, 0, b"zz")); foreign!("read_exact", a.mem.read_exact(&b.store, 0, &mut buf)); foreign!("read_vec", a.mem.read_vec(&b.store, 0, 4)); foreign!("memory grow", a.mem.grow(&mut b.store, 1)); foreign!("page_count", a.mem.page_count(&b.store));
    foreign!("copy_within", a.mem.copy_within(&mut b.store, 0, 10, 5)); foreign!("fill", a.mem.fill(&mut b.store, 0, 5, 1)); foreign!("copy_from_slice", a.mem.copy_from_slice(&mut b.store, 0, b"x")); foreign!("write_cstring", a.mem.write_cstring(&mut b.store, 0, &CString::new("q").unwrap())); foreign!("write_cstring_bytes", a.mem.write_cstring_bytes(&mut b.store, 0, "q")); foreign!("read_cstring", a.mem.read_cstring(&b.store, 10, 6)); foreign!("read_cstring_until_null", a.mem.read_cstring_until_null(&b.store, 10, 6)); foreign!("read_string", a.mem.read_string(&b.store, 10, 5)); foreign!("read_js_string", a.mem.read_js_string(&b.store, 0, 2)); foreign!("cursor", a.mem.cursor(&mut b.store)); foreign!("cursor_at", a.mem.cursor_at(&mut b.store, 1));
    foreign!("table ty", a.tab.ty(&b.store)); foreign!("table size", a.tab.size(&b.store)); foreign!("table get", a.tab.get(&b.store, 0)); foreign!("table load", a.tab.load(&b.store, 0, 1)); foreign!("table set", a.tab.set(&mut b.store, 0, WasmValue::RefExtern(ExternRef::null()))); foreign!("table copy", a.tab.copy_within(&mut b.store, 0, 1, 1)); foreign!("table grow", a.tab.grow(&mut b.store, 1, WasmValue::RefExtern(ExternRef::null())));
    // doing nothing with it is no less wrong
    foreign!("an empty read", a.mem.read_vec(&b.store, 0, 0)); foreign!("an empty fill", a.mem.fill(&mut b.store, 0, 0, 1)); foreign!("an empty write", a.mem.copy_from_slice(&mut b.store, 0, b"")); foreign!("an empty copy", a.mem.copy_within(&mut b.store, 0, 0, 0)); foreign!("memory grow by nothing", a.mem.grow(&mut b.store, 0)); foreign!("memory grow by less than nothing", a.mem.grow(&mut b.store, -1)); foreign!("an empty string", a.mem.read_string(&b.store, 0, 0));
    foreign!("an empty table load", a.tab.load(&b.store, 0, 0)); foreign!("an empty table copy", a.tab.copy_within(&mut b.store, 0, 0, 0)); foreign!("table grow by nothing", a.tab.grow(&mut b.store, 0, WasmValue::RefExtern(ExternRef::null())));
    { let x = a.glob.get(&a.store).unwrap(); foreign!("global set to what it is", a.glob.set(&mut b.store, x)); let x = a.tab.get(&a.store, 0).unwrap(); foreign!("table set to what it is", a.tab.set(&mut b.store, 0, x)); }
    for n in ["\u{e9}\n".to_string()].into_iter().chain(sigs.iter().filter(|x| x.1.is_empty()).map(|x| x.0.clone())) { let n = &*n; if let Ok(f) = a.inst.func_untyped(&a.store, n) { refused!(format!("with another store: a call of {n}"), f.call(&mut b.store, &[])); refused!(format!("with another store: a resumable call of {n}"), f.call_resumable(&mut b.store, &[]).map(|_| ())); let t = a.inst.func::<(), ()>(&a.store, n); if let Ok(t) = t { refused!(format!("with another store: a typed call of {n}"), t.call(&mut b.store, ())); refused!(format!("with another store: a typed resumable call of {n}"), t.call_resumable(&mut b.store, ()).map(|_| ())); } } }
    foreign!("global ty", a.glob.ty(&b.store)); foreign!("global get", a.glob.get(&b.store)); foreign!("global set", a.glob.set(&mut b.store, l(1)));
    let gh = a.inst.global("g0").unwrap(); foreign!("exported global get", gh.get(&b.store)); foreign!("exported global set", gh.set(&mut b.store, i(1))); let mh = a.inst.memory("m").unwrap(); foreign!("exported memory", mh.fill(&mut b.store, 0, 3, 9)); let th = a.inst.table("t").unwrap(); foreign!("exported table", th.set(&mut b.store, 1, WasmValue::RefFunc(FuncRef::null())));
    foreign!("global_get", a.inst.global_get(&b.store, "g0")); foreign!("global_set", a.inst.global_set(&mut b.store, "g0", i(1)));
    foreign!("func_untyped", a.inst.func_untyped(&b.store, "pass")); foreign!("func", a.inst.func::<i32, i32>(&b.store, "pass")); foreign!("start", a.inst.start(&mut b.store)); foreign!("start_func", a.inst.start_func(&b.store));
    let pass = a.inst.func_untyped(&a.store, "pass").unwrap(); foreign!("call", pass.call(&mut b.store, &[i(1)])); foreign!("call_resumable", pass.call_resumable(&mut b.store, &[i(1)])); foreign!("call of a host function", a.hostfn.call(&mut b.store, &[i(1)])); foreign!("resumable call of a host function", a.hostfn.call_resumable(&mut b.store, &[i(1)]));
    let tp = a.inst.func::<i32, i32>(&a.store, "pass").unwrap(); foreign!("typed call", tp.call(&mut b.store, 1)); foreign!("typed resumable call", tp.call_resumable(&mut b.store, 1));
    if let Ok(ExternItem::Func(f)) = a.inst.extern_item("pass") { foreign!("call of an exported item", f.call(&mut b.store, &[i(1)])) }
    // importing an object of another store, alone or among right ones
    for k in 0..5 {
        let mut im = b.im.clone();
        match k { 0 => { im.define("h", "f", a.hostfn.clone()); } 1 => { im.define("h", "m", a.mem); } 2 => { im.define("h", "t", a.tab); } 3 => { im.define("h", "g", a.glob); } _ => { im.define("h", "f", pass.clone()); } }
        refused!(format!("importing kind {k} of another store"), ModuleInstance::instantiate(&mut b.store, &m, Some(im)).map(|_| ()));
    }
    { let m2 = module("(module (import \"a\" \"pass\" (func (param i32) (result i32))) (memory 1))", true); let mut im = Imports::new(); im.link_module("a", a.inst.clone()).map_err(|e| bad(format!("{e:?}"), &wat))?; refused!("linking an instance of another store", ModuleInstance::instantiate(&mut b.store, &m2, Some(im)).map(|_| ())); }
    { // from within a host function: what belongs to the other store
        let (f, t2, m2, ok) = (pass.clone(), a.inst.func::<i32, i32>(&a.store, "pass").unwrap(), a.mem, Rc::new(RefCell::new(vec![]))); let ok2 = ok.clone();
        let h = HostFunction::from_untyped(&mut b.store, &FuncType::new(&[], &[]), move |mut c: FuncContext<'_>, _| { *ok2.borrow_mut() = vec![c.call_untyped(&f, &[i(1)]).is_err(), c.call(&t2, 1).is_err(), m2.fill(c.store_mut(), 0, 4, 7).is_err(), m2.read_vec(c.store(), 0, 1).is_err()]; Ok(vec![]) });
        let m2 = module("(module (import \"h\" \"f\" (func $h)) (func (export \"go\") call $h))", true); let mut im = Imports::new(); im.define("h", "f", h);
        let (sa, i2) = (a.snap(), ModuleInstance::instantiate(&mut b.store, &m2, Some(im)).map_err(|e| bad(format!("{e:?}"), &wat))?); let sb = b.snap();
        i2.func_untyped(&b.store, "go").unwrap().call(&mut b.store, &[]).map_err(|e| bad(format!("{e:?}"), &wat))?;
        if ok.borrow().iter().any(|x| !x) { return Err(bad(format!("a host function could use objects of another store (call_untyped, call, memory write, memory read refused: {:?})", ok.borrow()), &wat)) }
        if a.snap() != sa || b.snap() != sb { return Err(bad("refused uses of another store's objects in a host function changed something".into(), &wat)) }
        o.inc("mismatches_tried");
    }
    // host functions that return something else than they declare
    for _ in 0..4 {
        let rt: Vec<WasmType> = (0..r.below(4)).map(|_| *r.pick(&TYPES)).collect();
        let right: Vec<WasmValue> = rt.iter().map(|t| val(r, *t)).collect();
        let mut wrong = right.clone();
        match r.below(4) { 0 => { wrong.push(val(r, *r.clone().pick(&TYPES))); } 1 if !wrong.is_empty() => { wrong.remove(r.below(wrong.len())); } 2 if !wrong.is_empty() => { let k = r.below(wrong.len()); let t = *TYPES.iter().filter(|t| **t != rt[k]).nth(r.below(6)).unwrap(); wrong[k] = val(r, t); } _ => { wrong.insert(0, i(0)); } }
        let legal = wrong.len() == rt.len() && wrong.iter().zip(&rt).all(|(v, t)| WasmType::from(v) == *t);
        if legal { continue }
        let give = Rc::new(RefCell::new(wrong.clone())); let g2 = give.clone();
        let h = HostFunction::from_untyped(&mut a.store, &FuncType::new(&[], &rt), move |_c: FuncContext<'_>, _: &[WasmValue]| Ok(g2.borrow().clone()));
        let w = format!("(module (import \"h\" \"f\" (func $h (result {0}))) (global $n (export \"n\") (mut i32) (i32.const 0)) (func (export \"go\") (result {0}) (call $h) (global.set $n (i32.const 1))) (func (export \"tail\") (result {0}) (return_call $h)) (table funcref (elem $h)) (func (export \"ind\") (result {0}) (call_indirect (result {0}) (i32.const 0)) (global.set $n (i32.const 1))) (export \"h\" (func $h)))", rt.iter().map(|t| name(*t)).collect::<Vec<_>>().join(" "));
        let m2 = module(&w, true); let mut im = Imports::new(); im.define("h", "f", h.clone());
        let i2 = ModuleInstance::instantiate(&mut a.store, &m2, Some(im)).map_err(|e| bad(format!("{e:?}"), &w))?;
        for n in ["go", "tail", "ind", "h"] {
            *give.borrow_mut() = wrong.clone();
            let f = i2.func_untyped(&a.store, n).unwrap();
            let e = f.call(&mut a.store, &[]);
            let reported = match &e { Err(Error::InvalidHostFnReturn { .. }) => true, Err(Error::Trap(Trap::HostFunction(x))) => matches!(x.downcast_ref::<Error>(), Some(Error::InvalidHostFnReturn { .. })), _ => false };
            if !reported { return Err(bad(format!("a host function of type () -> {rt:?} returned {wrong:?} to {n}: {e:?}"), &w)) }
            if i2.global_get(&a.store, "n").ok() != Some(i(0)) { return Err(bad(format!("the guest went on after its host function returned {wrong:?} for {rt:?}"), &w)) }
            *give.borrow_mut() = right.clone();
            let e = f.call(&mut a.store, &[]);
            if !matches!(&e, Ok(v) if eqs(v, &right)) { return Err(bad(format!("{n}: got {e:?}, the host function returned {right:?}"), &w)) }
            i2.global_set(&mut a.store, "n", i(0)).ok();
            o.inc("host_results_checked");
        }
        let _ = a.snap();
    }
    // every object of `a` still works with its own store
    if a.mem.read_vec(&a.store, 10, 5).ok().as_deref() != Some(b"hello") || b.mem.read_cstring_until_null(&b.store, 10, 20).ok() != CString::new("hello").ok() { return Err(bad("the right store's memory is refused or changed".into(), &wat)) }
    if !matches!(pass.call(&mut a.store, &[i(5)]), Ok(v) if v == [i(5)]) || !matches!(tp.call(&mut a.store, 6), Ok(6)) { return Err(bad("a function no longer works with its own store".into(), &wat)) }
    // typed shapes
    let tsigs: Vec<(String, Vec<Ty>, Vec<Ty>)> = sigs.iter().map(|(n, p, q)| (n.clone(), p.iter().map(|t| rty_of(*t)).collect(), q.iter().map(|k| rty_of(p[*k])).collect())).chain([("pass".to_string(), vec![Ty::I32], vec![Ty::I32])]).collect();
    for _ in 0..3 { any_shape(r, &mut a.store, &a.inst, &tsigs, o, &wat)? }
    o.case(seed, || format!("seed {seed}: {} mismatches refused over signatures {:?}", tried, sigs.iter().map(|s| (&s.1, &s.2)).collect::<Vec<_>>()));
    Ok(())
}
