//! Memories of many gigabytes, of which little is used: every address that counts lies beyond what a small integer holds.
use crate::m_exec::{bad, module};
use crate::mon::{Obs, R};
use crate::rng::Rng;
use crate::target::{Back, Cfg, MemLog};
use std::collections::HashMap;
use std::rc::Rc;
use tinywasm::types::WasmValue;
use tinywasm::{Error, Imports, Memory, ModuleInstance, Store, Trap};

const P: u64 = 4096;
struct Sparse { len: u64, max: u64, wide: bool, pages: HashMap<u64, Vec<u8>> }
impl Sparse {
    fn get(&self, a: u64) -> u8 { self.pages.get(&(a / P)).map_or(0, |p| p[(a % P) as usize]) }
    fn set(&mut self, a: u64, v: u8) { if v == 0 && !self.pages.contains_key(&(a / P)) { return } self.pages.entry(a / P).or_insert_with(|| vec![0; P as usize])[(a % P) as usize] = v }
    fn fits(&self, a: u64, n: u64) -> bool { a as u128 + n as u128 <= self.len as u128 }
    fn read(&self, a: u64, n: u64) -> Vec<u8> { (0..n).map(|i| self.get(a + i)).collect() }
    fn write(&mut self, a: u64, b: &[u8]) { for (i, v) in b.iter().enumerate() { self.set(a + i as u64, *v) } }
    fn hard(&self) -> u64 { self.max }
}
fn place(r: &mut Rng, m: &Sparse, seen: &[u64]) -> u64 {
    let x = match r.below(12) {
        0 => 0, 1 | 2 => m.len, 3 => 1 << 32, 4 => (r.below((m.len >> 32) as usize + 1) as u64) << 32, 5 => 1 << 31, 6 => r.u64() % (m.len + 1), 7 => (r.u64() % (m.len + 1)) & !0xffff,
        8 => if m.wide { *r.pick(&[1 << 40, 1 << 63, u64::MAX]) } else { 0xffff_ffff },
        _ => { if seen.is_empty() { 1 << 16 } else { let s = *r.pick(seen); match r.below(4) { 0 => s ^ 1 << 32, 1 => s & 0xffff_ffff, _ => s } } }
    };
    let x = match r.below(6) { 0 | 1 => x, 2 | 3 => x.wrapping_sub(r.below(20) as u64), 4 => x.wrapping_add(r.below(9) as u64), _ => x.wrapping_sub(r.below(70_000) as u64) };
    if m.wide { x } else { x & 0xffff_ffff }
}
const LD: [(&str, &str, u64, bool); 8] = [("i32.load", "i32", 4, false), ("i32.load8_u", "i32", 1, false), ("i32.load16_s", "i32", 2, true), ("i64.load", "i64", 8, false), ("i64.load32_s", "i64", 4, true), ("i64.load8_s", "i64", 1, true), ("v128.load", "v128", 16, false), ("v128.load64_zero", "v128", 8, false)];
const ST: [(&str, &str, u64); 6] = [("i32.store", "i32", 4), ("i32.store8", "i32", 1), ("i64.store", "i64", 8), ("i64.store16", "i64", 2), ("i64.store32", "i64", 4), ("v128.store", "v128", 16)];
fn num(v: &WasmValue) -> u128 { match v { WasmValue::I32(x) => *x as u32 as u128, WasmValue::I64(x) => *x as u64 as u128, WasmValue::V128(b) => u128::from_le_bytes(*b), _ => 0 } }
fn val(t: &str, x: u128) -> WasmValue { match t { "i32" => WasmValue::I32(x as u32 as i32), "i64" => WasmValue::I64(x as u64 as i64), _ => WasmValue::V128(x.to_le_bytes()) } }

#[derive(Clone)]
enum F { Load(usize, usize, u64), Store(usize, usize, u64), Rmw(usize, u64), Fill(usize), Copy(usize, usize), Init(usize), Size(usize), Grow(usize) }

pub fn vast(seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed);
    let chunk = 1usize << r.range(12, 21);
    let back = match r.below(4) { 0 => Back::LazyPaged(chunk), _ => Back::Paged(chunk) };
    let cfg = Cfg { back: back.clone(), opt: r.chance(3, 4), oom: r.chance(1, 3), ..Cfg::default() };
    let mut s = Store::new(cfg.engine(&Rc::new(MemLog::default())));
    // ---- the memories
    let (mut ms, mut t, mut im, mut hosts) = (vec![], String::from("(module\n"), Imports::new(), vec![]);
    let mut defs = String::new();
    for k in 0..r.range(1, 2) {
        let wide = r.chance(2, 3);
        let most = if wide { 1u64 << 18 } else { 65536 };
        let min = match r.below(5) { 0 => r.below(3) as u64, 1 => most, 2 => 65536, 3 => most - r.below(5) as u64, _ => r.below(most as usize + 1) as u64 };
        let max = match r.below(4) { 0 => min, 1 => most, _ => (min + r.below(70_000) as u64).min(most) };
        let ty = format!("{} {min} {max}", if wide { "i64" } else { "" });
        if r.chance(1, 3) && defs.is_empty() {
            t += &format!("(import \"h\" \"m{k}\" (memory $m{k} {ty}))\n");
            let mt = tinywasm::types::MemoryType::new(if wide { tinywasm::types::MemoryArch::I64 } else { tinywasm::types::MemoryArch::I32 }, min, Some(max), None);
            let h = Memory::new(&mut s, mt).map_err(|e| bad(format!("a memory of {min} pages: {e:?}"), &t))?; hosts.push(h); im.define("h", &format!("m{k}"), h);
        } else { defs += &format!("(memory $m{k} (export \"m{k}\") {ty})\n") }
        ms.push(Sparse { len: min * 65536, max, wide, pages: HashMap::new() });
    }
    t += &defs;
    t += "(data $d \"the quick brown fox jumps over the lazy dog\")\n";
    const D: &[u8] = b"the quick brown fox jumps over the lazy dog";
    // data that is there from the start
    for (k, m) in ms.iter_mut().enumerate() { if r.chance(1, 2) && m.len > 100 { let a = match r.below(3) { 0 => m.len - 9, 1 => (1 << 32) - 4, _ => r.u64() % (m.len - 9) }; if m.fits(a, 9) && (m.wide || a < 1 << 32) { t += &format!("(data (memory $m{k}) ({}.const {}) \"somewhere\")\n", if m.wide { "i64" } else { "i32" }, a); m.write(a, b"somewhere") } } }
    // ---- what is done to them
    let (mut fs, mut names): (Vec<(F, Option<u64>)>, Vec<String>) = (vec![], vec![]);
    let at = |m: &Sparse| if m.wide { "i64" } else { "i32" };
    let mut seen: Vec<u64> = vec![];
    for k in 0..r.range(8, 20) {
        let m = r.below(ms.len()); let a = at(&ms[m]);
        let offset = if r.chance(1, 2) { 0 } else if ms[m].wide { *r.pick(&[5u64, 65536, (1 << 32) - 8, 1 << 32, (1 << 32) + 12, 3 << 32, 1 << 33, 1 << 63, u64::MAX]) } else { *r.pick(&[5u64, 65536, 0x7fff_ffff, 0x8000_0000, 0xffff_fff0, 0xffff_ffff]) };
        let of = if offset > 0 { format!(" offset={offset}") } else { String::new() };
        let fixed = if r.chance(1, 4) { Some(place(&mut r, &ms[m], &seen)) } else { None };
        if let Some(x) = fixed { seen.push(x) }
        let w = match fixed { Some(x) => format!("({a}.const {x})"), None => match r.below(4) { 0 => format!("({a}.add (local.get 0) ({a}.const 0))"), 1 => "(local.tee 0 (local.get 0))".into(), _ => "(local.get 0)".into() } };
        let (f, sig, body) = match r.below(12) {
            0..=3 => { let i = r.below(LD.len()); let l = LD[i]; (F::Load(m, i, offset), format!("(param {a}) (result {})", l.1), format!("({} $m{m}{of} {w})", l.0)) }
            4..=6 => { let i = r.below(ST.len()); let l = ST[i]; (F::Store(m, i, offset), format!("(param {a} {})", l.1), format!("({} $m{m}{of} {w} (local.get 1))", l.0)) }
            7 => (F::Rmw(m, offset), format!("(param {a})"), format!("(i64.store $m{m}{of} {w} (i64.add (i64.load $m{m}{of} {w}) (i64.const 258)))")),
            8 => (F::Fill(m), format!("(param {a} i32 {a})"), format!("(memory.fill $m{m} {w} (local.get 1) (local.get 2))")),
            9 => { let n = r.below(ms.len()); let l = if ms[m].wide && ms[n].wide { "i64" } else { "i32" }; (F::Copy(m, n), format!("(param {a} {} {l})", at(&ms[n])), format!("(memory.copy $m{m} $m{n} {w} (local.get 1) (local.get 2))")) }
            10 => (F::Init(m), format!("(param {a} i32 i32)"), format!("(memory.init $m{m} $d {w} (local.get 1) (local.get 2))")),
            _ => if r.chance(1, 2) { (F::Size(m), format!("(result {a})"), format!("(memory.size $m{m})")) } else { (F::Grow(m), format!("(param {a}) (result {a})"), format!("(memory.grow $m{m} (local.get 0))")) },
        };
        // loads and stores in a place of their own, or a local takes the value
        let body = match (&f, r.below(4)) { (F::Load(_, i, _), 0) => { let ty = LD[*i].1; format!("(local {ty}) (local.set 1 {body}) (local.get 1)") } _ => body };
        t += &format!("(func (export \"f{k}\") {sig} {body})\n"); fs.push((f, fixed)); names.push(format!("f{k}"));
    }
    t += ")";
    let m = module(&t, cfg.opt);
    let inst = ModuleInstance::instantiate(&mut s, &m, Some(im)).map_err(|e| bad(format!("instantiation: {e:?}"), &t))?;
    let mut handles = hosts; for k in handles.len()..ms.len() { handles.push(inst.memory(&format!("m{k}")).map_err(|e| bad(format!("{e:?}"), &t))?) }
    o.case(crate::hash_bytes(t.as_bytes()) ^ seed, || format!("seed {seed}: {t}"));
    let mut done: Vec<String> = vec![];
    let (mut far, mut traps) = (0u64, 0u64);
    for _ in 0..r.range(20, 60) {
        let host = r.chance(1, 4);
        let what; let mut fail: Option<String> = None;
        macro_rules! want { ($c:expr, $($t:tt)*) => { if !($c) && fail.is_none() { fail = Some(format!($($t)*)) } } }
        let oob = |e: &Error| matches!(e, Error::Trap(Trap::MemoryOutOfBounds { .. }));
        if host {
            let k = r.below(ms.len()); let a = place(&mut r, &ms[k], &seen); let n = *r.pick(&[0u64, 1, 2, 8, 100, 5000]); let h = handles[k];
            let fits = ms[k].fits(a, n); if fits { seen.push(a); if a > u32::MAX as u64 { far += 1 } }
            match r.below(6) {
                0 => { what = format!("read_vec({a:#x}, {n}) of memory {k}"); match h.read_vec(&s, a as usize, n as usize) { Ok(b) => want!(fits && b == ms[k].read(a, n), "unexpected bytes {:x?}", &b[..b.len().min(40)]), Err(e) => want!(!fits && oob(&e), "{e:?}") } }
                1 => { what = format!("copy_from_slice({a:#x}, {n}) of memory {k}"); let b: Vec<u8> = (0..n).map(|_| r.u64() as u8).collect(); match h.copy_from_slice(&mut s, a as usize, &b) { Ok(()) => want!(fits, "accepted"), Err(e) => want!(!fits && oob(&e), "{e:?}") } if fits { ms[k].write(a, &b) } }
                2 => { let v = r.u64() as u8; what = format!("fill({a:#x}, {n}, {v}) of memory {k}"); match h.fill(&mut s, a as usize, n as usize, v) { Ok(()) => want!(fits, "accepted"), Err(e) => want!(!fits && oob(&e), "{e:?}") } if fits { ms[k].write(a, &vec![v; n as usize]) } }
                3 => { let b = place(&mut r, &ms[k], &seen); let b = if r.chance(1, 3) { a.wrapping_add(r.below(90) as u64) } else { b }; let ok = fits && ms[k].fits(b, n); what = format!("copy_within({a:#x} to {b:#x}, {n}) of memory {k}"); match h.copy_within(&mut s, a as usize, b as usize, n as usize) { Ok(()) => want!(ok, "accepted"), Err(e) => want!(!ok && oob(&e), "{e:?}") } if ok { let x = ms[k].read(a, n); ms[k].write(b, &x); seen.push(b) } }
                4 => { let pages = ms[k].len / 65536; let room = ms[k].hard() - pages; let d = match r.below(4) { 0 => room + 1, 1 => room, 2 => 0, _ => r.below(room as usize + 1) as u64 }; what = format!("grow({d}) of memory {k} of {pages} pages (limit {})", ms[k].hard()); match h.grow(&mut s, d as i64) { Ok(Some(p)) => want!(d <= room && p as u64 == pages, "returned {p}"), x => want!(d > room && matches!(x, Ok(None)), "{x:?}") } if d <= room { ms[k].len += d * 65536 } }
                _ => { what = format!("size of memory {k}"); let p = h.page_count(&s).ok().map(|x| x as u64); let l = h.len(&s).ok().map(|x| x as u64); want!(p == Some(ms[k].len / 65536) && l == Some(ms[k].len), "{p:?} pages, {l:?} bytes, expected {}", ms[k].len) }
            }
        } else {
            let i = r.below(fs.len()); let (f, fixed) = fs[i].clone();
            let mem = match f { F::Load(m, ..) | F::Store(m, ..) | F::Rmw(m, _) | F::Fill(m) | F::Copy(m, _) | F::Init(m) | F::Size(m) | F::Grow(m) => m };
            let (a, wide) = (at(&ms[mem]), ms[mem].wide);
            // an address such that address plus offset is the place
            let off = match f { F::Load(_, _, o) | F::Store(_, _, o) | F::Rmw(_, o) => o, _ => 0 };
            let x = fixed.unwrap_or_else(|| { let p = place(&mut r, &ms[mem], &seen); if off <= p || r.chance(1, 4) { p.wrapping_sub(off) } else { p } }); let x = if wide { x } else { x & 0xffff_ffff };
            let ea = x as u128 + off as u128; let ea64 = ea as u64;
            let ok = |n: u64| ea + n as u128 <= ms[mem].len as u128;
            let n = *r.pick(&[0u64, 1, 2, 8, 16, 300, 4097]);
            // what it takes, and what it should give: nothing, a value, or the trap
            let mut want_v: Option<u128> = None; let mut want_trap = false; let mut write: Option<(u64, Vec<u8>)> = None;
            let args: Vec<WasmValue> = match f {
                F::Load(_, l, _) => { let (_, ty, n, signed) = LD[l]; if ok(n) { let mut b = ms[mem].read(ea64, n); let neg = signed && b[n as usize - 1] & 0x80 != 0; b.resize(16, if neg { 0xff } else { 0 }); let v = u128::from_le_bytes(b.try_into().unwrap()); want_v = Some(match ty { "i32" => v as u32 as u128, "i64" => v as u64 as u128, _ => v }) } else { want_trap = true } vec![val(a, x as u128)] }
                F::Store(_, l, _) => { let (_, ty, n) = ST[l]; let v = (r.u64() as u128) << 64 | r.u64() as u128; if ok(n) { write = Some((ea64, v.to_le_bytes()[..n as usize].to_vec())) } else { want_trap = true } vec![val(a, x as u128), val(ty, v)] }
                F::Rmw(..) => { if ok(8) { let v = u64::from_le_bytes(ms[mem].read(ea64, 8).try_into().unwrap()).wrapping_add(258); write = Some((ea64, v.to_le_bytes().to_vec())) } else { want_trap = true } vec![val(a, x as u128)] }
                F::Fill(_) => { let v = r.u64() as u8; if ok(n) { write = Some((x, vec![v; n as usize])) } else { want_trap = true } vec![val(a, x as u128), val("i32", v as u128), val(a, n as u128)] }
                F::Copy(_, from) => { let y = if from == mem && r.chance(1, 3) { x.wrapping_add(r.below(50) as u64).wrapping_sub(25) } else { place(&mut r, &ms[from], &seen) }; let y = if ms[from].wide { y } else { y & 0xffff_ffff }; if ok(n) && ms[from].fits(y, n) { write = Some((x, ms[from].read(y, n))) } else { want_trap = true }
                    vec![val(a, x as u128), val(at(&ms[from]), y as u128), val(if wide && ms[from].wide { "i64" } else { "i32" }, n as u128)] }
                F::Init(_) => { let (y, n) = (r.below(50) as u64, r.below(45) as u64); if ok(n) && y + n <= D.len() as u64 { write = Some((x, D[y as usize..(y + n) as usize].to_vec())) } else { want_trap = true } vec![val(a, x as u128), val("i32", y as u128), val("i32", n as u128)] }
                F::Size(_) => { want_v = Some((ms[mem].len / 65536) as u128); vec![] }
                F::Grow(_) => { let pages = ms[mem].len / 65536; let room = ms[mem].hard() - pages; let d = match r.below(6) { 0 => room + 1, 1 => room, 2 => 0, 3 => if wide { *r.pick(&[1u64 << 32, 1 << 48, 1 << 63, u64::MAX]) } else { *r.pick(&[65536u64, 0x8000_0000, 0xffff_ffff]) }, _ => r.below(room as usize + 1) as u64 };
                    want_v = Some(if d <= room { pages as u128 } else if wide { u64::MAX as u128 } else { u32::MAX as u128 }); if d <= room { ms[mem].len += d * 65536 } vec![val(a, d as u128)] }
            };
            what = format!("{}({args:x?})", names[i]);
            let fun = inst.func_untyped(&s, &names[i]).map_err(|e| bad(format!("{e:?}"), &t))?;
            match fun.call(&mut s, &args) {
                Ok(v) => { want!(!want_trap, "returned {v:x?}, expected a trap"); match want_v { Some(w) => want!(v.len() == 1 && num(&v[0]) == w, "returned {v:x?}, expected {w:#x}"), None => want!(v.is_empty(), "returned {v:x?}") } }
                Err(e) => { want!(want_trap && oob(&e), "{e:?}"); traps += 1 }
            }
            if let Some((p, b)) = write { if ms[mem].fits(p, b.len() as u64) { ms[mem].write(p, &b); seen.push(p); if p > u32::MAX as u64 { far += 1 } } }
        }
        done.push(what.clone());
        // places that may have been confused with each other
        for (k, m) in ms.iter().enumerate() { for x in seen.iter().rev().take(3) { for p in [*x, x & 0xffff_ffff, x & 0x7fff_ffff, x & 0xffff, x.wrapping_add(1 << 32), x & !0xffff, x ^ 1 << 31] {
            let p = p.saturating_sub(4); if !m.fits(p, 24) { continue }
            let b = handles[k].read_vec(&s, p as usize, 24).map_err(|e| bad(format!("reading at {p:#x}: {e:?}"), &t))?; o.add("bytes_compared", 24);
            want!(b == m.read(p, 24), "afterwards memory {k} has {b:x?} at {p:#x}, expected {:x?}", m.read(p, 24));
        } } }
        if let Some(f) = fail { return Err(bad(format!("operation {} of a history on memories of {:?} bytes: {what}: {f}\nbackend {back:?}\nhistory: {}", done.len(), ms.iter().map(|m| m.len).collect::<Vec<_>>(), done.join("; ")), &t)) }
    }
    for (k, m) in ms.iter().enumerate() { for (p, b) in &m.pages { let n = P.min(m.len - p * P); let got = handles[k].read_vec(&s, (p * P) as usize, n as usize).map_err(|e| bad(format!("{e:?}"), &t))?; o.add("bytes_compared", n); if got[..] != b[..n as usize] { return Err(bad(format!("at the end memory {k} differs in the page at {:#x}\nbackend {back:?}\nhistory: {}", p * P, done.join("; ")), &t)) } } }
    o.add("operations_compared", done.len() as u64); o.add("operations_out_of_bounds", traps); o.add("writes_beyond_4GiB", far);
    o.note("backends", if matches!(back, Back::Paged(_)) { "paged" } else { "lazy-paged" });
    Ok(())
}
