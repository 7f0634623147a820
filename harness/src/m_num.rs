//! Every numeric and vector instruction, on operands from every kind of place, into every kind of place, on edge operands:
//! the result against the semantics in refnum.rs, the exact class of a NaN result, the allowed results of relaxed instructions.
use crate::mon::{Bad, Obs, R};
use crate::ops::{OpRow, RELAXED, SCALAR, SIMD};
use crate::refi::{Ty, V};
use crate::rng::Rng;
#[cfg(target_arch = "wasm32")]
use crate::target::NoThreads;
use std::io::{BufRead, Write};
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::{Error, ModuleInstance, Store};
use wasm_encoder as e;
use wasm_encoder::{Encode, Instruction as I};

type O = wasmparser::Operator<'static>;
fn decode(i: &I) -> O {
    let mut b = vec![]; i.encode(&mut b); let b: &'static [u8] = Box::leak(b.into_boxed_slice());
    wasmparser::OperatorsReader::new(wasmparser::BinaryReader::new(b, 0)).read().expect("monitor: operator")
}
/// how a NaN in a lane is known: its bits, or only that it is canonical, or only that it is arithmetic
#[derive(Clone, Copy, PartialEq, Debug)]
enum N { Bits, Canon, Arith }
#[derive(Clone, Debug)]
struct Val { v: V, w: u32, n: [N; 4] } // w: width of the lanes `n` talks about
impl Val { fn exact(v: V) -> Val { Val { v, w: 0, n: [N::Bits; 4] } } fn fuzzy(&self) -> bool { self.n.iter().any(|n| *n != N::Bits) } }
#[derive(Debug, PartialEq, Clone, Copy)]
enum Stop { Trap(&'static str), Skip }
#[derive(Clone)]
struct Op { i: I<'static>, o: std::rc::Rc<O>, args: Vec<Ty>, out: Ty, name: String }
#[derive(Clone)]
enum E {
    P(Ty, usize), C(Ty, V), Glob(Ty, usize), Mem(Ty, usize, u32), Block(Box<E>), Br(Box<E>), BrIf(Ty, Box<E>, usize, Box<E>), If(Ty, usize, Box<E>, Box<E>), Sel(Ty, bool, Box<E>, Box<E>, usize), Call(Ty, Box<E>), Tee(Ty, Box<E>, u32), Acc(Ty), Op(Op, Vec<E>),
    /// vector load: kind, parameter with the address, offset, vector operand of lane loads
    VL(usize, usize, u32, u8, Option<Box<E>>),
}
#[derive(Clone, Debug)]
enum Sink { Ret, RetInstr, SetGet, TeeDrop, TeeUse, Mem(u32), Glob, If, IfEqz, BrIf, BrIfEqz, Sel, Acc(u32, V), BrTable, VStore(usize, usize, u32, u8), Local2 }
struct F { params: Vec<Ty>, body: E, out: Ty, sink: Sink, text: String }

fn canon(v: u64, w: u32) -> bool { if w == 32 { v as u32 & 0x7fff_ffff == 0x7fc0_0000 } else { v & (u64::MAX >> 1) == 0x7ff8_0000_0000_0000 } }
fn isnan(v: u64, w: u32) -> bool { if w == 32 { v as u32 & 0x7fff_ffff > 0x7f80_0000 } else { v & (u64::MAX >> 1) > 0x7ff0_0000_0000_0000 } }
fn arith(v: u64, w: u32) -> bool { isnan(v, w) && v >> (if w == 32 { 22 } else { 51 }) & 1 == 1 }
fn lane(v: V, w: u32, i: u32) -> u64 { ((v >> (w * i)) as u64) & (u64::MAX >> (64 - w)) }
/// width of the operand lanes and of the result lanes of an instruction whose NaN results are not determined, and whether it is a vector instruction
fn nan_op(name: &str) -> Option<(u32, u32, bool)> {
    let has = |l: &[&str], s: &str| l.contains(&s);
    const A: [&str; 11] = ["Add", "Sub", "Mul", "Div", "Min", "Max", "Sqrt", "Ceil", "Floor", "Trunc", "Nearest"];
    match name {
        "F32DemoteF64" => Some((64, 32, false)), "F64PromoteF32" => Some((32, 64, false)), "F32x4DemoteF64x2Zero" => Some((64, 32, true)), "F64x2PromoteLowF32x4" => Some((32, 64, true)),
        _ => { if let Some(s) = name.strip_prefix("F32x4") { if has(&A, s) { return Some((32, 32, true)) } } else if let Some(s) = name.strip_prefix("F64x2") { if has(&A, s) { return Some((64, 64, true)) } } else if let Some(s) = name.strip_prefix("F32") { if has(&A, s) { return Some((32, 32, false)) } } else if let Some(s) = name.strip_prefix("F64") { if has(&A, s) { return Some((64, 64, false)) } } None }
    }
}
fn nanclass(v: &Val, w: u32, i: u32, vec: bool) -> Option<bool> { // Some(canonical) if lane i of v is a NaN
    let x = lane(v.v, w, i); if !isnan(x, w) { return None }
    Some(match v.n[if vec { i as usize } else { 0 }] { N::Bits => canon(x, w), N::Canon => true, N::Arith => false })
}
fn apply(op: &Op, args: Vec<Val>) -> Result<Val, Stop> {
    let n = &op.name;
    if let Some((wi, wo, vec)) = nan_op(n) {
        if vec && args.iter().any(|a| a.fuzzy() && a.w != wi) { return Err(Stop::Skip) }
        let mut st: Vec<V> = args.iter().map(|a| a.v).collect(); let mut f = false;
        if !vec { crate::refnum::scalar(&op.o, &mut st, &mut f).map_err(trap)?; } else { assert!(crate::refnum::simd(&op.o, &mut st, &mut f), "monitor: {n}"); }
        let mut r = Val { v: st[0], w: wo, n: [N::Bits; 4] };
        for i in 0..if vec { 128 / wo } else { 1 } {
            if !isnan(lane(r.v, wo, i), wo) { continue }
            if i >= 128 / wi { continue }
            let all = args.iter().all(|a| nanclass(a, wi, i, vec) != Some(false));
            r.n[i as usize] = if all { N::Canon } else { N::Arith };
        }
        return Ok(r);
    }
    let fuzzy = args.iter().any(|a| a.fuzzy());
    let w = args.iter().find(|a| a.fuzzy()).map(|a| a.w).unwrap_or(0);
    // what only looks at whether it is a NaN, or only at its sign bit, or passes it on
    let (pass, insensitive) = match n.as_str() { "F32Abs" | "F32Neg" | "F64Abs" | "F64Neg" => (true, true), "F32Copysign" | "F64Copysign" => (true, !args[1].fuzzy()), _ => (false, (n.starts_with("I32Trunc") || n.starts_with("I64Trunc") || ["F32Eq", "F32Ne", "F32Lt", "F32Gt", "F32Le", "F32Ge", "F64Eq", "F64Ne", "F64Lt", "F64Gt", "F64Le", "F64Ge"].contains(&n.as_str())) && op.out != Ty::V128) };
    if fuzzy && !insensitive { return Err(Stop::Skip) }
    let mut st: Vec<V> = args.iter().map(|a| a.v).collect(); let mut f = false;
    if !crate::refnum::scalar(&op.o, &mut st, &mut f).map_err(trap)? { assert!(crate::refnum::simd(&op.o, &mut st, &mut f), "monitor: no semantics for {n}"); }
    let mut r = Val::exact(st[0]);
    if fuzzy && pass { r.w = w; r.n[0] = args[0].n[0] }
    Ok(r)
}
fn trap(t: crate::refi::Trap) -> Stop { use crate::refi::Trap as T; match t { T::DivZero => Stop::Trap("integer divide by zero"), T::IntOverflow => Stop::Trap("integer overflow"), T::BadConv => Stop::Trap("invalid conversion to integer"), T::MemOob => Stop::Trap("out of bounds memory access"), _ => Stop::Skip } }
fn good(exp: &Val, got: V, t: Ty) -> bool {
    if !exp.fuzzy() { return exp.v == got }
    let lanes = if t == Ty::V128 { 128 / exp.w } else { 1 };
    (0..lanes).all(|i| { let (a, b) = (lane(exp.v, exp.w, i), lane(got, exp.w, i)); match exp.n[i as usize] { N::Bits => a == b, N::Canon => canon(b, exp.w), N::Arith => arith(b, exp.w) } }) && (t == Ty::V128 || got >> exp.w == 0)
}

// ------------------------------------------------------------------------------------------- relaxed instructions
fn f32s(v: V, i: u32) -> f32 { f32::from_bits(lane(v, 32, i) as u32) }
fn f64s(v: V, i: u32) -> f64 { f64::from_bits(lane(v, 64, i)) }
fn relaxed(name: &str, a: &[V], got: V) -> bool {
    let all = |w: u32, f: &dyn Fn(u32, u64) -> bool| (0..128 / w).all(|i| f(i, lane(got, w, i)));
    let sx = |x: u64, w: u32| ((x << (64 - w)) as i64) >> (64 - w);
    let tr = |x: f64, signed: bool, g: u64| -> bool { // both widths are exact in f64
        let g = g as u32;
        if signed { let s = if x.is_nan() { 0 } else { x.clamp(-2147483648.0, 2147483647.0).trunc() as i64 as i32 as u32 }; if !x.is_nan() && x.trunc() >= -2147483648.0 && x.trunc() <= 2147483647.0 { g == s } else { g == s || g == 0x8000_0000 } }
        else { let s = if x.is_nan() { 0 } else { x.clamp(0.0, 4294967295.0).trunc() as i64 as u32 }; if !x.is_nan() && x.trunc() >= 0.0 && x.trunc() <= 4294967295.0 { g == s } else { g == s || g == u32::MAX } }
    };
    match name {
        "I8x16RelaxedSwizzle" => all(8, &|i, g| { let k = lane(a[1], 8, i) as u32; if k < 16 { g == lane(a[0], 8, k) } else if k >= 128 { g == 0 } else { g == 0 || g == lane(a[0], 8, k % 16) } }),
        "I32x4RelaxedTruncF32x4S" | "I32x4RelaxedTruncF32x4U" => all(32, &|i, g| tr(f32s(a[0], i) as f64, name.ends_with('S'), g)),
        "I32x4RelaxedTruncF64x2SZero" | "I32x4RelaxedTruncF64x2UZero" => all(32, &|i, g| if i < 2 { tr(f64s(a[0], i), name.ends_with("SZero"), g) } else { g == 0 }),
        "F32x4RelaxedMadd" | "F32x4RelaxedNmadd" => all(32, &|i, g| { let (x, y, z) = (if name.contains("Nm") { -f32s(a[0], i) } else { f32s(a[0], i) }, f32s(a[1], i), f32s(a[2], i)); let (p, q) = (x * y + z, x.mul_add(y, z)); let nan = (p.is_nan() && arith(g, 32)) || (q.is_nan() && arith(g, 32)); nan || (!p.is_nan() && g == p.to_bits() as u64) || (!q.is_nan() && g == q.to_bits() as u64) }),
        "F64x2RelaxedMadd" | "F64x2RelaxedNmadd" => all(64, &|i, g| { let (x, y, z) = (if name.contains("Nm") { -f64s(a[0], i) } else { f64s(a[0], i) }, f64s(a[1], i), f64s(a[2], i)); let (p, q) = (x * y + z, x.mul_add(y, z)); ((p.is_nan() || q.is_nan()) && arith(g, 64)) || (!p.is_nan() && g == p.to_bits()) || (!q.is_nan() && g == q.to_bits()) }),
        "I8x16RelaxedLaneselect" | "I16x8RelaxedLaneselect" | "I32x4RelaxedLaneselect" | "I64x2RelaxedLaneselect" => {
            let w = match &name[..3] { "I8x" => 8, "I16" => 16, "I32" => 32, _ => 64 };
            all(w, &|i, g| { let (x, y, m) = (lane(a[0], w, i), lane(a[1], w, i), lane(a[2], w, i)); let bits = (x & m) | (y & !m); if m == 0 || m == u64::MAX >> (64 - w) { g == bits } else { g == bits || g == if m >> (w - 1) & 1 == 1 { x } else { y } || (w == 16 && { let part = |s: u32| if m >> (s + 7) & 1 == 1 { x >> s & 0xff } else { y >> s & 0xff }; g == part(0) | part(8) << 8 }) } })
        }
        "F32x4RelaxedMin" | "F32x4RelaxedMax" | "F64x2RelaxedMin" | "F64x2RelaxedMax" => {
            let w = if name.starts_with("F32") { 32 } else { 64 }; let max = name.ends_with("Max");
            all(w, &|i, g| {
                let (x, y) = (lane(a[0], w, i), lane(a[1], w, i)); let f = |b: u64| if w == 32 { f32::from_bits(b as u32) as f64 } else { f64::from_bits(b) };
                if isnan(x, w) || isnan(y, w) { return g == x || g == y || arith(g, w) }
                let (p, q) = (f(x), f(y)); if p == q { g == x || g == y } else if (p < q) != max { g == x } else { g == y }
            })
        }
        "I16x8RelaxedQ15mulrS" => all(16, &|i, g| { let (x, y) = (sx(lane(a[0], 16, i), 16), sx(lane(a[1], 16, i), 16)); if x == -32768 && y == -32768 { g == 0x7fff || g == 0x8000 } else { g == ((x * y + 0x4000) >> 15) as u16 as u64 } }),
        "I16x8RelaxedDotI8x16I7x16S" | "I32x4RelaxedDotI8x16I7x16AddS" => {
            // lanes may be read signed or unsigned, sums of two products may wrap or saturate, sums of four may be exact (as the specification's own tests allow)
            let add = name.starts_with("I32");
            [(true, true), (true, false), (false, false)].iter().any(|(sa, sb)| (0..if add { 3 } else { 2 }).any(|how| {
                let get = |v: V, k: u32, signed: bool| { let x = lane(v, 8, k); if signed { sx(x, 8) } else { x as i64 } };
                let dot = |i: u32| -> i64 { let m = |k: u32| get(a[0], k, *sa) * get(a[1], k, *sb); let s = m(2 * i) + m(2 * i + 1); match how { 0 => s as i16 as i64, 1 => s.clamp(-32768, 32767), _ => s } };
                if !add { all(16, &|i, g| g == dot(i) as u16 as u64) } else { all(32, &|i, g| g == (dot(2 * i) + dot(2 * i + 1) + sx(lane(a[2], 32, i), 32)) as u32 as u64) }
            }))
        }
        _ => panic!("monitor: no rule for {name}"),
    }
}

// ------------------------------------------------------------------------------------------- generating
const VLOADS: usize = 17; // v128.load, 8x8 s u, 16x4 s u, 32x2 s u, splat 8 16 32 64, zero 32 64, lane 8 16 32 64
fn vload(k: usize, offset: u32, l: u8, align: u32) -> (I<'static>, u32) {
    let n = [16, 8, 8, 8, 8, 8, 8, 1, 2, 4, 8, 4, 8, 1, 2, 4, 8][k];
    let memarg = e::MemArg { offset: offset as u64, align: align.min(31 - (n as u32).leading_zeros()), memory_index: 0 };
    (match k { 0 => I::V128Load(memarg), 1 => I::V128Load8x8S(memarg), 2 => I::V128Load8x8U(memarg), 3 => I::V128Load16x4S(memarg), 4 => I::V128Load16x4U(memarg), 5 => I::V128Load32x2S(memarg), 6 => I::V128Load32x2U(memarg), 7 => I::V128Load8Splat(memarg), 8 => I::V128Load16Splat(memarg), 9 => I::V128Load32Splat(memarg), 10 => I::V128Load64Splat(memarg), 11 => I::V128Load32Zero(memarg), 12 => I::V128Load64Zero(memarg),
        13 => I::V128Load8Lane { memarg, lane: l % 16 }, 14 => I::V128Load16Lane { memarg, lane: l % 8 }, 15 => I::V128Load32Lane { memarg, lane: l % 4 }, _ => I::V128Load64Lane { memarg, lane: l % 2 } }, n)
}
fn vstore(k: usize, offset: u32, l: u8) -> (I<'static>, u32) { // v128.store, lanes 8 16 32 64
    let memarg = e::MemArg { offset: offset as u64, align: 0, memory_index: 0 };
    (match k { 0 => I::V128Store(memarg), 1 => I::V128Store8Lane { memarg, lane: l % 16 }, 2 => I::V128Store16Lane { memarg, lane: l % 8 }, 3 => I::V128Store32Lane { memarg, lane: l % 4 }, _ => I::V128Store64Lane { memarg, lane: l % 2 } }, [16, 1, 2, 4, 8][k])
}
const MEM: usize = 320; const BASE: u32 = 256; // bytes of memory (one-byte pages); where the constant bytes start
fn membyte(i: usize) -> u8 { (i as u32).wrapping_mul(0x9E37_79B1).rotate_left(9) as u8 }

struct G<'a> { r: &'a mut Rng, params: Vec<Ty>, cls: &'a str, slots: u32, globs: Vec<(Ty, usize)>, locals: u32, acc: Option<Ty>, relaxed_root: bool }
impl G<'_> {
    fn param(&mut self, t: Ty) -> usize { let have: Vec<usize> = (0..self.params.len()).filter(|k| self.params[*k] == t).collect(); if !have.is_empty() && (self.r.chance(1, 2) || self.params.len() > 5) { *self.r.pick(&have) } else { self.params.push(t); self.params.len() - 1 } }
    fn row(&mut self, t: Option<Ty>) -> Op {
        loop {
            let float = |x: &OpRow| x.3.contains('F');
            let pick = |r: &mut Rng, f: &dyn Fn(&OpRow) -> bool, tab: &'static [OpRow]| { let v: Vec<&OpRow> = tab.iter().filter(|x| f(x) && t.map(|t| x.2 == t).unwrap_or(true)).collect(); if v.is_empty() { None } else { Some(*r.pick(&v)) } };
            let x = match self.cls { "C01" => pick(self.r, &|x| !float(x) || x.3.starts_with('I'), SCALAR), "C03" => pick(self.r, &float, SCALAR), "C04" => { if self.r.chance(1, 12) || (t == Some(Ty::V128) && self.r.chance(1, 12)) { let o = self.lane_op(t); if let Some(o) = o { return o } } if t.is_none() && self.r.chance(1, 8) { self.relaxed_root = true; pick(self.r, &|_| true, RELAXED) } else { pick(self.r, &|_| true, SIMD) } } _ => if self.r.chance(1, 6) { pick(self.r, &|_| true, SIMD) } else { pick(self.r, &|_| true, SCALAR) } };
            let x = match x { Some(x) => x, None => match t { Some(t) => { let v: Vec<&OpRow> = SCALAR.iter().chain(SIMD).filter(|x| x.2 == t).collect(); *self.r.pick(&v) } None => continue } };
            return Op { i: x.0.clone(), o: std::rc::Rc::new(decode(&x.0)), args: x.1.to_vec(), out: x.2, name: x.3.to_string() };
        }
    }
    fn lane_op(&mut self, t: Option<Ty>) -> Option<Op> {
        let l = self.r.below(16) as u8;
        let mut sh = [0u8; 16]; match self.r.below(4) { 0 => for (k, x) in sh.iter_mut().enumerate() { *x = (k as u8 + l) % 32 }, 1 => sh = [l + 16 * self.r.below(2) as u8; 16], _ => for x in sh.iter_mut() { *x = self.r.below(32) as u8 } }
        let (i, args, out): (I<'static>, Vec<Ty>, Ty) = match self.r.below(16) {
            0 | 1 => (I::I8x16Shuffle(sh), vec![Ty::V128, Ty::V128], Ty::V128), 2 => (I::I8x16ExtractLaneS(l), vec![Ty::V128], Ty::I32), 3 => (I::I8x16ExtractLaneU(l), vec![Ty::V128], Ty::I32), 4 => (I::I16x8ExtractLaneS(l % 8), vec![Ty::V128], Ty::I32), 5 => (I::I16x8ExtractLaneU(l % 8), vec![Ty::V128], Ty::I32), 6 => (I::I32x4ExtractLane(l % 4), vec![Ty::V128], Ty::I32), 7 => (I::I64x2ExtractLane(l % 2), vec![Ty::V128], Ty::I64), 8 => (I::F32x4ExtractLane(l % 4), vec![Ty::V128], Ty::F32), 9 => (I::F64x2ExtractLane(l % 2), vec![Ty::V128], Ty::F64),
            10 => (I::I8x16ReplaceLane(l), vec![Ty::V128, Ty::I32], Ty::V128), 11 => (I::I16x8ReplaceLane(l % 8), vec![Ty::V128, Ty::I32], Ty::V128), 12 => (I::I32x4ReplaceLane(l % 4), vec![Ty::V128, Ty::I32], Ty::V128), 13 => (I::I64x2ReplaceLane(l % 2), vec![Ty::V128, Ty::I64], Ty::V128), 14 => (I::F32x4ReplaceLane(l % 4), vec![Ty::V128, Ty::F32], Ty::V128), _ => (I::F64x2ReplaceLane(l % 2), vec![Ty::V128, Ty::F64], Ty::V128),
        };
        if t.map(|t| t != out).unwrap_or(false) { return None }
        let name = format!("{i:?}"); let name = name.split('(').next().unwrap().to_string();
        Some(Op { o: std::rc::Rc::new(decode(&i)), i, args, out, name })
    }
    fn leaf(&mut self, t: Ty) -> E {
        if self.acc == Some(t) && self.r.chance(1, 2) { return E::Acc(t) }
        match self.r.below(20) {
            0..=7 => { let p = self.param(t); E::P(t, p) }
            8..=11 => { let v = value(self.r, t); E::C(t, v) }
            12 => match self.globs.iter().find(|g| g.0 == t) { Some(g) => E::Glob(t, g.1), None => { let p = self.param(t); self.globs.push((t, p)); E::Glob(t, p) } },
            13 if self.slots < 8 => { let p = self.param(t); self.slots += 1; E::Mem(t, p, (self.slots - 1) * 18 + self.r.below(3) as u32) }
            14 => { let x = self.leaf(t); E::Block(Box::new(x)) }
            15 => { let x = self.leaf(t); if self.r.chance(1, 2) { E::Br(Box::new(x)) } else { let (y, c) = (self.leaf(t), self.param(Ty::I32)); E::BrIf(t, Box::new(x), c, Box::new(y)) } }
            16 => { let (x, y, c) = (self.leaf(t), self.leaf(t), self.param(Ty::I32)); if self.r.chance(1, 2) { E::If(t, c, Box::new(x), Box::new(y)) } else { E::Sel(t, self.r.chance(1, 2), Box::new(x), Box::new(y), c) } }
            17 => { let x = self.leaf(t); E::Call(t, Box::new(x)) }
            18 => { let x = self.leaf(t); self.locals += 1; E::Tee(t, Box::new(x), self.locals - 1) }
            _ if t == Ty::V128 => { let k = self.r.below(VLOADS); let a = self.param(Ty::I32); let off = if self.r.chance(1, 2) { 0 } else { BASE + self.r.below(70) as u32 }; let v = if k >= 13 { Some(Box::new(self.leaf(t))) } else { None }; E::VL(k, a, off, self.r.below(16) as u8, v) }
            _ => { let p = self.param(t); E::P(t, p) }
        }
    }
    fn expr(&mut self, t: Ty, depth: u32) -> E { if depth == 0 || self.r.chance(1, 2) { return self.leaf(t) } let o = self.row(Some(t)); self.node(o, depth) }
    fn node(&mut self, o: Op, depth: u32) -> E { let args = o.args.clone(); let a = args.iter().map(|t| self.expr(*t, depth - 1)).collect(); E::Op(o, a) }
}
pub fn value(r: &mut Rng, t: Ty) -> V {
    match t {
        Ty::I32 if r.chance(1, 5) => r.below(70) as V,
        Ty::F32 if r.chance(1, 4) => edge32(r) as V, Ty::F64 if r.chance(1, 4) => edge64(r) as V,
        Ty::V128 if r.chance(1, 5) => { let mut v = 0; if r.chance(1, 2) { for i in 0..4 { v |= (edge32(r) as V) << (32 * i) } } else { for i in 0..2 { v |= (edge64(r) as V) << (64 * i) } } v }
        Ty::V128 if r.chance(1, 6) => { let b = r.u128().to_le_bytes(); V::from_le_bytes(b.map(|x| if r.chance(2, 3) { x & 31 } else { x })) }
        _ => crate::scen::val(r, t),
    }
}
fn edge64(r: &mut Rng) -> u64 {
    let b = *r.pick(&[2147483648.0f64, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0, 1.0, 0.5, 1.5, 2.5, 0.0, 4503599627370496.0, 9007199254740992.0, 16777216.0, 3.4028234663852886e38, 1.1754943508222875e-38, 1.401298464324817e-45, 7.006492321624085e-46, f64::MAX, f64::MIN_POSITIVE, f64::INFINITY, 127.0, 128.0, 255.0, 32768.0, 65536.0]);
    let mut x = b.to_bits(); match r.below(6) { 0 => x = x.wrapping_sub(1) & (u64::MAX >> 1), 1 => x = (x + 1) & (u64::MAX >> 1), 2 => x = (b - 0.5).to_bits(), 3 => x = (b + 0.9).to_bits(), _ => {} }
    if r.chance(1, 20) { x = *r.pick(&[0x7ff8_0000_0000_0000, 0x7ff8_0000_0000_0001, 0x7ff0_0000_0000_0001, 0x7ff4_0000_0000_0000]) }
    if r.chance(2, 5) { x ^= 1 << 63 } x
}
fn edge32(r: &mut Rng) -> u32 {
    let b = *r.pick(&[2147483648.0f32, 4294967296.0, 9223372036854775808.0, 18446744073709551616.0, 1.0, 0.5, 1.5, 2.5, 0.0, 8388608.0, 16777216.0, f32::MAX, f32::MIN_POSITIVE, f32::INFINITY, 127.0, 255.0, 32768.0, 65536.0]);
    let mut x = b.to_bits(); match r.below(6) { 0 => x = x.wrapping_sub(1) & 0x7fff_ffff, 1 => x = (x + 1) & 0x7fff_ffff, 2 => x = (b - 0.5).to_bits(), 3 => x = (b + 0.9).to_bits(), _ => {} }
    if r.chance(1, 20) { x = *r.pick(&[0x7fc0_0000, 0x7fc0_0001, 0x7f80_0001, 0x7fa0_0000]) }
    if r.chance(2, 5) { x ^= 1 << 31 } x
}
fn vt(t: Ty) -> e::ValType { match t { Ty::I32 => e::ValType::I32, Ty::I64 => e::ValType::I64, Ty::F32 => e::ValType::F32, Ty::F64 => e::ValType::F64, _ => e::ValType::V128 } }
const TYS: [Ty; 5] = [Ty::I32, Ty::I64, Ty::F32, Ty::F64, Ty::V128];
fn tix(t: Ty) -> u32 { TYS.iter().position(|x| *x == t).unwrap() as u32 }
fn konst(t: Ty, v: V) -> I<'static> { match t { Ty::I32 => I::I32Const(v as u32 as i32), Ty::I64 => I::I64Const(v as u64 as i64), Ty::F32 => I::F32Const(e::Ieee32::new(v as u32)), Ty::F64 => I::F64Const(e::Ieee64::new(v as u64)), _ => I::V128Const(v as i128) } }
fn load(t: Ty, a: u32) -> I<'static> { let m = e::MemArg { offset: a as u64, align: 0, memory_index: 0 }; match t { Ty::I32 => I::I32Load(m), Ty::I64 => I::I64Load(m), Ty::F32 => I::F32Load(m), Ty::F64 => I::F64Load(m), _ => I::V128Load(m) } }
fn store(t: Ty, a: u32) -> I<'static> { let m = e::MemArg { offset: a as u64, align: 0, memory_index: 0 }; match t { Ty::I32 => I::I32Store(m), Ty::I64 => I::I64Store(m), Ty::F32 => I::F32Store(m), Ty::F64 => I::F64Store(m), _ => I::V128Store(m) } }

struct Em { c: Vec<I<'static>>, tees: Vec<(u32, Ty)>, base: u32, acc: u32 }
impl Em {
    fn e(&mut self, x: &E) {
        match x {
            E::P(_, k) => self.c.push(I::LocalGet(*k as u32)), E::C(t, v) => self.c.push(konst(*t, *v)), E::Glob(t, _) => self.c.push(I::GlobalGet(tix(*t))),
            E::Mem(t, _, a) => if a % 2 == 0 { self.c.push(I::I32Const(0)); self.c.push(load(*t, *a)) } else { self.c.push(I::I32Const(*a as i32)); self.c.push(load(*t, 0)) },
            E::Block(b) => { let t = ty_of(b); self.c.push(I::Block(e::BlockType::Result(vt(t)))); self.e(b); self.c.push(I::End) }
            E::Br(b) => { let t = ty_of(b); self.c.push(I::Block(e::BlockType::Result(vt(t)))); self.e(b); self.c.push(I::Br(0)); self.c.push(I::End) }
            E::BrIf(t, a, c, b) => { self.c.push(I::Block(e::BlockType::Result(vt(*t)))); self.e(a); self.c.push(I::LocalGet(*c as u32)); self.c.push(I::BrIf(0)); self.c.push(I::Drop); self.e(b); self.c.push(I::End) }
            E::If(t, c, a, b) => { self.c.push(I::LocalGet(*c as u32)); self.c.push(I::If(e::BlockType::Result(vt(*t)))); self.e(a); self.c.push(I::Else); self.e(b); self.c.push(I::End) }
            E::Sel(t, typed, a, b, c) => { self.e(a); self.e(b); self.c.push(I::LocalGet(*c as u32)); self.c.push(if *typed { I::TypedSelect(vt(*t)) } else { I::Select }) }
            E::Call(t, a) => { self.e(a); self.c.push(I::Call(tix(*t))) }
            E::Tee(t, a, k) => { self.e(a); self.tees.push((*k, *t)); self.c.push(I::LocalTee(self.base + k)) }
            E::Acc(_) => self.c.push(I::LocalGet(self.acc)),
            E::Op(o, a) => { for x in a { self.e(x) } self.c.push(o.i.clone()) }
            E::VL(k, a, off, l, v) => { self.c.push(I::LocalGet(*a as u32)); if let Some(v) = v { self.e(v) } self.c.push(vload(*k, *off, *l, *l as u32 % 5).0) }
        }
    }
}
fn ty_of(x: &E) -> Ty { match x { E::P(t, _) | E::C(t, _) | E::Glob(t, _) | E::Mem(t, ..) | E::BrIf(t, ..) | E::If(t, ..) | E::Sel(t, ..) | E::Call(t, _) | E::Tee(t, ..) | E::Acc(t) => *t, E::Block(b) | E::Br(b) => ty_of(b), E::Op(o, _) => o.out, E::VL(..) => Ty::V128 } }
struct Ctx<'a> { p: &'a [V], acc: Val }
fn eval(x: &E, c: &Ctx) -> Result<Val, Stop> {
    Ok(match x {
        E::P(_, k) | E::Glob(_, k) | E::Mem(_, k, _) => Val::exact(c.p[*k]), E::C(_, v) => Val::exact(*v), E::Block(b) | E::Br(b) | E::Call(_, b) | E::Tee(_, b, _) => eval(b, c)?,
        E::BrIf(_, a, k, b) => { let a = eval(a, c)?; if c.p[*k] as u32 != 0 { a } else { eval(b, c)? } }
        E::If(_, k, a, b) => if c.p[*k] as u32 != 0 { eval(a, c)? } else { eval(b, c)? },
        E::Sel(_, _, a, b, k) => { let (a, b) = (eval(a, c)?, eval(b, c)?); if c.p[*k] as u32 != 0 { a } else { b } }
        E::Acc(_) => c.acc.clone(),
        E::Op(o, a) => { let a = a.iter().map(|x| eval(x, c)).collect::<Result<Vec<_>, _>>()?; apply(o, a)? }
        E::VL(k, a, off, l, v) => {
            let old = match v { Some(v) => { let v = eval(v, c)?; if v.fuzzy() { return Err(Stop::Skip) } v.v } None => 0 };
            let n = vload(*k, 0, 0, 0).1 as usize; let at = c.p[*a] as u32 as u64 + *off as u64;
            if at + n as u64 > MEM as u64 { return Err(Stop::Trap("out of bounds memory access")) }
            if at < BASE as u64 { return Err(Stop::Skip) }
            let mut b = [0u8; 16]; for j in 0..n { b[j] = membyte(at as usize + j) } let x = V::from_le_bytes(b);
            let ext = |w: u32, signed: bool| { let mut r = 0; for i in 0..64 / w { let y = lane(x, w, i); let y = if signed { (((y << (64 - w)) as i64) >> (64 - w)) as u64 & (u64::MAX >> (64 - 2 * w)) } else { y }; r |= (y as V) << (2 * w * i) } r };
            let splat = |w: u32| { let mut r = 0; for i in 0..128 / w { r |= x << (w * i) } r };
            let put = |w: u32| { let s = w * (*l as u32 % (128 / w)); let m = (u128::MAX >> (128 - w)) << s; (old & !m) | (x << s & m) };
            Val::exact(match k { 0 | 11 | 12 => x, 1 => ext(8, true), 2 => ext(8, false), 3 => ext(16, true), 4 => ext(16, false), 5 => ext(32, true), 6 => ext(32, false), 7 => splat(8), 8 => splat(16), 9 => splat(32), 10 => splat(64), 13 => put(8), 14 => put(16), 15 => put(32), _ => put(64) })
        }
    })
}
fn show(x: &E) -> String {
    match x { E::P(_, k) => format!("p{k}"), E::C(t, v) => format!("{t:?}:{v:x}"), E::Glob(_, k) => format!("global(p{k})"), E::Mem(_, k, _) => format!("memory(p{k})"), E::Block(b) => format!("block({})", show(b)), E::Br(b) => format!("br({})", show(b)), E::BrIf(_, a, k, b) => format!("br_if({}, p{k}, {})", show(a), show(b)), E::If(_, k, a, b) => format!("if(p{k}, {}, {})", show(a), show(b)), E::Sel(_, _, a, b, k) => format!("select({}, {}, p{k})", show(a), show(b)), E::Call(_, b) => format!("call({})", show(b)), E::Tee(_, b, _) => format!("tee({})", show(b)), E::Acc(_) => "acc".into(), E::Op(o, a) => format!("{:?}({})", o.i, a.iter().map(show).collect::<Vec<_>>().join(", ")), E::VL(k, a, off, l, v) => format!("{:?} lane {l} at p{a}+{off}{}", vload(*k, *off, *l, 0).0, v.as_ref().map(|v| format!(" into {}", show(v))).unwrap_or_default()) }
}

fn gen_fn(r: &mut Rng, cls: &str) -> (F, Vec<I<'static>>, Vec<(u32, Ty)>, bool, Option<Op>) {
    let mut g = G { r, params: vec![], cls, slots: 0, globs: vec![], locals: 0, acc: None, relaxed_root: false };
    let op = g.row(None); let relaxed_root = g.relaxed_root; let out = op.out;
    let keep = relaxed_root.then(|| op.clone());
    let mut sink = if relaxed_root { Sink::Ret } else { match g.r.below(24) { 0..=5 => Sink::Ret, 6 => Sink::RetInstr, 7 | 8 => Sink::SetGet, 9 => Sink::TeeDrop, 10 => Sink::TeeUse, 11 | 12 => Sink::Mem(230 + g.r.below(3) as u32), 13 => Sink::Glob, 14 => Sink::If, 15 => Sink::IfEqz, 16 => Sink::BrIf, 17 => Sink::BrIfEqz, 18 => Sink::Sel, 19 => Sink::BrTable, 20 => Sink::Local2, _ => Sink::Acc(g.r.range(1, 4) as u32, value(g.r, out)) } };
    if out != Ty::I32 && matches!(sink, Sink::If | Sink::IfEqz | Sink::BrIf | Sink::BrIfEqz | Sink::Sel | Sink::BrTable) { sink = if out == Ty::V128 && g.r.chance(1, 2) { let a = g.param(Ty::I32); Sink::VStore(g.r.below(5), a, g.r.below(40) as u32, g.r.below(16) as u8) } else { Sink::Ret } }
    if let Sink::Acc(..) = sink { g.acc = Some(out) }
    let d = if relaxed_root { 1 } else { g.r.range(1, 3) as u32 };
    let x = if relaxed_root { let a = op.args.clone(); E::Op(op, a.iter().map(|t| { let p = g.param(*t); if g.r.chance(1, 6) { let v = value(g.r, *t); E::C(*t, v) } else { E::P(*t, p) } }).collect()) } else { g.node(op, d) };
    let np = g.params.len() as u32;
    let mut em = Em { c: vec![], tees: vec![], base: np + 2, acc: np };
    // prelude: parameters into globals and memory
    for (t, k) in &g.globs { em.c.push(I::LocalGet(*k as u32)); em.c.push(I::GlobalSet(tix(*t))) }
    fn mems(x: &E, out: &mut Vec<(Ty, usize, u32)>) { match x { E::Mem(t, k, a) => out.push((*t, *k, *a)), E::Block(a) | E::Br(a) | E::Call(_, a) | E::Tee(_, a, _) => mems(a, out), E::BrIf(_, a, _, b) | E::If(_, _, a, b) | E::Sel(_, _, a, b, _) => { mems(a, out); mems(b, out) } E::Op(_, v) => v.iter().for_each(|a| mems(a, out)), E::VL(.., Some(v)) => mems(v, out), _ => {} } }
    let mut ms = vec![]; mems(&x, &mut ms);
    for (t, k, a) in ms { em.c.push(I::I32Const(a as i32)); em.c.push(I::LocalGet(k as u32)); em.c.push(store(t, 0)) }
    let (l, l2) = (np, np + 1);
    let ret = match &sink { Sink::If | Sink::IfEqz | Sink::BrIf | Sink::BrIfEqz | Sink::Sel | Sink::BrTable => Ty::I32, _ => out };
    match &sink {
        Sink::Ret => em.e(&x),
        Sink::RetInstr => { em.e(&x); em.c.push(I::Return); em.c.push(I::Unreachable) }
        Sink::SetGet => { em.e(&x); em.c.push(I::LocalSet(l)); em.c.push(I::LocalGet(l)) }
        Sink::TeeDrop => { em.e(&x); em.c.push(I::LocalTee(l)); em.c.push(I::Drop); em.c.push(I::LocalGet(l)) }
        Sink::TeeUse => { em.e(&x); em.c.push(I::LocalTee(l)); em.c.push(I::LocalSet(l2)); em.c.push(I::LocalGet(l2)) }
        Sink::Local2 => { em.e(&x); em.c.push(I::LocalSet(l)); em.c.push(I::LocalGet(l)); em.c.push(I::LocalSet(l2)); em.c.push(I::LocalGet(l2)) }
        Sink::Mem(a) => { em.c.push(I::I32Const(0)); em.e(&x); em.c.push(store(out, *a)); em.c.push(I::I32Const(0)); em.c.push(load(out, *a)) }
        Sink::Glob => { em.e(&x); em.c.push(I::GlobalSet(tix(out))); em.c.push(I::GlobalGet(tix(out))) }
        Sink::If | Sink::IfEqz => { em.e(&x); if let Sink::IfEqz = sink { em.c.push(I::I32Eqz) } em.c.push(I::If(e::BlockType::Result(e::ValType::I32))); em.c.push(I::I32Const(11)); em.c.push(I::Else); em.c.push(I::I32Const(22)); em.c.push(I::End) }
        Sink::BrIf | Sink::BrIfEqz => { em.c.push(I::Block(e::BlockType::Empty)); em.e(&x); if let Sink::BrIfEqz = sink { em.c.push(I::I32Eqz) } em.c.push(I::BrIf(0)); em.c.push(I::I32Const(22)); em.c.push(I::Return); em.c.push(I::End); em.c.push(I::I32Const(11)) }
        Sink::Sel => { em.c.push(I::I32Const(11)); em.c.push(I::I32Const(22)); em.e(&x); em.c.push(I::Select) }
        Sink::BrTable => { for _ in 0..3 { em.c.push(I::Block(e::BlockType::Empty)) } em.e(&x); em.c.push(I::BrTable(vec![1, 0].into(), 2)); for k in 0..3 { em.c.push(I::End); em.c.push(I::I32Const(k)); if k < 2 { em.c.push(I::Return) } } }
        Sink::Acc(n, v) => { em.c.push(konst(out, *v)); em.c.push(I::LocalSet(l)); for _ in 0..*n { em.e(&x); em.c.push(I::LocalSet(l)) } em.c.push(I::LocalGet(l)) }
        Sink::VStore(k, a, off, ln) => { // fresh bytes, store, read back what the store may have written
            em.c.push(I::I32Const(176)); em.c.push(konst(Ty::V128, 0)); em.c.push(I::V128Store(e::MemArg { offset: 0, align: 0, memory_index: 0 }));
            em.c.push(I::LocalGet(*a as u32)); em.e(&x); em.c.push(vstore(*k, *off, *ln).0);
            em.c.push(I::I32Const(176)); em.c.push(load(Ty::V128, 0)) }
    }
    em.c.push(I::End);
    let mut locals: Vec<(u32, Ty)> = vec![(l, out), (l2, out)]; em.tees.sort_by_key(|t| t.0); em.tees.dedup(); for (k, t) in &em.tees { locals.push((np + 2 + k, *t)) }
    // a tee inside a part that is emitted several times keeps its local; one never emitted leaves a gap
    let mut full = vec![]; for k in np..np + 2 + g.locals { full.push((1, locals.iter().find(|x| x.0 == k).map(|x| x.1).unwrap_or(Ty::I32))) }
    let text = format!("{:?} of {}", sink, show(&x));
    (F { params: g.params.clone(), body: x, out: ret, sink, text }, em.c, full, relaxed_root, keep)
}
fn expect(f: &F, p: &[V]) -> Result<Val, Stop> {
    let cx = |acc: Val| Ctx { p, acc };
    if let Sink::Acc(n, v) = &f.sink { let mut acc = Val::exact(*v); for _ in 0..*n { acc = eval(&f.body, &cx(acc))? } return Ok(acc) }
    let v = eval(&f.body, &cx(Val::exact(0)))?;
    let cond = |b: bool| Val::exact(if b { 11 } else { 22 });
    Ok(match &f.sink {
        Sink::If | Sink::BrIf | Sink::Sel => cond(v.v as u32 != 0), Sink::IfEqz | Sink::BrIfEqz => cond(v.v as u32 == 0),
        Sink::BrTable => Val::exact(match v.v as u32 { 0 => 1, 1 => 0, _ => 2 }),
        Sink::VStore(k, a, off, l) => {
            if v.fuzzy() { return Err(Stop::Skip) }
            let n = vstore(*k, 0, 0).1; let at = p[*a] as u32 as u64 + *off as u64; if at + n as u64 > MEM as u64 { return Err(Stop::Trap("out of bounds memory access")) }
            let w = n * 8; let x = if *k == 0 { v.v } else { v.v >> (w * (*l as u32 % (128 / w))) }.to_le_bytes();
            let mut b = [0u8; 16]; for j in 0..n as u64 { if at + j >= 176 && at + j < 192 { b[(at + j - 176) as usize] = x[j as usize] } } if at < 176 && at + n as u64 > 0 && at < 160 { return Err(Stop::Skip) }
            if at + n as u64 > 230 { return Err(Stop::Skip) } // would change the constant bytes
            Val::exact(V::from_le_bytes(b))
        }
        _ => v,
    })
}
fn writes_outside(f: &F, p: &[V]) -> bool { match &f.sink { Sink::VStore(k, a, off, _) => { let at = p[*a] as u32 as u64 + *off as u64; let n = vstore(*k, 0, 0).1 as u64; at + n <= MEM as u64 && (at < 160 || at + n > 230) } _ => false } }

struct Case { fns: Vec<(F, bool, Option<Op>)>, bytes: Vec<u8> }
fn case(r: &mut Rng, cls: &str) -> Case {
    let mut m = e::Module::new(); let (mut ts, mut fs, mut ex, mut co) = (e::TypeSection::new(), e::FunctionSection::new(), e::ExportSection::new(), e::CodeSection::new());
    for t in TYS { ts.ty().function([vt(t)], [vt(t)]); fs.function(ts.len() - 1); let mut f = e::Function::new([]); f.instruction(&I::LocalGet(0)); f.instruction(&I::End); co.function(&f); }
    let mut fns = vec![];
    for k in 0..r.range(6, 14) {
        let (f, code, locals, rel, op) = gen_fn(r, cls);
        ts.ty().function(f.params.iter().map(|t| vt(*t)), [vt(f.out)]); fs.function(ts.len() - 1); ex.export(&format!("f{k}"), e::ExportKind::Func, 5 + k as u32);
        let mut b = e::Function::new(locals.iter().map(|(n, t)| (*n, vt(*t)))); for i in &code { b.instruction(i); } co.function(&b);
        fns.push((f, rel, op));
    }
    let mut me = e::MemorySection::new(); me.memory(e::MemoryType { minimum: MEM as u64, maximum: Some(MEM as u64), memory64: false, shared: false, page_size_log2: Some(0) });
    let mut gl = e::GlobalSection::new(); for t in TYS { gl.global(e::GlobalType { val_type: vt(t), mutable: true, shared: false }, &match t { Ty::I32 => e::ConstExpr::i32_const(0), Ty::I64 => e::ConstExpr::i64_const(0), Ty::F32 => e::ConstExpr::f32_const(e::Ieee32::new(0)), Ty::F64 => e::ConstExpr::f64_const(e::Ieee64::new(0)), _ => e::ConstExpr::v128_const(0) }); }
    let mut da = e::DataSection::new(); da.active(0, &e::ConstExpr::i32_const(0), (0..MEM).map(membyte).collect::<Vec<u8>>());
    m.section(&ts); m.section(&fs); m.section(&me); m.section(&gl); m.section(&ex); m.section(&co); m.section(&da);
    Case { fns, bytes: m.finish() }
}

/// What a call gave.
enum Got { Vals(Vec<V>), Trap(String), Fail(String) }
/// Where a case runs: one or two instances in this process, or the process without std.
enum Place { Here(Box<Store>, ModuleInstance, bool), Bare(bool) }
impl Place {
    fn call(&mut self, k: usize, params: &[Ty], p: &[V]) -> Got {
        match self {
            Place::Here(st, i, _) => {
                let args: Vec<_> = params.iter().zip(p).map(|(t, v)| crate::target::to_val(*t, *v, &Default::default())).collect();
                match i.func_untyped(st, &format!("f{k}")).and_then(|f| f.call(st, &args)) { Ok(v) => Got::Vals(v.iter().map(|x| crate::target::bits(x).1).collect()), Err(Error::Trap(t)) => Got::Trap(t.message().into()), Err(e) => Got::Fail(format!("{e:?}")) }
            }
            Place::Bare(_) => {
                let l = bare(&format!("C f{k}{}", params.iter().zip(p).map(|(t, v)| format!(" {t:?}:{v:x}")).collect::<String>()));
                match l.split_at(1) { ("R", v) => Got::Vals(v.split_whitespace().map(|x| V::from_str_radix(x.split_once(':').map(|x| x.1).unwrap_or("x"), 16).unwrap_or_else(|_| panic!("monitor: answer {l}"))).collect()), ("T", t) => Got::Trap(t.trim().into()), _ => Got::Fail(l) }
            }
        }
    }
    fn what(&self) -> String { match self { Place::Here(.., o) => format!("optimised: {o}"), Place::Bare(o) => format!("build without std; optimised: {o}") } }
}
static BARE: std::sync::Mutex<Option<(std::process::Child, std::io::BufReader<std::process::ChildStdout>)>> = std::sync::Mutex::new(None);
/// Sends a line to the process without std; its answer. If it died, "X" and how.
fn bare(l: &str) -> String {
    let mut t = BARE.lock().unwrap();
    if t.is_none() { let exe = std::env::var("TW_BARE").expect("monitor: TW_BARE"); let mut c = std::process::Command::new(exe).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).stderr(std::process::Stdio::null()).spawn().expect("monitor: bare"); let out = std::io::BufReader::new(c.stdout.take().unwrap()); *t = Some((c, out)) }
    let (c, out) = t.as_mut().unwrap();
    let mut a = String::new();
    let _ = writeln!(c.stdin.as_mut().unwrap(), "{l}"); let _ = out.read_line(&mut a);
    if a.is_empty() { let s = c.wait(); *t = None; return format!("X the process ended: {s:?}") }
    a.trim_end().into()
}

/// Runs a case and judges it; returns what every call gave.
fn run(cls: &str, seed: u64, o: &mut Obs, away: bool) -> Result<Vec<u64>, Bad> {
    let mut r = Rng::new(seed ^ 0x6e756d);
    let c = case(&mut r, cls);
    let wrong = |s: String| Bad { what: s, files: vec![("module.wasm".into(), c.bytes.clone())] };
    let mut places = vec![]; let mut digests = vec![];
    let opts: &[bool] = match cls { "C02" => &[true, false], _ => if r.chance(4, 5) { &[true] } else { &[false] } };
    for opt in opts {
        let m = Parser::with_options(ParserOptions::default().with_rewrite_optimization(*opt).with_parser_threads(1)).parse_module_bytes(&c.bytes).unwrap_or_else(|e| panic!("monitor: module refused (C16 decides that): {e} (seed {seed})"));
        if away {
            let a = m.serialize_twasm().map_err(|e| wrong(format!("archive: {e:?}")))?;
            let l = bare(&format!("M {}", a.iter().map(|b| format!("{b:02x}")).collect::<String>()));
            if l != "M" { return Err(wrong(format!("instantiation from an archive in a build without std failed: {l}"))) }
            places.push(Place::Bare(*opt)); continue
        }
        let mut st = Store::default(); let i = ModuleInstance::instantiate(&mut st, &m, None).map_err(|e| wrong(format!("instantiation failed: {e:?}")))?;
        places.push(Place::Here(Box::new(st), i, *opt));
    }
    for (k, (f, rel, op)) in c.fns.iter().enumerate() {
        for _ in 0..r.range(6, 16) {
            let addr = matches!(f.body, E::VL(..)) || f.text.contains("Load") || matches!(f.sink, Sink::VStore(..));
            let p: Vec<V> = f.params.iter().map(|t| if *t == Ty::I32 && addr && r.chance(3, 4) { if r.chance(1, 2) { (160 + r.below(60)) as V } else { r.below(330) as V } } else if *t == Ty::I32 && r.chance(1, 4) { r.below(3) as V } else { value(&mut r, *t) }).collect();
            if writes_outside(f, &p) { continue }
            let want = if *rel { Err(Stop::Skip) } else { expect(f, &p) };
            for place in &mut places {
                let got = place.call(k, &f.params, &p); let at = place.what();
                let sh = || format!("{} with {}", f.text, p.iter().zip(&f.params).map(|(v, t)| format!("{t:?}:{v:x}")).collect::<Vec<_>>().join(" "));
                o.inc("calls_judged");
                match &got {
                    Got::Vals(v) => digests.push(crate::hash_bytes(&v[0].to_le_bytes())),
                    Got::Trap(t) => digests.push(crate::hash_bytes(t.as_bytes())),
                    Got::Fail(e) => return Err(wrong(format!("{} ({at}): failed with {e}", sh()))),
                }
                match (&want, &got) {
                    (Err(Stop::Skip), Got::Vals(v)) if *rel => {
                        let E::Op(_, a) = &f.body else { unreachable!() };
                        let vals: Vec<V> = a.iter().map(|x| match x { E::P(_, k) => p[*k], E::C(_, v) => *v, _ => unreachable!() }).collect();
                        let g = v[0]; o.inc("relaxed_results_judged");
                        if !relaxed(&op.as_ref().unwrap().name, &vals, g) { return Err(wrong(format!("{} ({at}): {g:032x} is none of the allowed results", sh()))) }
                    }
                    (Err(Stop::Skip), _) => { o.inc("left_open_by_the_specification") }
                    (Ok(e), Got::Vals(v)) => { let g = v[0]; if e.fuzzy() { o.inc("nan_classes_judged") } if !good(e, g, f.out) { return Err(wrong(format!("{} ({at}): returned {g:x}, expected {:x}{}", sh(), e.v, if e.fuzzy() { format!(" with NaN classes {:?}", e.n) } else { String::new() }))) } }
                    (Err(Stop::Trap(t)), Got::Trap(g)) => { o.inc("traps_judged"); if t != g { return Err(wrong(format!("{} ({at}): trapped with {g:?}, expected {t}", sh()))) } }
                    (w, g) => return Err(wrong(format!("{} ({at}): gave {}, expected {}", sh(), match g { Got::Vals(v) => format!("{v:x?}"), Got::Trap(e) | Got::Fail(e) => e.clone() }, match w { Ok(v) => format!("{:x}", v.v), Err(t) => format!("{t:?}") }))),
                }
            }
        }
        names(&f.body, o);
        o.note("result_places", format!("{:?}", f.sink).split(['(', ' ']).next().unwrap());
    }
    o.case(crate::hash_bytes(&c.bytes), || format!("seed {seed}: {}", c.fns.iter().take(4).map(|f| f.0.text.clone()).collect::<Vec<_>>().join("; ")));
    Ok(digests)
}
/// The same in a build without std, parser and NaN canonicalisation, through an archive.
pub fn num_bare(cls: &str, seed: u64, o: &mut Obs) -> R { run(cls, seed, o, true).map(|_| o.inc("cases_without_std")) }
fn names(x: &E, o: &mut Obs) { match x { E::Op(p, a) => { o.note("instructions", &p.name); a.iter().for_each(|a| names(a, o)) } E::Block(a) | E::Br(a) | E::Call(_, a) | E::Tee(_, a, _) => names(a, o), E::BrIf(_, a, _, b) | E::If(_, _, a, b) | E::Sel(_, _, a, b, _) => { names(a, o); names(b, o) } E::VL(k, _, _, _, v) => { o.note("instructions", format!("{:?}", vload(*k, 0, 0, 0).0).split(['(', ' ']).next().unwrap()); if let Some(v) = v { names(v, o) } } _ => {} } }

/// The same cases in the portable build, when this is another one.
static TWIN: std::sync::Mutex<Option<(std::process::Child, std::io::BufReader<std::process::ChildStdout>)>> = std::sync::Mutex::new(None);
pub fn digests(cls: &str, seed: u64) -> String { let mut o = Obs::default(); match run(cls, seed, &mut o, false) { Ok(d) => d.iter().map(|x| format!("{x:x} ")).collect(), Err(_) => "violated".into() } }
pub fn num(cls: &str, seed: u64, o: &mut Obs) -> R {
    let d = run(cls, seed, o, false)?;
    if let Ok(exe) = std::env::var("TW_TWIN") {
        let mut t = TWIN.lock().unwrap();
        if t.is_none() { let mut c = std::process::Command::new(exe).args(["digests", cls]).stdin(std::process::Stdio::piped()).stdout(std::process::Stdio::piped()).spawn().expect("monitor: twin"); let out = std::io::BufReader::new(c.stdout.take().unwrap()); *t = Some((c, out)) }
        let (c, out) = t.as_mut().unwrap();
        writeln!(c.stdin.as_mut().unwrap(), "{seed}").expect("monitor: twin"); let mut l = String::new(); out.read_line(&mut l).expect("monitor: twin");
        assert!(!l.is_empty(), "monitor: the portable build ended");
        if l.trim() == "violated" { o.inc("judged_in_the_portable_build"); return Ok(()) }
        let mine: String = d.iter().map(|x| format!("{x:x} ")).collect();
        o.add("results_compared_with_the_portable_build", d.len() as u64);
        if l.trim() != mine.trim() { let k = l.split_whitespace().zip(mine.split_whitespace()).position(|(a, b)| a != b); let mut r = Rng::new(seed ^ 0x6e756d); let c = case(&mut r, cls); return Err(Bad { what: format!("result {k:?} of the calls differs between the build with x86 intrinsics and the portable build; functions: {}", c.fns.iter().map(|f| f.0.text.clone()).collect::<Vec<_>>().join("; ")), files: vec![("module.wasm".into(), c.bytes)] }) }
    }
    Ok(())
}
