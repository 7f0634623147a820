#![allow(unused_assignments)]
//! Random generator of valid WebAssembly modules. It tracks the operand stack exactly as validation does, so that
//! unreachable code, values carried below labels and multi-value blocks are all produced on purpose.
use crate::ops::{RELAXED, SCALAR, SIMD};
use crate::refi::{GlobalTy, Kind, MemTy, TableTy, Ty, FT};
use crate::rng::Rng;
use std::borrow::Cow;
use wasm_encoder as e;
use wasm_encoder::{Ieee32, Ieee64, Instruction as I};

/// Weights and limits. All chances are in percent.
#[derive(Clone, Debug)]
pub struct Prof {
    pub nfuncs: usize, pub budget: usize, pub depth: usize,
    pub float: bool, pub simd: u32, pub relaxed: bool, pub refs: bool, pub wide: bool,
    pub mems: usize, pub mem64: u32, pub page1: u32, pub mem_w: u32,
    pub tables: usize, pub table64: u32, pub table_w: u32,
    pub call_w: u32, pub tail: u32, pub bulk: u32, pub idiom: u32, pub ctrl: u32,
    /// chance that an operand that may trap is left unguarded
    pub trap: u32,
    pub start: u32, pub unreach: u32,
    /// chance that an active segment's offset is out of range
    pub bad_seg: u32, pub table_init: u32, pub grow: u32, pub global_w: u32,
    pub max_pages: u64,
}
impl Default for Prof {
    fn default() -> Self {
        Prof { nfuncs: 6, budget: 120, depth: 5, float: true, simd: 6, relaxed: false, refs: true, wide: true, mems: 2, mem64: 20, page1: 15, mem_w: 10, tables: 2, table64: 15, table_w: 5,
            call_w: 8, tail: 4, bulk: 4, idiom: 14, ctrl: 16, trap: 3, start: 15, unreach: 3, bad_seg: 3, table_init: 10, grow: 3, global_w: 6, max_pages: 2 }
    }
}

#[derive(Clone, Debug)]
pub enum Imp { Func(FT), Mem(MemTy), Table(TableTy), Global(GlobalTy) }
#[derive(Clone, Debug)]
pub struct Import { pub module: String, pub name: String, pub ty: Imp }
#[derive(Clone, Debug, Default)]
pub struct Shape {
    pub types: Vec<FT>, pub funcs: Vec<u32>, pub nimp: usize, pub mems: Vec<MemTy>, pub tables: Vec<TableTy>, pub globals: Vec<GlobalTy>, pub nimpg: usize, pub nimpm: usize, pub nimpt: usize,
    pub elems: Vec<(Ty, u32)>, pub datas: Vec<u32>,
    pub exports: Vec<(String, Kind, u32)>,
    pub fuel_g: Option<u32>, pub tail_g: Option<u32>,
}
impl Shape {
    pub fn fty(&self, f: u32) -> &FT { &self.types[self.funcs[f as usize] as usize] }
}

pub fn vt(t: Ty) -> e::ValType {
    match t { Ty::I32 => e::ValType::I32, Ty::I64 => e::ValType::I64, Ty::F32 => e::ValType::F32, Ty::F64 => e::ValType::F64, Ty::V128 => e::ValType::V128, Ty::Func => e::ValType::FUNCREF, Ty::Extern => e::ValType::EXTERNREF }
}
pub fn rt(t: Ty) -> e::RefType { if t == Ty::Extern { e::RefType::EXTERNREF } else { e::RefType::FUNCREF } }
pub fn ht(t: Ty) -> e::HeapType { if t == Ty::Extern { e::HeapType::EXTERN } else { e::HeapType::FUNC } }
pub fn e_mem(t: &MemTy) -> e::MemoryType { e::MemoryType { minimum: t.min, maximum: t.max, memory64: t.m64, shared: false, page_size_log2: if t.page_log2 == 16 { None } else { Some(t.page_log2) } } }
pub fn e_table(t: &TableTy) -> e::TableType { e::TableType { element_type: rt(t.elem), table64: t.t64, minimum: t.min, maximum: t.max, shared: false } }
pub fn e_global(t: &GlobalTy) -> e::GlobalType { e::GlobalType { val_type: vt(t.ty), mutable: t.mutable, shared: false } }

pub fn tys(p: &Prof, r: &mut Rng) -> Ty {
    loop {
        match r.below(100) {
            0..=44 => return Ty::I32, 45..=66 => return Ty::I64,
            67..=82 => if p.float { return if r.chance(1, 2) { Ty::F32 } else { Ty::F64 } },
            83..=91 => if p.simd > 0 { return Ty::V128 },
            _ => if p.refs { return if r.chance(2, 3) { Ty::Func } else { Ty::Extern } },
        }
    }
}
fn ftype(p: &Prof, r: &mut Rng, maxp: usize, maxr: usize) -> FT {
    let (maxp, maxr) = if maxp >= 4 && r.chance(1, 14) { (r.range(5, 40), r.range(1, 18)) } else { (maxp, maxr) };
    let np = r.below(maxp + 1); let nr = if r.chance(3, 5) { 1 } else { r.below(maxr + 1) };
    FT { params: (0..np).map(|_| tys(p, r)).collect(), results: (0..nr).map(|_| tys(p, r)).collect() }
}

pub fn konst(r: &mut Rng, t: Ty) -> I<'static> {
    match t {
        Ty::I32 => I::I32Const(r.i32v()), Ty::I64 => I::I64Const(r.i64v()),
        Ty::F32 => I::F32Const(Ieee32::new(r.f32bits())), Ty::F64 => I::F64Const(Ieee64::new(r.f64bits())),
        Ty::V128 => I::V128Const(r.v128v() as i128), Ty::Func | Ty::Extern => I::RefNull(ht(t)),
    }
}

struct Fr { height: usize, unreach: bool, label: Vec<Ty>, is_loop: bool }
pub struct FnGen<'a> {
    pub r: &'a mut Rng, s: &'a Shape, p: &'a Prof, out: Vec<I<'static>>, locals: Vec<Ty>, free_locals: usize, loopc: Vec<u32>, st: Vec<Ty>, fr: Vec<Fr>, left: i64, fidx: u32, declared: &'a [u32], in_loop: usize,
}

impl<'a> FnGen<'a> {
    fn fr(&self) -> &Fr { self.fr.last().unwrap() }
    fn dead(&self) -> bool { self.fr().unreach }
    fn empty_dead(&self) -> bool { self.fr().unreach && self.st.len() == self.fr().height }
    fn pop(&mut self, t: Ty) {
        if self.st.len() == self.fr().height { assert!(self.fr().unreach, "generator stack underflow"); return }
        let g = self.st.pop().unwrap();
        assert_eq!(g, t, "generator type mismatch");
    }
    fn em(&mut self, i: I<'static>, pops: &[Ty], pushes: &[Ty]) {
        for t in pops.iter().rev() { self.pop(*t) }
        self.st.extend_from_slice(pushes);
        self.out.push(i); self.left -= 1;
    }
    fn kill(&mut self) { let h = self.fr().height; self.st.truncate(h); self.fr.last_mut().unwrap().unreach = true; }
    fn pc(&mut self, n: u32) -> bool { self.r.chance(n as usize, 100) }

    fn open(&mut self, i: I<'static>, params: &[Ty], results: &[Ty], is_loop: bool) {
        for t in params.iter().rev() { self.pop(*t) }
        let height = self.st.len();
        self.fr.push(Fr { height, unreach: false, label: if is_loop { params.to_vec() } else { results.to_vec() }, is_loop });
        self.st.extend_from_slice(params);
        self.out.push(i); self.left -= 1;
    }
    fn close(&mut self, results: &[Ty]) {
        for t in results.iter().rev() { self.pop(*t) }
        assert_eq!(self.st.len(), self.fr().height, "values left at end");
        self.fr.pop();
        self.st.extend_from_slice(results);
        self.out.push(I::End);
    }
    fn els(&mut self, params: &[Ty], results: &[Ty]) {
        for t in results.iter().rev() { self.pop(*t) }
        assert_eq!(self.st.len(), self.fr().height);
        self.fr.last_mut().unwrap().unreach = false;
        self.st.extend_from_slice(params);
        self.out.push(I::Else);
    }
    /// block type for a signature; None if no matching type is declared
    fn bt(&self, params: &[Ty], results: &[Ty]) -> Option<e::BlockType> {
        if params.is_empty() && results.is_empty() { return Some(e::BlockType::Empty) }
        if params.is_empty() && results.len() == 1 { return Some(e::BlockType::Result(vt(results[0]))) }
        self.s.types.iter().position(|t| t.params == params && t.results == results).map(|i| e::BlockType::FunctionType(i as u32))
    }

    fn local_of(&mut self, t: Ty) -> Option<u32> {
        let c: Vec<u32> = (0..self.free_locals as u32).filter(|i| self.locals[*i as usize] == t).collect();
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    fn global_of(&mut self, t: Ty, mutable: bool) -> Option<u32> {
        let c: Vec<u32> = (0..self.s.globals.len() as u32).filter(|i| { let g = &self.s.globals[*i as usize]; g.ty == t && (!mutable || g.mutable && Some(*i) != self.s.fuel_g && Some(*i) != self.s.tail_g) }).collect();
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    fn k(&mut self, t: Ty) { let c = konst(self.r, t); self.em(c, &[], &[t]) }
    fn i32c(&mut self, v: i32) { self.em(I::I32Const(v), &[], &[Ty::I32]) }
    fn get(&mut self, l: u32) { let t = self.locals[l as usize]; self.em(I::LocalGet(l), &[], &[t]) }
    fn set(&mut self, l: u32) { let t = self.locals[l as usize]; self.em(I::LocalSet(l), &[t], &[]) }
    fn tee(&mut self, l: u32) { let t = self.locals[l as usize]; self.em(I::LocalTee(l), &[t], &[t]) }
    fn leaf(&mut self, t: Ty) {
        let x = self.r.below(100);
        if x < 58 { if let Some(l) = self.local_of(t) { return self.get(l) } }
        if x < 66 { if let Some(g) = self.global_of(t, false) { return self.em(I::GlobalGet(g), &[], &[t]) } }
        if t == Ty::Func && x < 90 && !self.declared.is_empty() { let f = *self.r.pick(self.declared); return self.em(I::RefFunc(f), &[], &[t]) }
        self.k(t)
    }

    /// leaves exactly one value of type `t`
    pub fn expr(&mut self, t: Ty, d: usize) {
        if self.empty_dead() && self.pc(40) { return }
        if d == 0 || self.left <= 0 { return self.leaf(t) }
        let mut roll = self.r.below(100) as u32;
        macro_rules! sect { ($w:expr) => {{ let w: u32 = $w; if roll < w { true } else { roll -= w; false } }} }
        if sect!(24) { return self.leaf(t) }
        if sect!(self.p.ctrl / 2) { return self.ctrl_expr(t, d - 1) }
        if sect!(self.p.mem_w) && self.load(t, d - 1) { return }
        if sect!(self.p.call_w / 2 + 1) && self.call_expr(t, d - 1) { return }
        if sect!(5) { if let Some(l) = self.local_of(t) { self.expr(t, d - 1); return self.tee(l) } }
        if sect!(4) { return self.select(t, d - 1) }
        if sect!(self.p.table_w) && self.table_expr(t, d - 1) { return }
        if sect!(self.p.idiom) && self.idiom_expr(t) { return }
        self.op_expr(t, d - 1)
    }
    fn select(&mut self, t: Ty, d: usize) {
        self.expr(t, d); self.expr(t, d); self.expr(Ty::I32, d);
        // popping order is checked by `em`; a bottom-typed select has an unknown type, so use the typed form when the operands were omitted
        if t.is_ref() || self.empty_dead() || self.pc(25) { self.em(I::TypedSelect(vt(t)), &[t, t, Ty::I32], &[t]) } else { self.em(I::Select, &[t, t, Ty::I32], &[t]) }
    }
    fn op_expr(&mut self, t: Ty, d: usize) {
        match t {
            Ty::Func | Ty::Extern => return self.leaf(t),
            Ty::V128 => return self.simd_expr(d),
            Ty::I64 if self.p.wide && self.pc(4) => {
                let i = self.r.below(4);
                if i < 2 { for _ in 0..4 { self.expr(Ty::I64, d.min(1)) } self.em(if i == 0 { I::I64Add128 } else { I::I64Sub128 }, &[Ty::I64; 4], &[Ty::I64; 2]); }
                else { for _ in 0..2 { self.expr(Ty::I64, d.min(1)) } self.em(if i == 2 { I::I64MulWideS } else { I::I64MulWideU }, &[Ty::I64; 2], &[Ty::I64; 2]); }
                if self.pc(50) { self.em(I::I64Xor, &[Ty::I64; 2], &[Ty::I64]) } else { self.em(I::Drop, &[Ty::I64], &[]) }
                return;
            }
            _ => {}
        }
        if t == Ty::I32 && self.p.refs && self.pc(3) { let r = if self.pc(60) { Ty::Func } else { Ty::Extern }; self.expr(r, d); return self.em(I::RefIsNull, &[r], &[Ty::I32]) }
        if t == Ty::I32 && !self.s.mems.is_empty() && self.pc(3) { let m = self.r.below(self.s.mems.len()); let mt = if self.s.mems[m].m64 { Ty::I64 } else { Ty::I32 }; self.em(I::MemorySize(m as u32), &[], &[mt]); if mt == Ty::I64 { self.em(I::I32WrapI64, &[mt], &[t]) } return }
        if self.p.simd > 0 && t != Ty::V128 && self.pc(self.p.simd / 2) {
            let l = self.r.u32() as u8;
            let (i, n) = match t {
                Ty::I32 => self.r.pick(&[(I::I8x16ExtractLaneS(l % 16), 0), (I::I8x16ExtractLaneU(l % 16), 0), (I::I16x8ExtractLaneS(l % 8), 0), (I::I16x8ExtractLaneU(l % 8), 0), (I::I32x4ExtractLane(l % 4), 0)]).clone(),
                Ty::I64 => (I::I64x2ExtractLane(l % 2), 0), Ty::F32 => (I::F32x4ExtractLane(l % 4), 0), _ => (I::F64x2ExtractLane(l % 2), 0),
            };
            let _: i32 = n;
            self.expr(Ty::V128, d); return self.em(i, &[Ty::V128], &[t]);
        }
        // pick a scalar op with this result; integer-only profiles avoid floats
        loop {
            let row = &SCALAR[self.r.below(SCALAR.len())];
            if row.2 != t { continue }
            if !self.p.float && row.1.iter().any(|x| matches!(x, Ty::F32 | Ty::F64)) { continue }
            // favour the common ones
            let n = row.3;
            let common = n.ends_with("Add") || n.ends_with("Sub") || n.ends_with("And") || n.ends_with("Mul") || n.ends_with("Or") || n.ends_with("Xor") || n.contains("Sh") || n[3..].starts_with("Lt") || n[3..].starts_with("Eq");
            if !common && self.pc(35) { continue }
            let div = n.ends_with("DivS") || n.ends_with("DivU") || n.ends_with("RemS") || n.ends_with("RemU");
            let trunc = n.starts_with("I32TruncF") || n.starts_with("I64TruncF");
            if trunc && !self.pc(self.p.trap * 3 + 1) { continue }
            self.expr(row.1[0], d);
            if row.1.len() == 2 {
                let rhs = row.1[1];
                if div && !self.pc(self.p.trap) { self.nonzero(rhs, d) } else { self.expr(rhs, d) }
            }
            return self.em(row.0.clone(), row.1, &[row.2]);
        }
    }
    fn nonzero(&mut self, t: Ty, d: usize) {
        if self.pc(60) { loop { let v = self.r.i64v(); if v as i32 != 0 && v != -1 && v as i32 != -1 { return if t == Ty::I32 { self.i32c(v as i32) } else { self.em(I::I64Const(v), &[], &[t]) } } } }
        self.expr(t, d);
        if t == Ty::I32 { self.i32c(1); self.em(I::I32Or, &[t, t], &[t]) } else { self.em(I::I64Const(1), &[], &[t]); self.em(I::I64Or, &[t, t], &[t]) }
    }
    fn simd_expr(&mut self, d: usize) {
        let v = Ty::V128; let l = self.r.u32() as u8;
        if self.pc(12) {
            let (i, s) = self.r.pick(&[(I::I8x16ReplaceLane(l % 16), Ty::I32), (I::I16x8ReplaceLane(l % 8), Ty::I32), (I::I32x4ReplaceLane(l % 4), Ty::I32), (I::I64x2ReplaceLane(l % 2), Ty::I64), (I::F32x4ReplaceLane(l % 4), Ty::F32), (I::F64x2ReplaceLane(l % 2), Ty::F64)]).clone();
            if self.p.float || !matches!(s, Ty::F32 | Ty::F64) { self.expr(v, d); self.expr(s, d); return self.em(i, &[v, s], &[v]) }
        }
        if self.pc(8) {
            let mut a = [0u8; 16]; for x in a.iter_mut() { *x = (self.r.u32() % 32) as u8 }
            self.expr(v, d); self.expr(v, d); return self.em(I::I8x16Shuffle(a), &[v, v], &[v]);
        }
        loop {
            let row = if self.p.relaxed && self.pc(15) { self.r.pick(RELAXED) } else { self.r.pick(SIMD) };
            if row.2 != v { continue }
            if !self.p.float && row.3.starts_with('F') { continue }
            let fused = row.3.starts_with("V128") || matches!(row.3, "I64x2Add" | "I64x2Mul");
            if !fused && self.pc(30) { continue }
            for t in row.1 { self.expr(*t, d) }
            return self.em(row.0.clone(), row.1, &[v]);
        }
    }

    // ---- memory
    fn at(&self, m: u32) -> Ty { if self.s.mems[m as usize].m64 { Ty::I64 } else { Ty::I32 } }
    fn kidx(&mut self, t: Ty, v: u64) { if t == Ty::I32 { self.i32c(v as u32 as i32) } else { self.em(I::I64Const(v as i64), &[], &[t]) } }
    fn mem_bytes(&self, m: u32) -> u64 { let t = &self.s.mems[m as usize]; t.min << t.page_log2 }
    /// a growth that must fail, whose low bits alone would make it succeed
    fn huge_mem(&mut self, m: u32) -> u64 {
        let t = &self.s.mems[m as usize]; let (l, max, m64, some) = (t.page_log2 as u32, t.max.is_some_and(|x| x <= 0x1_0000), t.m64, t.min > 0);
        let k = self.r.below(3) as u64;
        if m64 { let mut c = vec![]; if max { c.extend([(1 << 32) + k, (1 << 31) + k, (1 << 33) - 1, (1 << 40) + k, 1 << 63, u64::MAX - k]) } if some && l > 0 { c.extend([(1u64 << (64 - l)) + k, (1 << 63) + k, u64::MAX - k]) } if c.is_empty() { k } else { *self.r.pick(&c) } }
        else if max || (l == 16 && some) { *self.r.pick(&[0x1_0000 + k, 0xffff_ffff - k, 0x8000_0000 + k, 0x7fff_ffff, 0x10_0000 + k]) } else { k }
    }
    fn huge_table(&mut self, x: u32) -> u64 {
        let t = &self.s.tables[x as usize]; let k = self.r.below(3) as u64;
        let max = t.max.is_some_and(|x| x <= 0x1_0000);
        if t.t64 && max { *self.r.pick(&[(1 << 32) + k, (1 << 31) + k, (1 << 40) + k, 1 << 63, u64::MAX - k, 0x1_0000 + k]) }
        else if max { *self.r.pick(&[0xffff_ffff - k, 0x8000_0000 + k, 0x7fff_ffff, 0x1_0000 + k]) }
        else if t.min > 0 { if t.t64 { u64::MAX } else { 0xffff_ffff } } else { k }
    }
    /// static offset and an address expression for an access of `n` bytes
    fn addr(&mut self, m: u32, n: u64, d: usize) -> u64 {
        let t = self.at(m); let size = self.mem_bytes(m);
        let trap = self.p.trap;
        if self.pc(trap) || size < 64 {
            match self.r.below(4) {
                0 => { self.kidx(t, size.wrapping_sub(self.r.clone().u64() % (2 * n + 1))); let _ = self.r.u64(); return [0, 0, 1, n][self.r.below(4)] }
                1 => { self.expr(t, d); return [0, size.saturating_sub(1) & 0xffff_ffff, 0xffff_ffff, 0xffff_fff0][self.r.below(4)] }
                2 => { let v = self.r.i64v() as u64; self.kidx(t, v); return self.r.u32() as u64 & 0xffff }
                _ => { let a = size.saturating_sub(n); let o = if a > 0 { self.r.u64() % (a + 1) } else { 0 }; self.kidx(t, a - o); return o + [0, 0, 1][self.r.below(3)] }
            }
        }
        let off = if self.pc(50) { 0 } else { self.r.u64() % 24 };
        match self.r.below(10) {
            0..=2 => { let v = self.r.u64() % (size - 40).min(96); self.kidx(t, v) }
            3 => { let v = size - n - off; self.kidx(t, v) }
            4 if self.s.mems[m as usize].page_log2 == 16 => { let v = self.r.u64() % (size - 40); self.kidx(t, v) }
            5 if t == Ty::I64 && self.dead() => { self.k(t) }
            6 if self.local_of(t).is_some() && self.pc(40) => { // plain local address, may trap
                let l = self.local_of(t).unwrap();
                self.get(l); self.kidx(t, 0x3f); self.em(if t == Ty::I32 { I::I32And } else { I::I64And }, &[t, t], &[t]);
                if let Some(l2) = self.local_of(t) { self.set(l2); self.get(l2) } else { /* keep */ }
                if self.empty_dead() { self.k(t) }
            }
            _ => {
                self.expr(t, d.min(1));
                let mask = if size >= 65536 { 0x3fff } else { 0x1f };
                self.kidx(t, mask); self.em(if t == Ty::I32 { I::I32And } else { I::I64And }, &[t, t], &[t]);
            }
        }
        off
    }
    fn pick_mem(&mut self) -> Option<u32> { if self.s.mems.is_empty() { None } else { Some(self.r.below(self.s.mems.len()) as u32) } }
    fn load(&mut self, t: Ty, d: usize) -> bool {
        let Some(m) = self.pick_mem() else { return false };
        let x = self.r.below(16);
        let (n, mk): (u64, fn(e::MemArg) -> I<'static>) = match t {
            Ty::I32 => match x % 6 { 0 => (1, I::I32Load8S), 1 => (1, I::I32Load8U), 2 => (2, I::I32Load16S), 3 => (2, I::I32Load16U), _ => (4, I::I32Load) },
            Ty::I64 => match x % 9 { 0 => (1, I::I64Load8S), 1 => (1, I::I64Load8U), 2 => (2, I::I64Load16S), 3 => (2, I::I64Load16U), 4 => (4, I::I64Load32S), 5 => (4, I::I64Load32U), _ => (8, I::I64Load) },
            Ty::F32 => (4, I::F32Load), Ty::F64 => (8, I::F64Load),
            Ty::V128 => {
                if self.pc(15) {
                    let k = self.r.below(4); let n = 1u64 << k;
                    let offset = self.addr(m, n, d); self.expr(Ty::V128, d);
                    let memarg = e::MemArg { offset, align: k as u32, memory_index: m }; let lane = (self.r.u32() % (16 >> k)) as u8;
                    let i = match k { 0 => I::V128Load8Lane { memarg, lane }, 1 => I::V128Load16Lane { memarg, lane }, 2 => I::V128Load32Lane { memarg, lane }, _ => I::V128Load64Lane { memarg, lane } };
                    let at = self.at(m); self.em(i, &[at, Ty::V128], &[Ty::V128]); return true;
                }
                match x { 0 => (8, I::V128Load8x8S), 1 => (8, I::V128Load8x8U), 2 => (8, I::V128Load16x4S), 3 => (8, I::V128Load16x4U), 4 => (8, I::V128Load32x2S), 5 => (8, I::V128Load32x2U), 6 => (1, I::V128Load8Splat), 7 => (2, I::V128Load16Splat), 8 => (4, I::V128Load32Splat), 9 => (8, I::V128Load64Splat), 10 => (4, I::V128Load32Zero), 11 => (8, I::V128Load64Zero), _ => (16, I::V128Load) }
            }
            _ => return false,
        };
        let offset = self.addr(m, n, d);
        let align = if self.pc(50) { 0 } else { n.trailing_zeros() };
        let at = self.at(m); self.em(mk(e::MemArg { offset, align, memory_index: m }), &[at], &[t]);
        true
    }
    fn store(&mut self, d: usize) {
        let Some(m) = self.pick_mem() else { return };
        let mut t = tys(self.p, self.r); if t.is_ref() { t = Ty::I32 }
        let x = self.r.below(8);
        let (n, mk): (u64, fn(e::MemArg) -> I<'static>) = match t {
            Ty::I32 => match x { 0 => (1, I::I32Store8), 1 => (2, I::I32Store16), _ => (4, I::I32Store) },
            Ty::I64 => match x { 0 => (1, I::I64Store8), 1 => (2, I::I64Store16), 2 => (4, I::I64Store32), _ => (8, I::I64Store) },
            Ty::F32 => (4, I::F32Store), Ty::F64 => (8, I::F64Store),
            _ => {
                if x < 3 {
                    let k = self.r.below(4); let n = 1u64 << k;
                    let offset = self.addr(m, n, d); self.expr(Ty::V128, d);
                    let memarg = e::MemArg { offset, align: k as u32, memory_index: m }; let lane = (self.r.u32() % (16 >> k)) as u8;
                    let i = match k { 0 => I::V128Store8Lane { memarg, lane }, 1 => I::V128Store16Lane { memarg, lane }, 2 => I::V128Store32Lane { memarg, lane }, _ => I::V128Store64Lane { memarg, lane } };
                    let at = self.at(m); return self.em(i, &[at, Ty::V128], &[]);
                }
                (16, I::V128Store)
            }
        };
        let at = self.at(m);
        // local address and local value form
        if self.pc(30) { if let (Some(a), Some(v)) = (self.local_of(at), self.local_of(t)) {
            if self.pc(70) { self.kidx(at, 8 * (x as u64)); self.set(a) }
            self.get(a); self.get(v);
            let align = 0; return self.em(mk(e::MemArg { offset: x as u64, align, memory_index: m }), &[at, t], &[]);
        } }
        let offset = self.addr(m, n, d);
        self.expr(t, d);
        let align = if self.pc(50) { 0 } else { n.trailing_zeros() };
        self.em(mk(e::MemArg { offset, align, memory_index: m }), &[at, t], &[]);
    }
    /// an in-range (usually) length / index operand
    fn idx(&mut self, t: Ty, size: u64, d: usize) {
        if self.pc(self.p.trap) { match self.r.below(3) { 0 => self.expr(t, d), 1 => { let v = self.r.i64v() as u64; self.kidx(t, v) } _ => { let v = size.wrapping_add(self.r.below(3) as u64).wrapping_sub(1); self.kidx(t, v) } } return }
        if size >= 8 && self.pc(45) {
            let mask = (size.next_power_of_two() / 2 - 1).min(0xff);
            self.expr(t, d.min(1)); self.kidx(t, mask); return self.em(if t == Ty::I32 { I::I32And } else { I::I64And }, &[t, t], &[t]);
        }
        let v = if size == 0 { 0 } else { self.r.u64() % size.min(4096) }; self.kidx(t, v)
    }
    /// a range within `size` bytes
    fn span(&mut self, size: u64) -> (u64, u64) {
        let j = self.r.below(4) as u64; let p = 1u64 << self.r.range(3, 17);
        let a = match self.r.below(6) { 0 => 0, 1 => p, 2 => p - j, 3 => p + j, 4 => size.saturating_sub(self.r.below(300) as u64), _ => self.r.u64() % (size + 1) };
        let a = if a > size { self.r.u64() % (size + 1) } else { a };
        let p = 1u64 << self.r.range(3, 16);
        let n = match self.r.below(6) { 0 => 0, 1 => self.r.below(300) as u64, 2 => size - a, 3 => p, 4 => p + j, _ => self.r.u64() % (size - a + 1) };
        (a, n.min(size - a))
    }
    fn bulk(&mut self, d: usize) {
        let Some(m) = self.pick_mem() else { return };
        let at = self.at(m); let size = self.mem_bytes(m);
        if self.pc(22) {
            // long ranges, from the start, up to the end, around powers of two
            let (a, n) = self.span(size);
            if self.pc(50) {
                let a = if self.pc(6) { size.saturating_sub(n) + 1 + self.r.u64() % 70 } else { a }; self.kidx(at, a); let v = *self.r.pick(&[0, 0, 1, 255, 256, -1]); self.i32c(v); self.kidx(at, n); return self.em(I::MemoryFill(m), &[at, Ty::I32, at], &[])
            }
            let s = if self.pc(70) { m } else { self.pick_mem().unwrap() }; let st = self.at(s); let ssz = self.mem_bytes(s);
            let b = if s == m { let k = 1 + self.r.u64() % (n + 2); let b = if self.pc(50) { a.saturating_sub(k) } else { a + k }; if self.pc(60) { b } else { b & !7 } } else { self.span(ssz).0 };
            let n = if self.pc(90) { n.min(ssz.saturating_sub(b)).min(size - a) } else { n };
            // in a few, one of the ranges alone runs over the end, by a little or by much
            let over = |r: &mut Rng, x: u64, end: u64| { let left = end.saturating_sub(x.saturating_add(n)); x + left + 1 + r.u64() % [1, 8, 5000, n.max(1)][r.below(4)] };
            let (a, b) = match self.r.below(16) { 0 => (over(self.r, a, size), b), 1 => (a, over(self.r, b, ssz)), _ => (a, b) };
            let nt = if at == Ty::I64 && st == Ty::I64 { Ty::I64 } else { Ty::I32 };
            self.kidx(at, a); self.kidx(st, b); self.kidx(nt, n);
            return self.em(I::MemoryCopy { src_mem: s, dst_mem: m }, &[at, st, nt], &[]);
        }
        match self.r.below(10) {
            0..=2 => { self.idx(at, size / 2, d); if self.pc(40) { let v = self.r.i32v(); self.i32c(v) } else { self.expr(Ty::I32, d) } self.idx(at, (size / 2).min(200), d); self.em(I::MemoryFill(m), &[at, Ty::I32, at], &[]) }
            3..=5 => {
                let s = self.pick_mem().unwrap(); let st = self.at(s); let ssz = self.mem_bytes(s);
                self.idx(at, size / 2, d); self.idx(st, ssz / 2, d);
                let nt = if at == Ty::I64 && st == Ty::I64 { Ty::I64 } else { Ty::I32 };
                self.idx(nt, (size.min(ssz) / 2).min(200), d);
                self.em(I::MemoryCopy { src_mem: s, dst_mem: m }, &[at, st, nt], &[]);
            }
            6 | 7 => if !self.s.datas.is_empty() {
                let x = self.r.below(self.s.datas.len()); let l = self.s.datas[x] as u64;
                self.idx(at, size / 2, d);
                if self.pc(60) { let a = self.r.below(l as usize + 1) as u64; self.kidx(Ty::I32, a); let n = self.r.below((l - a) as usize + 1) as u64; self.kidx(Ty::I32, n) } else { self.idx(Ty::I32, l, d); self.idx(Ty::I32, l, d) }
                self.em(I::MemoryInit { mem: m, data_index: x as u32 }, &[at, Ty::I32, Ty::I32], &[]);
            },
            8 => if !self.s.datas.is_empty() && self.pc(40) { let x = self.r.below(self.s.datas.len()); self.em(I::DataDrop(x as u32), &[], &[]) },
            _ => if self.pc(self.p.grow * 10) {
                let n = if self.pc(12) { self.huge_mem(m) } else { self.r.below(3) as u64 }; self.kidx(at, n); self.em(I::MemoryGrow(m), &[at], &[at]); self.sink(at);
            },
        }
    }
    /// consumes the top value
    fn sink(&mut self, t: Ty) {
        if self.empty_dead() { return }
        match self.r.below(3) {
            0 => if let Some(l) = self.local_of(t) { return self.set(l) },
            1 => if let Some(g) = self.global_of(t, true) { return self.em(I::GlobalSet(g), &[t], &[]) },
            _ => {}
        }
        self.em(I::Drop, &[t], &[])
    }

    // ---- tables
    fn table_with(&mut self, t: Option<Ty>) -> Option<u32> {
        let c: Vec<u32> = (0..self.s.tables.len() as u32).filter(|i| t.is_none_or(|t| self.s.tables[*i as usize].elem == t)).collect();
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    fn tt(&self, x: u32) -> Ty { if self.s.tables[x as usize].t64 { Ty::I64 } else { Ty::I32 } }
    fn table_expr(&mut self, t: Ty, d: usize) -> bool {
        if t.is_ref() { if let Some(x) = self.table_with(Some(t)) { let it = self.tt(x); let sz = self.s.tables[x as usize].min; self.idx(it, sz, d); self.em(I::TableGet(x), &[it], &[t]); return true } return false }
        if t == Ty::I32 || t == Ty::I64 {
            let Some(x) = self.table_with(None) else { return false };
            if self.tt(x) != t { return false }
            if self.pc(60) { self.em(I::TableSize(x), &[], &[t]); }
            else if self.pc(self.p.grow * 10) { let et = self.s.tables[x as usize].elem; self.expr(et, d.min(1)); let n = if self.pc(12) { self.huge_table(x) } else { self.r.below(3) as u64 }; self.kidx(t, n); self.em(I::TableGrow(x), &[et, t], &[t]) }
            else { return false }
            return true;
        }
        false
    }
    fn table_stmt(&mut self, d: usize) {
        let Some(x) = self.table_with(None) else { return };
        let (it, et, sz) = (self.tt(x), self.s.tables[x as usize].elem, self.s.tables[x as usize].min);
        match self.r.below(8) {
            0..=2 => { self.idx(it, sz, d); self.expr(et, d.min(2)); self.em(I::TableSet(x), &[it, et], &[]) }
            3 => { self.idx(it, sz, d); self.expr(et, d.min(2)); self.idx(it, sz / 2 + 1, d); self.em(I::TableFill(x), &[it, et, it], &[]) }
            4 | 5 => {
                let y = self.table_with(Some(et)).unwrap(); let yt = self.tt(y); let ysz = self.s.tables[y as usize].min;
                self.idx(it, sz / 2 + 1, d); self.idx(yt, ysz / 2 + 1, d);
                let nt = if it == Ty::I64 && yt == Ty::I64 { Ty::I64 } else { Ty::I32 };
                self.idx(nt, sz.min(ysz) / 2 + 1, d);
                self.em(I::TableCopy { src_table: y, dst_table: x }, &[it, yt, nt], &[]);
            }
            6 => {
                let c: Vec<usize> = (0..self.s.elems.len()).filter(|i| self.s.elems[*i].0 == et).collect();
                if c.is_empty() { return }
                let k = *self.r.pick(&c); let l = self.s.elems[k].1 as u64;
                self.idx(it, sz / 2 + 1, d);
                if self.pc(60) { let a = self.r.below(l as usize + 1) as u64; self.kidx(Ty::I32, a); let n = self.r.below((l - a) as usize + 1) as u64; self.kidx(Ty::I32, n) } else { self.idx(Ty::I32, l, d); self.idx(Ty::I32, l, d) }
                self.em(I::TableInit { elem_index: k as u32, table: x }, &[it, Ty::I32, Ty::I32], &[]);
            }
            _ => if !self.s.elems.is_empty() && self.pc(40) { let k = self.r.below(self.s.elems.len()) as u32; self.em(I::ElemDrop(k), &[], &[]) },
        }
    }

    // ---- calls
    fn args(&mut self, p: &[Ty], d: usize) { for t in p { self.expr(*t, d) } }
    fn callee(&mut self, want: Option<Ty>) -> Option<u32> {
        let n = self.s.funcs.len() as u32;
        let c: Vec<u32> = (0..n).filter(|f| (*f < self.s.nimp as u32 || *f > self.fidx) && want.is_none_or(|t| self.s.fty(*f).results.first() == Some(&t))).collect();
        if c.is_empty() { None } else { Some(*self.r.pick(&c)) }
    }
    /// drops all but the first of `rs` from the stack
    fn keep_first(&mut self, rs: &[Ty]) { for t in rs[1..].iter().rev() { self.sink(*t) } }
    fn call_expr(&mut self, t: Ty, d: usize) -> bool {
        if self.in_loop > 2 { return false }
        if self.pc(30) && self.indirect(Some(t), d) { return true }
        let Some(f) = self.callee(Some(t)) else { return false };
        let ft = self.s.fty(f).clone();
        self.args(&ft.params, d.min(2));
        self.em(I::Call(f), &ft.params, &ft.results);
        self.keep_first(&ft.results);
        true
    }
    /// call_indirect (or a possibly recursive direct call) guarded by a depth counter kept in a global
    fn indirect(&mut self, want: Option<Ty>, d: usize) -> bool {
        let Some(g) = self.s.fuel_g else { return false };
        let c: Vec<u32> = (0..self.s.funcs.len() as u32).filter(|f| want.is_none_or(|t| self.s.fty(*f).results.first() == Some(&t))).collect();
        if c.is_empty() { return false }
        let f = *self.r.pick(&c);
        let ti = self.s.funcs[f as usize]; let ft = self.s.types[ti as usize].clone();
        let tb = self.table_with(Some(Ty::Func));
        let direct = tb.is_none() || self.pc(25);
        let gd = |s: &mut Self, op: I<'static>| { s.em(I::GlobalGet(g), &[], &[Ty::I32]); s.i32c(1); s.em(op, &[Ty::I32; 2], &[Ty::I32]); s.em(I::GlobalSet(g), &[Ty::I32], &[]) };
        gd(self, I::I32Sub);
        self.em(I::GlobalGet(g), &[], &[Ty::I32]); self.i32c(0); self.em(I::I32GtS, &[Ty::I32; 2], &[Ty::I32]);
        let res: Vec<Ty> = want.into_iter().collect();
        let bt = self.bt(&[], &res).unwrap();
        self.pop(Ty::I32);
        self.open(I::If(bt), &[], &res, false);
        self.args(&ft.params, d.min(1));
        if direct { self.em(I::Call(f), &ft.params, &ft.results); }
        else {
            let tb = tb.unwrap(); let it = self.tt(tb); let sz = self.s.tables[tb as usize].min;
            self.idx(it, sz, 1);
            let mut pops = ft.params.clone(); pops.push(it);
            self.em(I::CallIndirect { type_index: ti, table_index: tb }, &pops, &ft.results);
        }
        if want.is_some() { self.keep_first(&ft.results) } else { for t in ft.results.iter().rev() { self.sink(*t) } }
        if want.is_some() { self.els(&[], &res); for t in &res { self.leaf(*t) } }
        self.close(&res);
        gd(self, I::I32Add);
        true
    }
    fn call_stmt(&mut self, d: usize) {
        if self.in_loop > 2 { return }
        if self.pc(30) && self.indirect(None, d) { return }
        let Some(f) = self.callee(None) else { return };
        let ft = self.s.fty(f).clone();
        self.args(&ft.params, d.min(2));
        self.em(I::Call(f), &ft.params, &ft.results);
        for t in ft.results.iter().rev() { self.sink(*t) }
    }
    fn tail(&mut self, d: usize) {
        let res = self.fr[0].label.clone();
        let c: Vec<u32> = (0..self.s.funcs.len() as u32).filter(|f| self.s.fty(*f).results == res).collect();
        if c.is_empty() { return }
        let f = *self.r.pick(&c); let ti = self.s.funcs[f as usize]; let ft = self.s.types[ti as usize].clone();
        let tb = self.table_with(Some(Ty::Func));
        let direct = tb.is_none() || self.pc(60);
        let free = direct && (f > self.fidx || f < self.s.nimp as u32);
        let g = self.s.tail_g;
        if !free && g.is_none() { return }
        if !free { let g = g.unwrap(); self.em(I::GlobalGet(g), &[], &[Ty::I32]); self.i32c(0); self.em(I::I32GtS, &[Ty::I32; 2], &[Ty::I32]); } else { self.expr(Ty::I32, d.min(2)); }
        self.pop(Ty::I32);
        self.open(I::If(e::BlockType::Empty), &[], &[], false);
        if !free { let g = g.unwrap(); self.em(I::GlobalGet(g), &[], &[Ty::I32]); self.i32c(1); self.em(I::I32Sub, &[Ty::I32; 2], &[Ty::I32]); self.em(I::GlobalSet(g), &[Ty::I32], &[]); }
        if self.pc(30) { let t = tys(self.p, self.r); self.leaf(t) } // junk below the arguments
        self.args(&ft.params, d.min(1));
        if direct { self.em(I::ReturnCall(f), &ft.params, &[]) }
        else { let tb = tb.unwrap(); let it = self.tt(tb); let sz = self.s.tables[tb as usize].min; self.idx(it, sz, 1); let mut pops = ft.params.clone(); pops.push(it); self.em(I::ReturnCallIndirect { type_index: ti, table_index: tb }, &pops, &[]) }
        self.kill();
        self.close(&[]);
    }

    // ---- control
    fn body(&mut self, n: usize, d: usize) { for _ in 0..n { if self.left <= 0 { break } self.stmt(d) } }
    fn results(&mut self, rs: &[Ty], d: usize) { for t in rs { self.expr(*t, d) } }
    /// conditional or unconditional branch to a random label, leaving the stack balanced
    fn branch(&mut self, d: usize) {
        let n = self.fr.len();
        let l = if self.pc(60) { self.r.below(n.min(3)) } else { self.r.below(n) };
        let fr = &self.fr[n - 1 - l];
        if fr.is_loop { return } // loops are only re-entered through their counters
        let ts = fr.label.clone();
        match self.r.below(12) {
            0 => { if self.pc(40) { let t = tys(self.p, self.r); self.leaf(t) } self.results(&ts, d); self.em(I::Br(l as u32), &ts, &[]); self.kill() }
            1 => { let rs = self.fr[0].label.clone(); if self.pc(40) { let t = tys(self.p, self.r); self.leaf(t) } self.results(&rs, d); self.em(I::Return, &rs, &[]); self.kill() }
            2 => {
                // br_table over labels of equal type
                let c: Vec<u32> = (0..n as u32).filter(|i| { let f = &self.fr[n - 1 - *i as usize]; !f.is_loop && f.label == ts }).collect();
                let k = self.r.below(5); let v: Vec<u32> = (0..k).map(|_| *self.r.pick(&c)).collect(); let def = *self.r.pick(&c);
                self.results(&ts, d); self.expr(Ty::I32, d);
                let mut pops = ts.clone(); pops.push(Ty::I32);
                self.em(I::BrTable(Cow::Owned(v), def), &pops, &[]); self.kill();
            }
            _ => {
                self.results(&ts, d.min(2)); self.cond(d.min(2));
                let mut pops = ts.clone(); pops.push(Ty::I32);
                self.em(I::BrIf(l as u32), &pops, &ts);
                for t in ts.iter().rev() { self.sink(*t) }
            }
        }
    }
    fn cond(&mut self, d: usize) {
        let t = if self.pc(60) { Ty::I32 } else { Ty::I64 };
        let (eqz, ne): (I<'static>, &[I<'static>]) = if t == Ty::I32 { (I::I32Eqz, &[I::I32Eq, I::I32Ne, I::I32LtS, I::I32LtU, I::I32GtS, I::I32GtU, I::I32LeS, I::I32LeU, I::I32GeS, I::I32GeU]) } else { (I::I64Eqz, &[I::I64Eq, I::I64Ne, I::I64LtS, I::I64LtU, I::I64GtS, I::I64GtU, I::I64LeS, I::I64LeU, I::I64GeS, I::I64GeU]) };
        match self.r.below(8) {
            0 => { self.expr(Ty::I32, d) }
            1 => { self.expr(t, d); self.em(eqz, &[t], &[Ty::I32]) }
            2 => { self.expr(t, d); self.em(eqz, &[t], &[Ty::I32]); self.em(I::I32Eqz, &[Ty::I32], &[Ty::I32]) }
            3 | 4 => { self.leaf(t); self.leaf(t); let i = self.r.pick(ne).clone(); self.em(i, &[t, t], &[Ty::I32]) }
            5 => { self.expr(t, d); self.kidx(t, self.r.clone().below(3) as u64); let _ = self.r.u64(); let i = self.r.pick(ne).clone(); self.em(i, &[t, t], &[Ty::I32]) }
            _ => { self.expr(t, d); self.expr(t, d); let i = self.r.pick(ne).clone(); self.em(i, &[t, t], &[Ty::I32]) }
        }
        if self.pc(8) && !self.empty_dead() { self.em(I::I32Eqz, &[Ty::I32], &[Ty::I32]) }
    }
    /// a block-like expression leaving `t`
    fn ctrl_expr(&mut self, t: Ty, d: usize) {
        if self.fr.len() > 12 { return self.leaf(t) }
        // candidate signatures whose first result is t
        let sigs: Vec<FT> = self.s.types.iter().filter(|f| f.results.first() == Some(&t) && f.params.len() <= 3 && f.results.len() <= 3).cloned().collect();
        let sig = if !sigs.is_empty() && self.pc(35) { self.r.pick(&sigs).clone() } else { FT { params: vec![], results: vec![t] } };
        let bt = self.bt(&sig.params, &sig.results).unwrap();
        let kind = self.r.below(10);
        self.results(&sig.params, d.min(2));
        let n = self.r.below(3);
        match kind {
            0..=4 => {
                self.open(I::Block(bt), &sig.params, &sig.results, false);
                self.use_params(&sig.params);
                self.body(n, d);
                if self.pc(50) { // conditional early exit with values
                    self.results(&sig.results, d.min(1)); self.cond(d.min(1));
                    let mut pops = sig.results.clone(); pops.push(Ty::I32);
                    self.em(I::BrIf(0), &pops, &sig.results.clone());
                    for t in sig.results.iter().rev() { self.sink(*t) }
                }
                self.results(&sig.results, d);
                self.close(&sig.results);
            }
            5..=8 => {
                self.cond(d.min(2)); self.pop(Ty::I32);
                // parameters stay below the condition
                self.open(I::If(bt), &sig.params, &sig.results, false);
                self.use_params(&sig.params); self.body(n, d); self.results(&sig.results, d);
                self.els(&sig.params, &sig.results);
                self.use_params(&sig.params); self.body(n, d); self.results(&sig.results, d);
                self.close(&sig.results);
            }
            _ => {
                self.open(I::Loop(bt), &sig.params, &sig.results, true);
                self.use_params(&sig.params); self.body(n, d); self.results(&sig.results, d);
                self.close(&sig.results);
            }
        }
        self.keep_first(&sig.results);
    }
    fn use_params(&mut self, ps: &[Ty]) { for t in ps.iter().rev() { if self.pc(30) { if let Some(l) = self.local_of(*t) { self.tee(l) } } self.sink(*t) } }
    fn loop_stmt(&mut self, d: usize) {
        if self.in_loop >= self.loopc.len() || self.fr.len() > 10 { return }
        let c = self.loopc[self.in_loop];
        let wide = self.locals[c as usize] == Ty::I64;
        let ct = self.locals[c as usize];
        let iters = self.r.range(1, if self.in_loop == 0 { 9 } else { 4 }) as u64;
        let up = self.pc(40);
        self.kidx(ct, if up { 0 } else { iters }); self.set(c);
        // optionally carry a value through the loop as a parameter
        let carry = if self.pc(30) { let ts: Vec<FT> = self.s.types.iter().filter(|f| f.params.len() == 1 && f.params == f.results).cloned().collect(); if ts.is_empty() { None } else { Some(self.r.pick(&ts).params[0]) } } else { None };
        let cv: Vec<Ty> = carry.into_iter().collect();
        let outer = self.pc(25);
        if outer { self.open(I::Block(e::BlockType::Empty), &[], &[], false); }
        self.results(&cv, d.min(1));
        let bt = self.bt(&cv, &cv).unwrap();
        self.open(I::Loop(bt), &cv, &cv, true);
        self.in_loop += 1;
        if let Some(t) = carry { if self.pc(50) { self.sink(t); self.expr(t, d.min(2)) } else if !self.empty_dead() { match t { Ty::I32 => { self.expr(t, 1); self.em(I::I32Add, &[t, t], &[t]) } Ty::I64 => { self.expr(t, 1); self.em(I::I64Xor, &[t, t], &[t]) } _ => { self.sink(t); self.expr(t, 1) } } } else { self.k(t) } }
        let n = self.r.range(1, 4); self.body(n, d);
        let (add, sub) = if wide { (I::I64Add, I::I64Sub) } else { (I::I32Add, I::I32Sub) };
        if !self.dead() || self.pc(50) {
            if self.empty_dead() && !cv.is_empty() { self.k(cv[0]) }
            // back edge
            if up {
                self.get(c); self.kidx(ct, 1); self.em(add, &[ct, ct], &[ct]);
                if self.pc(50) { self.tee(c) } else { self.set(c); self.get(c) }
                self.kidx(ct, iters);
                let f = self.r.below(4); let i = if wide { [I::I64LtS, I::I64LtU, I::I64Ne, I::I64LtS][f].clone() } else { [I::I32LtS, I::I32LtU, I::I32Ne, I::I32LtS][f].clone() };
                self.em(i, &[ct, ct], &[Ty::I32]);
            } else {
                self.get(c);
                if self.pc(50) { self.kidx(ct, 1); self.em(sub, &[ct, ct], &[ct]); } else { self.kidx(ct, u64::MAX); self.em(add, &[ct, ct], &[ct]); }
                if self.pc(50) { self.tee(c) } else { self.set(c); self.get(c) }
                match self.r.below(3) {
                    0 => { if wide { self.em(I::I64Eqz, &[ct], &[Ty::I32]); self.em(I::I32Eqz, &[Ty::I32], &[Ty::I32]) } }
                    1 => { self.kidx(ct, 0); self.em(if wide { I::I64Ne } else { I::I32Ne }, &[ct, ct], &[Ty::I32]) }
                    _ => { self.kidx(ct, 0); self.em(if wide { I::I64GtS } else { I::I32GtS }, &[ct, ct], &[Ty::I32]) }
                }
                if wide && self.st.last() == Some(&Ty::I64) { self.em(I::I64Eqz, &[ct], &[Ty::I32]); self.em(I::I32Eqz, &[Ty::I32], &[Ty::I32]) }
            }
            let mut pops = cv.clone(); pops.push(Ty::I32);
            self.em(I::BrIf(0), &pops, &cv);
        }
        self.in_loop -= 1;
        self.close(&cv);
        for t in &cv { self.sink(*t) }
        if outer { self.close(&[]); }
    }

    pub fn stmt(&mut self, d: usize) {
        if self.left <= 0 { return }
        let d1 = d.saturating_sub(1);
        let mut roll = self.r.below(100) as u32;
        macro_rules! sect { ($w:expr) => {{ let w: u32 = $w; if roll < w { true } else { roll -= w; false } }} }
        if sect!(self.p.mem_w) { return self.store(d1) }
        if sect!(self.p.bulk) { return self.bulk(d1.min(2)) }
        if sect!(self.p.table_w) { return self.table_stmt(d1.min(2)) }
        if sect!(self.p.call_w) { return self.call_stmt(d1) }
        if sect!(self.p.tail) { return self.tail(d1) }
        if sect!(self.p.global_w) { let t = tys(self.p, self.r); if let Some(g) = self.global_of(t, true) { self.expr(t, d1); return self.em(I::GlobalSet(g), &[t], &[]) } }
        if sect!(self.p.idiom) { return self.idiom_stmt() }
        if d > 0 && self.fr.len() < 10 {
            if sect!(self.p.ctrl / 4) { return self.loop_stmt(d1) }
            if sect!(self.p.ctrl / 3) {
                self.cond(d1.min(2)); self.pop(Ty::I32);
                self.open(I::If(e::BlockType::Empty), &[], &[], false);
                let n = self.r.range(1, 3); self.body(n, d1);
                if self.pc(50) { self.els(&[], &[]); let n = self.r.below(3); self.body(n, d1) }
                return self.close(&[]);
            }
            if sect!(self.p.ctrl / 3) { self.open(I::Block(e::BlockType::Empty), &[], &[], false); let n = self.r.range(1, 4); self.body(n, d1); return self.close(&[]) }
        }
        if sect!(self.p.ctrl / 3) { if self.fr.len() > 1 || self.pc(10) { return self.branch(d1.min(2)) } }
        if sect!(self.p.unreach) && self.fr.len() > 2 && self.pc(30) { self.em(I::Unreachable, &[], &[]); return self.kill() }
        match self.r.below(20) {
            0 => self.em(I::Nop, &[], &[]),
            1 | 2 => { let t = tys(self.p, self.r); self.expr(t, d1); if !self.empty_dead() || self.pc(50) { self.em(I::Drop, &[t], &[]) } }
            _ => {
                let t = self.locals.get(self.r.below(self.free_locals.max(1))).copied().unwrap_or(Ty::I32);
                if let Some(l) = self.local_of(t) { self.expr(t, d1); if self.pc(20) { self.tee(l); self.sink(t) } else { self.set(l) } }
                else { self.expr(t, d1); self.em(I::Drop, &[t], &[]) }
            }
        }
    }

    // ---- shapes that the parser rewrites
    fn two(&mut self, t: Ty) -> Option<(u32, u32)> { let a = self.local_of(t)?; let b = self.local_of(t)?; Some((a, b)) }
    fn arith(&mut self, t: Ty) -> I<'static> {
        match t {
            Ty::I32 => self.r.pick(&[I::I32Add, I::I32Sub, I::I32Mul, I::I32And, I::I32Or, I::I32Xor, I::I32Shl, I::I32ShrS, I::I32ShrU, I::I32Rotl, I::I32Rotr]).clone(),
            Ty::I64 => self.r.pick(&[I::I64Add, I::I64Sub, I::I64Mul, I::I64And, I::I64Or, I::I64Xor, I::I64Shl, I::I64ShrS, I::I64ShrU, I::I64Rotl, I::I64Rotr]).clone(),
            Ty::F32 => self.r.pick(&[I::F32Add, I::F32Sub, I::F32Mul, I::F32Div, I::F32Min, I::F32Max, I::F32Copysign]).clone(),
            Ty::F64 => self.r.pick(&[I::F64Add, I::F64Sub, I::F64Mul, I::F64Div, I::F64Min, I::F64Max, I::F64Copysign]).clone(),
            _ => self.r.pick(&[I::V128And, I::V128AndNot, I::V128Or, I::V128Xor, I::I64x2Add, I::I64x2Mul]).clone(),
        }
    }
    fn num_ty(&mut self) -> Ty { loop { let t = tys(self.p, self.r); if !t.is_ref() { return t } } }
    fn idiom_expr(&mut self, t: Ty) -> bool {
        if t.is_ref() { return false }
        match self.r.below(14) {
            0 | 1 => { let Some((a, b)) = self.two(t) else { return false }; self.get(a); self.get(b); let i = self.arith(t); self.em(i, &[t, t], &[t]) }
            2 | 3 => { let Some(a) = self.local_of(t) else { return false }; self.get(a); self.k(t); let i = self.arith(t); self.em(i, &[t, t], &[t]) }
            4 => { let Some(a) = self.local_of(t) else { return false }; self.k(t); self.get(a); let i = self.arith(t); self.em(i, &[t, t], &[t]) }
            5 => { // stack op global
                let Some(g) = self.global_of(t, false) else { return false }; self.expr(t, 1); self.em(I::GlobalGet(g), &[], &[t]); let i = self.arith(t); self.em(i, &[t, t], &[t]) }
            6 => { // add3
                if t != Ty::I32 && t != Ty::I64 { return false } let i = if t == Ty::I32 { I::I32Add } else { I::I64Add };
                if self.pc(50) { self.expr(t, 1); self.expr(t, 1); self.expr(t, 1); self.em(i.clone(), &[t, t], &[t]); self.em(i, &[t, t], &[t]) } else { self.expr(t, 1); self.expr(t, 1); self.em(i.clone(), &[t, t], &[t]); self.expr(t, 1); self.em(i, &[t, t], &[t]) } }
            7 => { // multiply-accumulate
                let (mul, add) = match t { Ty::I32 => (I::I32Mul, I::I32Add), Ty::I64 => (I::I64Mul, I::I64Add), Ty::F32 => (I::F32Mul, I::F32Add), Ty::F64 => (I::F64Mul, I::F64Add), _ => return false };
                let order = self.pc(50); if order { self.leaf(t) }
                self.leaf(t); self.leaf(t); self.em(mul, &[t, t], &[t]); if !order { self.leaf(t) } self.em(add, &[t, t], &[t]) }
            8 => { // and / sub const tee
                let Some(l) = self.local_of(t) else { return false }; let i = match t { Ty::I32 => self.r.pick(&[I::I32And, I::I32Sub, I::I32Add]).clone(), Ty::I64 => self.r.pick(&[I::I64And, I::I64Sub, I::I64Add]).clone(), _ => return false };
                self.expr(t, 1); self.k(t); self.em(i, &[t, t], &[t]); self.tee(l) }
            9 => { // shift pairs (sign extension patterns)
                let (shl, shr, bits, max) = match t { Ty::I32 => (I::I32Shl, if self.pc(70) { I::I32ShrS } else { I::I32ShrU }, 32u64, 40), Ty::I64 => (I::I64Shl, if self.pc(70) { I::I64ShrS } else { I::I64ShrU }, 64, 70), _ => return false };
                let a = if self.pc(70) { *self.r.pick(&[8, 16, 24, 32, 48, 56]) % (bits + 8) } else { self.r.u64() % max };
                let b = if self.pc(70) { a } else { self.r.u64() % max };
                self.expr(t, 1); self.kidx(t, a); self.em(shl, &[t, t], &[t]); self.kidx(t, b); self.em(shr, &[t, t], &[t]) }
            10 => { // load tee / narrow loads masked
                if self.s.mems.is_empty() { return false } let Some(l) = self.local_of(t) else { return false }; if !self.load(t, 1) { return false } self.tee(l) }
            11 => { // tee after a block
                let Some(l) = self.local_of(t) else { return false };
                self.open(I::Block(e::BlockType::Result(vt(t))), &[], &[t], false);
                self.leaf(t); self.cond(1); self.em(I::BrIf(0), &[t, Ty::I32], &[t]); self.em(I::Drop, &[t], &[]); self.leaf(t);
                self.close(&[t]); self.tee(l) }
            12 => { // wrap / extend chains, double eqz
                match t { Ty::I32 => { self.expr(Ty::I64, 1); self.em(I::I32WrapI64, &[Ty::I64], &[t]); }
                    Ty::I64 => { self.expr(Ty::I32, 1); let i = if self.pc(50) { I::I64ExtendI32S } else { I::I64ExtendI32U }; self.em(i, &[Ty::I32], &[t]); if self.pc(40) { let i = self.r.pick(&[I::I64Extend8S, I::I64Extend16S, I::I64Extend32S]).clone(); self.em(i, &[t], &[t]) } }
                    _ => return false } }
            _ => { // identity operations
                let (z, i) = match t { Ty::I32 => (I::I32Const(*self.r.pick(&[0, 1, -1, 32])), self.arith(t)), Ty::I64 => (I::I64Const(*self.r.pick(&[0, 1, -1, 64])), self.arith(t)), Ty::F32 => (I::F32Const(Ieee32::new(*self.r.pick(&[0, 0x8000_0000, 0x3f80_0000]))), self.arith(t)), Ty::F64 => (I::F64Const(Ieee64::new(*self.r.pick(&[0, 1 << 63, 0x3ff0_0000_0000_0000]))), self.arith(t)), _ => return false };
                if self.pc(50) { self.expr(t, 1); self.em(z, &[], &[t]) } else { self.em(z, &[], &[t]); self.expr(t, 1) } self.em(i, &[t, t], &[t]) }
        }
        true
    }
    fn idiom_stmt(&mut self) {
        let t = self.num_ty();
        match self.r.below(12) {
            0 => { if let Some((a, b)) = self.two(t) { self.get(a); self.set(b) } }
            1 => { if let Some(a) = self.local_of(t) { self.k(t); self.set(a) } }
            2 => { if let (Some((a, b)), Some(c)) = (self.two(t), self.local_of(t)) { self.get(a); self.get(b); let i = self.arith(t); self.em(i, &[t, t], &[t]); if self.pc(50) { self.set(c) } else { self.tee(c); self.sink(t) } } }
            3 => { if let (Some(a), Some(c)) = (self.local_of(t), self.local_of(t)) { self.get(a); self.k(t); let i = self.arith(t); self.em(i, &[t, t], &[t]); if self.pc(50) { self.set(c) } else { self.tee(c); self.sink(t) } } }
            4 => { // acc += a * b
                let (mul, add) = match t { Ty::I32 => (I::I32Mul, I::I32Add), Ty::I64 => (I::I64Mul, I::I64Add), Ty::F32 => (I::F32Mul, I::F32Add), Ty::F64 => (I::F64Mul, I::F64Add), _ => return };
                if let (Some((a, b)), Some(c)) = (self.two(t), self.local_of(t)) {
                    if self.pc(50) { self.get(c); self.get(a); self.get(b); self.em(mul, &[t, t], &[t]); self.em(add, &[t, t], &[t]); } else { self.get(a); self.get(b); self.em(mul, &[t, t], &[t]); self.get(c); self.em(add, &[t, t], &[t]); }
                    if self.pc(70) { self.set(c) } else { let o = self.local_of(t).unwrap(); self.set(o) }
                } }
            5 => { // memory[x] += k
                if let Some(m) = self.pick_mem() {
                    let at = self.at(m); if self.mem_bytes(m) < 256 { return }
                    let Some(a) = self.local_of(at) else { return };
                    let (ld, stw, add, t): (fn(e::MemArg) -> I<'static>, fn(e::MemArg) -> I<'static>, I<'static>, Ty) = if self.pc(60) { (I::I32Load, I::I32Store, I::I32Add, Ty::I32) } else { (I::I64Load, I::I64Store, I::I64Add, Ty::I64) };
                    let o = self.r.u64() % 64; let o2 = if self.pc(85) { o } else { self.r.u64() % 64 };
                    self.kidx(at, o & 31); self.set(a);
                    if self.pc(30) { self.stmt(1) }
                    self.get(a); self.get(a); self.em(ld(e::MemArg { offset: o, align: 0, memory_index: m }), &[at], &[t]);
                    let k = self.r.below(9) as u64; self.kidx(t, k.wrapping_sub(2)); self.em(add, &[t, t], &[t]);
                    self.em(stw(e::MemArg { offset: o2, align: 0, memory_index: m }), &[at, t], &[]);
                } }
            6 => { // local load, local set
                if let Some(m) = self.pick_mem() {
                    let at = self.at(m); if self.mem_bytes(m) < 256 { return }
                    let Some(a) = self.local_of(at) else { return };
                    let o = self.r.u64() % 100; self.kidx(at, o); self.set(a);
                    if self.pc(30) { self.stmt(1) }
                    let (ld, t): (fn(e::MemArg) -> I<'static>, Ty) = self.r.pick(&[(I::I32Load as fn(e::MemArg) -> I<'static>, Ty::I32), (I::I32Load8S, Ty::I32), (I::I32Load8U, Ty::I32), (I::I32Load16S, Ty::I32), (I::I32Load16U, Ty::I32), (I::I64Load, Ty::I64), (I::I64Load32U, Ty::I64), (I::I64Load8S, Ty::I64), (I::I64Load32S, Ty::I64)]).clone();
                    let (ld, t) = match self.r.below(5) { 0 if self.p.float => (I::F32Load as fn(e::MemArg) -> I<'static>, Ty::F32), 1 if self.p.float => (I::F64Load as _, Ty::F64), 2 if self.p.simd > 0 => (I::V128Load as _, Ty::V128), _ => (ld, t) };
                    let Some(l) = self.local_of(t) else { return };
                    self.get(a); self.em(ld(e::MemArg { offset: o % 7, align: 0, memory_index: m }), &[at], &[t]);
                    if self.pc(50) { self.set(l) } else { self.tee(l); self.sink(t) }
                } }
            7 => { // fused multiply add store
                if !self.p.float { return }
                if let Some(m) = self.pick_mem() {
                    if self.mem_bytes(m) < 256 { return }
                    let (t, mul, add, stw): (Ty, I<'static>, I<'static>, fn(e::MemArg) -> I<'static>) = if self.pc(50) { (Ty::F32, I::F32Mul, I::F32Add, I::F32Store) } else { (Ty::F64, I::F64Mul, I::F64Add, I::F64Store) };
                    let at = self.at(m); let o = self.r.u64() % 100; 
                    if let (Some(a), true) = (self.local_of(at), self.pc(60)) { self.kidx(at, o); self.set(a); self.get(a) } else { self.kidx(at, o) }
                    let left = self.pc(50); if left { self.leaf(t) }
                    self.leaf(t); self.leaf(t); self.em(mul, &[t, t], &[t]); if !left { self.leaf(t) }
                    self.em(add, &[t, t], &[t]); self.em(stw(e::MemArg { offset: o % 5, align: 0, memory_index: m }), &[at, t], &[]);
                } }
            8 => { // global += local / const
                if let Some(g) = self.global_of(t, true) { self.em(I::GlobalGet(g), &[], &[t]); self.leaf(t); let i = self.arith(t); self.em(i, &[t, t], &[t]); self.em(I::GlobalSet(g), &[t], &[]) } }
            9 => { // a label in the middle of a fusable sequence
                if let Some((a, b)) = self.two(t) {
                    self.get(a);
                    let loops = self.pc(30);
                    if loops { self.open(I::Loop(e::BlockType::Empty), &[], &[], true) } else { self.open(I::Block(e::BlockType::Empty), &[], &[], false); }
                    if self.pc(60) { self.cond(1); if loops { self.sink(Ty::I32) } else { self.em(I::BrIf(0), &[Ty::I32], &[]) } }
                    if self.pc(60) { self.k(t); self.set(b) }
                    self.close(&[]);
                    self.get(b); let i = self.arith(t); self.em(i, &[t, t], &[t]);
                    let c = self.local_of(t).unwrap(); self.set(c);
                } }
            10 => { // several branches fused with compares
                self.open(I::Block(e::BlockType::Empty), &[], &[], false);
                for _ in 0..self.r.range(1, 3) { self.cond(1); self.em(I::BrIf(0), &[Ty::I32], &[]); if self.pc(60) { self.idiom_small() } }
                self.close(&[]) }
            _ => { // constant fill
                if let Some(m) = self.pick_mem() { let at = self.at(m); if self.mem_bytes(m) < 512 { return } let o = self.r.u64() % 200; self.kidx(at, o); let v = self.r.i32v(); self.i32c(v); let n = self.r.u64() % 100; self.kidx(at, n); self.em(I::MemoryFill(m), &[at, Ty::I32, at], &[]) } }
        }
    }
    fn idiom_small(&mut self) { let t = self.num_ty(); if let Some((a, b)) = self.two(t) { self.get(a); if self.pc(50) { self.k(t) } else { self.get(b) } let i = self.arith(t); self.em(i, &[t, t], &[t]); self.set(b) } }
}

fn gen_func(r: &mut Rng, p: &Prof, s: &Shape, fidx: u32, declared: &[u32]) -> e::Function {
    let ft = s.fty(fidx).clone();
    let mut locals = ft.params.clone();
    for _ in 0..r.range(1, 7) { let t = tys(p, r); locals.push(t) }
    // favour a few locals of the same type, so that they meet in one instruction
    for _ in 0..r.below(3) { locals.push(Ty::I32); } for _ in 0..r.below(3) { locals.push(Ty::I64); }
    let free_locals = locals.len();
    let mut loopc = vec![];
    for _ in 0..3 { loopc.push(locals.len() as u32); locals.push(if r.chance(1, 3) { Ty::I64 } else { Ty::I32 }) }
    let left = (p.budget / 2 + r.below(p.budget)) as i64;
    let np = ft.params.len();
    let mut g = FnGen { r, s, p, out: vec![], locals: locals.clone(), free_locals, loopc, st: vec![], fr: vec![Fr { height: 0, unreach: false, label: ft.results.clone(), is_loop: false }], left, fidx, declared, in_loop: 0 };
    let n = g.r.range(2, 12);
    g.body(n, p.depth);
    let d = g.p.depth.min(4); g.left = g.left.max(20);
    g.results(&ft.results, d);
    g.close(&ft.results);
    let out = std::mem::take(&mut g.out);
    let mut f = e::Function::new_with_locals_types(locals[np..].iter().map(|t| vt(*t)));
    for i in &out { f.instruction(i); }
    f
}

fn const_expr(r: &mut Rng, p: &Prof, s: &Shape, t: Ty, nglob: usize, funcs: &[u32]) -> e::ConstExpr {
    // reads of earlier immutable globals, extended constant arithmetic
    let gs: Vec<u32> = (0..nglob as u32).filter(|i| s.globals[*i as usize].ty == t && !s.globals[*i as usize].mutable).collect();
    if !gs.is_empty() && r.chance(1, 3) { return e::ConstExpr::global_get(*r.pick(&gs)) }
    match t {
        Ty::I32 | Ty::I64 if r.chance(1, 3) => {
            let mut ins = vec![];
            let k = r.range(1, 3);
            let leaf = |r: &mut Rng| if !gs.is_empty() && r.chance(1, 2) { I::GlobalGet(*r.pick(&gs)) } else { konst(r, t) };
            ins.push(leaf(r));
            for _ in 0..k { ins.push(leaf(r)); ins.push(if t == Ty::I32 { r.pick(&[I::I32Add, I::I32Sub, I::I32Mul]).clone() } else { r.pick(&[I::I64Add, I::I64Sub, I::I64Mul]).clone() }) }
            e::ConstExpr::extended(ins)
        }
        Ty::Func if r.chance(3, 4) && !funcs.is_empty() => e::ConstExpr::ref_func(*r.pick(funcs)),
        _ => { let _ = p; e::ConstExpr::extended([konst(r, t)]) }
    }
}

pub fn gen_mem(r: &mut Rng, p: &Prof) -> MemTy {
    let page1 = r.chance(p.page1 as usize, 100); let m64 = r.chance(p.mem64 as usize, 100);
    let min = if page1 { r.below(400) as u64 } else { { let lo = if r.chance(1, 8) { 0 } else { 1 }; r.range(lo, p.max_pages as usize) as u64 } };
    let max = if r.chance(1, 2) { Some(min + r.below(4) as u64) } else if page1 && !r.chance(1, 3) { Some(min + 64) } else { None };
    MemTy { min, max, m64, page_log2: if page1 { 0 } else { 16 } }
}
pub fn gen_table(r: &mut Rng, p: &Prof) -> TableTy {
    let min = r.below(12) as u64;
    TableTy { elem: if r.chance(4, 5) { Ty::Func } else { Ty::Extern }, min, max: if r.chance(1, 2) { Some(min + r.below(5) as u64) } else { None }, t64: r.chance(p.table64 as usize, 100) }
}
pub fn gen_ftype(r: &mut Rng, p: &Prof) -> FT { ftype(p, r, 4, 3) }
pub fn gen_gtype(r: &mut Rng, p: &Prof) -> GlobalTy { GlobalTy { ty: tys(p, r), mutable: r.chance(2, 3) } }

pub fn gen_module(r: &mut Rng, p: &Prof, imports: &[Import]) -> (Vec<u8>, Shape) {
    let mut s = Shape::default();
    // types: a few shared signatures, block signatures
    for i in imports { if let Imp::Func(f) = &i.ty { if !s.types.contains(f) { s.types.push(f.clone()) } } }
    for _ in 0..r.range(2, 6) { let t = ftype(p, r, 4, 3); s.types.push(t) }
    for _ in 0..r.below(3) { let t = tys(p, r); s.types.push(FT { params: vec![t], results: vec![t] }) }
    for _ in 0..r.below(3) { let t = tys(p, r); let u = tys(p, r); s.types.push(FT { params: vec![u], results: vec![t, u] }) }
    if r.chance(1, 3) { s.types.push(FT { params: vec![], results: vec![] }) }
    if r.chance(1, 3) { let d = s.types[r.below(s.types.len())].clone(); s.types.push(d) } // duplicate type
    for i in imports {
        match &i.ty {
            Imp::Func(f) => { s.funcs.push(s.types.iter().position(|t| t == f).unwrap() as u32); s.nimp += 1 }
            Imp::Mem(m) => s.mems.push(m.clone()), Imp::Table(t) => s.tables.push(t.clone()), Imp::Global(g) => s.globals.push(g.clone()),
        }
    }
    s.nimpm = s.mems.len(); s.nimpt = s.tables.len(); s.nimpg = s.globals.len();
    for _ in 0..r.range(1, p.nfuncs) { let t = r.below(s.types.len()) as u32; s.funcs.push(t) }
    for _ in 0..r.below(p.mems + 1) { let m = gen_mem(r, p); s.mems.push(m) }
    if s.mems.is_empty() && p.mems > 0 && r.chance(3, 4) { let m = gen_mem(r, p); s.mems.push(m) }
    for _ in 0..r.below(p.tables + 1) { let t = gen_table(r, p); s.tables.push(t) }
    for _ in 0..r.range(1, 7) { let g = gen_gtype(r, p); s.globals.push(g) }
    s.fuel_g = Some(s.globals.len() as u32); s.globals.push(GlobalTy { ty: Ty::I32, mutable: true });
    s.tail_g = Some(s.globals.len() as u32); s.globals.push(GlobalTy { ty: Ty::I32, mutable: true });
    let all: Vec<u32> = (0..s.funcs.len() as u32).collect();

    let mut m = e::Module::new();
    let mut ts = e::TypeSection::new();
    for t in &s.types { ts.ty().function(t.params.iter().map(|t| vt(*t)), t.results.iter().map(|t| vt(*t))); }
    m.section(&ts);
    if !imports.is_empty() {
        let mut is = e::ImportSection::new(); let mut fi = 0;
        for i in imports {
            let et: e::EntityType = match &i.ty { Imp::Func(_) => { fi += 1; e::EntityType::Function(s.funcs[fi - 1]) } Imp::Mem(t) => e_mem(t).into(), Imp::Table(t) => e_table(t).into(), Imp::Global(g) => e_global(g).into() };
            is.import(&i.module, &i.name, et);
        }
        m.section(&is);
    }
    let mut fs = e::FunctionSection::new(); for t in &s.funcs[s.nimp..] { fs.function(*t); } m.section(&fs);
    if s.tables.len() > s.nimpt {
        let mut t = e::TableSection::new();
        for x in &s.tables[s.nimpt..] {
            if r.chance(p.table_init as usize, 100) { let c = const_expr(r, p, &s, x.elem, s.nimpg, &all); t.table_with_init(e_table(x), &c); } else { t.table(e_table(x)); }
        }
        m.section(&t);
    }
    if s.mems.len() > s.nimpm { let mut x = e::MemorySection::new(); for t in &s.mems[s.nimpm..] { x.memory(e_mem(t)); } m.section(&x); }
    let mut gs = e::GlobalSection::new();
    for i in s.nimpg..s.globals.len() {
        let g = s.globals[i].clone();
        let c = if Some(i as u32) == s.fuel_g { e::ConstExpr::i32_const(r.range(2, 5) as i32) } else if Some(i as u32) == s.tail_g { e::ConstExpr::i32_const(r.range(0, 40) as i32) } else { const_expr(r, p, &s, g.ty, s.nimpg, &all) };
        gs.global(e_global(&g), &c);
    }
    m.section(&gs);
    // exports
    let mut ex = e::ExportSection::new();
    let every = r.chance(1, 2);
    for (k, n, pre) in [(Kind::Func, s.funcs.len(), "f"), (Kind::Mem, s.mems.len(), "m"), (Kind::Table, s.tables.len(), "t"), (Kind::Global, s.globals.len(), "g")] {
        for i in 0..n {
            if every || r.chance(3, 4) || k == Kind::Func && i + 1 == n {
                let ek = match k { Kind::Func => e::ExportKind::Func, Kind::Mem => e::ExportKind::Memory, Kind::Table => e::ExportKind::Table, Kind::Global => e::ExportKind::Global };
                // names that mean something to some embedders, odd names
                let odd = *r.pick(&["_start", "", "memory", "_initialize", "\u{540d}\u{524d}", "a\0b", " f", "f0 ", "__wasm_call_ctors", "main", "start"]);
                let name = if r.chance(1, 14) && !s.exports.iter().any(|e| e.0 == odd) { odd.to_string() } else { format!("{pre}{i}") };
                ex.export(&name, ek, i as u32); s.exports.push((name, k, i as u32));
                if r.chance(1, 12) { let name = format!("{pre}{i}b"); ex.export(&name, ek, i as u32); s.exports.push((name, k, i as u32)); }
            }
        }
    }
    m.section(&ex);
    if r.chance(p.start as usize, 100) { if let Some(f) = (0..s.funcs.len()).find(|f| { let t = s.fty(*f as u32); t.params.is_empty() && t.results.is_empty() }) { m.section(&e::StartSection { function_index: f as u32 }); } }
    // element segments
    let mut es = e::ElementSection::new();
    let glob = s.globals.len();
    let ne = r.below(5);
    for _ in 0..ne {
        let x = if s.tables.is_empty() { None } else { Some(r.below(s.tables.len())) };
        let kind = r.below(4);
        let et = match (x, kind) { (Some(x), 0..=1) => s.tables[x].elem, _ => if r.chance(4, 5) { Ty::Func } else { Ty::Extern } };
        let n = r.below(6) as u32;
        let fl: Vec<u32> = (0..n).map(|_| *r.pick(&all)).collect();
        let items: Vec<e::ConstExpr> = if et == Ty::Func { fl.iter().map(|f| match r.below(6) { 0 => e::ConstExpr::ref_null(e::HeapType::FUNC), 1 => { let c: Vec<u32> = (0..glob as u32).filter(|i| (*i as usize) < s.nimpg && s.globals[*i as usize].ty == Ty::Func && !s.globals[*i as usize].mutable).collect(); if c.is_empty() { e::ConstExpr::ref_func(*f) } else { e::ConstExpr::global_get(*r.pick(&c)) } } _ => e::ConstExpr::ref_func(*f) }).collect() } else { fl.iter().map(|_| e::ConstExpr::ref_null(e::HeapType::EXTERN)).collect() };
        let els = if et == Ty::Func && r.chance(1, 2) { e::Elements::Functions(Cow::Owned(fl)) } else { e::Elements::Expressions(rt(et), Cow::Owned(items)) };
        match (x, kind) {
            (Some(x), 0..=1) => {
                let sz = s.tables[x].min; let t64 = s.tables[x].t64;
                let off = if r.chance(p.bad_seg as usize, 100) { sz + 1 + r.below(3) as u64 - (n as u64).min(sz) } else if sz >= n as u64 { r.u64() % (sz - n as u64 + 1) } else if r.chance(1, 10) { 0 } else { continue };
                let oc = if t64 { e::ConstExpr::i64_const(off as i64) } else { e::ConstExpr::i32_const(off as i32) };
                es.active(if x == 0 && r.chance(1, 2) && et == Ty::Func { None } else { Some(x as u32) }, &oc, els);
            }
            (_, 3) => { es.declared(els); }
            _ => { es.passive(els); }
        }
        s.elems.push((et, n));
    }
    // declare every function so that ref.func is always allowed
    es.declared(e::Elements::Functions(Cow::Borrowed(&all))); s.elems.push((Ty::Func, all.len() as u32));
    m.section(&es);
    // data
    let mut ds = e::DataSection::new();
    let nd = if s.mems.is_empty() { r.below(2) } else { r.below(5) };
    for _ in 0..nd {
        let l = r.below(24); let bytes: Vec<u8> = (0..l).map(|_| r.u32() as u8).collect();
        if !s.mems.is_empty() && r.chance(1, 2) {
            let x = r.below(s.mems.len()); let sz = s.mems[x].min << s.mems[x].page_log2;
            let off = if r.chance(p.bad_seg as usize, 100) { sz + 1 + r.below(3) as u64 - (l as u64).min(sz) } else if sz >= l as u64 { r.u64() % (sz - l as u64 + 1) } else if r.chance(1, 10) { 0 } else { ds.passive(bytes); s.datas.push(l as u32); continue };
            let oc = if s.mems[x].m64 { e::ConstExpr::i64_const(off as i64) } else { e::ConstExpr::i32_const(off as i32) };
            ds.active(x as u32, &oc, bytes);
        } else { ds.passive(bytes); }
        s.datas.push(l as u32);
    }
    m.section(&e::DataCountSection { count: s.datas.len() as u32 });
    let mut cs = e::CodeSection::new();
    for f in s.nimp..s.funcs.len() { let mut fr = r.fork(); cs.function(&gen_func(&mut fr, p, &s, f as u32, &all)); }
    m.section(&cs);
    m.section(&ds);
    (m.finish(), s)
}
