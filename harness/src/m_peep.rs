//! Short straight windows of instructions over very few locals and constants, so that every neighbourhood of gets, constants,
//! operations, comparisons, tees, sets, drops, loads, stores and branches comes up, with and without a label in the middle.
use crate::modgen::*;
use crate::refi::*;
use crate::rng::Rng;
use crate::scen::*;
use wasm_encoder as e;
use wasm_encoder::{Ieee32, Ieee64, Instruction as I};

#[derive(Clone, Copy, PartialEq, Debug)]
enum S { V(Ty), /// a small address
 A }
struct Fr { h: usize, is_loop: bool, res: Option<Ty>, counter: u32, is_if: bool }
struct G<'a> { r: &'a mut Rng, out: Vec<I<'static>>, st: Vec<S>, fr: Vec<Fr>, loc: Vec<(Ty, Vec<u32>)>, addr: Vec<u32>, ctr: Vec<u32>, used_ctr: usize, ks: Vec<(Ty, u128)>, at: Ty, mem: u32, globs: Vec<(Ty, u32)>, tys: Vec<Ty>, helper: u32, htys: Vec<Ty>, prev: u32 }

const KI: [i64; 34] = [0, 1, -1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 47, 48, 49, 55, 56, 57, 63, 64, 255, 256, 65535, 0x7fff_ffff, -0x8000_0000, 0x8000_0000, 0xffff_ffff, 0x1_0000_0000, 0x1_0000_0001, i64::MIN];
impl G<'_> {
    fn k(&mut self, t: Ty) {
        if self.r.chance(2, 5) { let c: Vec<u128> = self.ks.iter().filter(|k| k.0 == t).map(|k| k.1).collect(); if !c.is_empty() { let v = *self.r.pick(&c); return self.kv(t, v) } }
        let v: u128 = match t {
            Ty::I32 => (if self.r.chance(5, 6) { *self.r.pick(&KI) as i32 } else { self.r.i32v() }) as u32 as u128,
            Ty::I64 => (if self.r.chance(5, 6) { *self.r.pick(&KI) } else { self.r.i64v() }) as u64 as u128,
            Ty::F32 => (*self.r.pick(&[0.0f32, -0.0, 1.0, -1.0, 0.5, 3.0, 1e20, 1.0000001, -7.25])).to_bits() as u128,
            Ty::F64 => (*self.r.pick(&[0.0f64, -0.0, 1.0, -1.0, 0.5, 3.0, 1e200, 1.0000000000000002, -7.25])).to_bits() as u128,
            _ => self.r.v128v(),
        };
        self.ks.push((t, v)); self.kv(t, v)
    }
    fn kv(&mut self, t: Ty, v: u128) {
        self.out.push(match t { Ty::I32 => I::I32Const(v as u32 as i32), Ty::I64 => I::I64Const(v as u64 as i64), Ty::F32 => I::F32Const(Ieee32::new(v as u32)), Ty::F64 => I::F64Const(Ieee64::new(v as u64)), _ => I::V128Const(v as i128) });
        self.st.push(S::V(t));
    }
    fn local(&mut self, t: Ty) -> u32 {
        let l = &self.loc.iter().find(|x| x.0 == t).unwrap().1;
        // the same local again, often
        if l.contains(&self.prev) && self.r.chance(1, 2) { return self.prev }
        let x = *self.r.pick(l); self.prev = x; x
    }
    fn ty(&mut self) -> Ty { *self.r.pick(&self.tys) }
    fn base(&self) -> usize { self.fr.last().unwrap().h }
    fn top(&self, k: usize) -> Option<S> { if self.st.len() >= self.base() + k + 1 { Some(self.st[self.st.len() - 1 - k]) } else { None } }
    fn topv(&self, k: usize) -> Option<Ty> { match self.top(k) { Some(S::V(t)) => Some(t), _ => None } }
    fn push(&mut self, t: Ty, i: I<'static>) { self.out.push(i); self.st.push(S::V(t)) }
    fn pop(&mut self, n: usize) { for _ in 0..n { self.st.pop().unwrap(); } }
    fn binop(&mut self, t: Ty) -> I<'static> {
        match t {
            Ty::I32 => self.r.pick(&[I::I32Add, I::I32Add, I::I32Add, I::I32Sub, I::I32Sub, I::I32Mul, I::I32Mul, I::I32And, I::I32Or, I::I32Xor, I::I32Shl, I::I32Shl, I::I32ShrS, I::I32ShrS, I::I32ShrU, I::I32Rotl, I::I32Rotr]).clone(),
            Ty::I64 => self.r.pick(&[I::I64Add, I::I64Add, I::I64Add, I::I64Sub, I::I64Sub, I::I64Mul, I::I64Mul, I::I64And, I::I64Or, I::I64Xor, I::I64Shl, I::I64Shl, I::I64ShrS, I::I64ShrS, I::I64ShrU, I::I64Rotl, I::I64Rotr]).clone(),
            Ty::F32 => self.r.pick(&[I::F32Add, I::F32Add, I::F32Sub, I::F32Mul, I::F32Mul, I::F32Div, I::F32Min, I::F32Max, I::F32Copysign]).clone(),
            Ty::F64 => self.r.pick(&[I::F64Add, I::F64Add, I::F64Sub, I::F64Mul, I::F64Mul, I::F64Div, I::F64Min, I::F64Max, I::F64Copysign]).clone(),
            _ => self.r.pick(&[I::V128And, I::V128AndNot, I::V128Or, I::V128Xor, I::I64x2Add, I::I64x2Mul, I::I8x16Add, I::I16x8Sub]).clone(),
        }
    }
    fn cmp(&mut self, t: Ty) -> I<'static> {
        match t {
            Ty::I32 => self.r.pick(&[I::I32Eq, I::I32Ne, I::I32Eq, I::I32Ne, I::I32LtS, I::I32LtU, I::I32GtS, I::I32GtU, I::I32LeS, I::I32LeU, I::I32GeS, I::I32GeU]).clone(),
            _ => self.r.pick(&[I::I64Eq, I::I64Ne, I::I64Eq, I::I64Ne, I::I64LtS, I::I64LtU, I::I64GtS, I::I64GtU, I::I64LeS, I::I64LeU, I::I64GeS, I::I64GeU]).clone(),
        }
    }
    fn arg(&mut self) -> e::MemArg { let offset = if self.r.chance(1, 150) { if self.at == Ty::I64 { *self.r.pick(&[1u64 << 32, (1 << 32) + 8, 1 << 63, u64::MAX - 7]) } else { *self.r.pick(&[0x8000_0000u64, 0xffff_fff8]) } } else if self.r.chance(2, 3) { *self.r.pick(&[0, 0, 4, 8]) } else { self.r.below(3000) as u64 }; e::MemArg { offset, align: 0, memory_index: self.mem } }
    fn load(&mut self) {
        let a = self.arg(); let t = self.ty(); self.pop(1);
        let i = match t {
            Ty::I32 => match self.r.below(8) { 0 => I::I32Load8S(a), 1 => I::I32Load8U(a), 2 => I::I32Load16S(a), 3 => I::I32Load16U(a), _ => I::I32Load(a) },
            Ty::I64 => match self.r.below(9) { 0 => I::I64Load8S(a), 1 => I::I64Load8U(a), 2 => I::I64Load16S(a), 3 => I::I64Load16U(a), 4 => I::I64Load32S(a), 5 => I::I64Load32U(a), _ => I::I64Load(a) },
            Ty::F32 => { self.push(Ty::I32, I::I32Load16U(a)); self.pop(1); I::F32ConvertI32S } // no NaN from memory
            Ty::F64 => { self.push(Ty::I32, I::I32Load(a)); self.pop(1); I::F64ConvertI32S }
            _ => I::V128Load(a),
        };
        self.push(t, i);
    }
    fn store(&mut self, t: Ty) {
        let a = self.arg(); self.pop(2);
        let i = match t {
            Ty::I32 => match self.r.below(6) { 0 => I::I32Store8(a), 1 => I::I32Store16(a), _ => I::I32Store(a) },
            Ty::I64 => match self.r.below(6) { 0 => I::I64Store8(a), 1 => I::I64Store16(a), 2 => I::I64Store32(a), _ => I::I64Store(a) },
            Ty::F32 => I::F32Store(a), Ty::F64 => I::F64Store(a), _ => I::V128Store(a),
        };
        self.out.push(i);
    }
    fn open(&mut self) {
        let res = if self.r.chance(1, 6) { Some(self.ty()) } else { None };
        let h = self.st.len();
        match self.r.below(6) {
            0 | 1 if self.used_ctr < self.ctr.len() => { let c = self.ctr[self.used_ctr]; self.used_ctr += 1; self.out.push(I::Loop(e::BlockType::Empty)); self.fr.push(Fr { h, is_loop: true, res: None, counter: c, is_if: false }) }
            2 | 3 if self.topv(0) == Some(Ty::I32) => { self.pop(1); self.out.push(I::If(e::BlockType::Empty)); self.fr.push(Fr { h: h - 1, is_loop: false, res: None, counter: 0, is_if: true }) }
            _ => { self.out.push(I::Block(match res { Some(t) => e::BlockType::Result(vt(t)), None => e::BlockType::Empty })); self.fr.push(Fr { h, is_loop: false, res, counter: 0, is_if: false }) }
        }
    }
    fn drain(&mut self, keep: usize) { while self.st.len() > keep { let s = self.st.pop().unwrap(); match s { S::V(t) if self.r.chance(2, 3) => { let l = self.local(t); self.out.push(I::LocalSet(l)) } _ => self.out.push(I::Drop) } } }
    fn close(&mut self) {
        let f = self.fr.last().unwrap(); let (h, res, is_loop, c, is_if) = (f.h, f.res, f.is_loop, f.counter, f.is_if);
        if is_loop {
            self.drain(h);
            // leave after at most three rounds
            let (dec, lim) = (self.r.chance(1, 2), self.r.range(1, 3) as i32);
            if dec { self.out.extend([I::LocalGet(c), I::I32Const(1), I::I32Sub, I::LocalTee(c), I::I32Const(-lim), I::I32GtS]) } else { self.out.extend([I::LocalGet(c), I::I32Const(1), I::I32Add, I::LocalTee(c), I::I32Const(lim), I::I32LtS]) }
            self.out.push(I::BrIf(0));
        } else if let Some(t) = res {
            if self.topv(0) != Some(t) { self.drain(h); if self.r.chance(1, 2) { self.k(t) } else { let l = self.local(t); self.push(t, I::LocalGet(l)) } }
            if self.st.len() > h + 1 { // what is below the result goes into a local, then the result comes back
                let l = self.local(t); self.out.push(I::LocalSet(l)); self.pop(1); self.drain(h); self.push(t, I::LocalGet(l)) }
        } else { self.drain(h); if is_if && self.r.chance(1, 3) { self.out.push(I::Else); self.fr.last_mut().unwrap().is_if = false; let n = self.r.range(1, 4); for _ in 0..n { self.step(0) } self.drain(h) } }
        self.out.push(I::End); self.fr.pop();
    }
    fn br(&mut self) { // on top: an i32
        let c: Vec<u32> = (0..self.fr.len() as u32).filter(|d| { let f = &self.fr[self.fr.len() - 1 - *d as usize]; !f.is_loop && f.res.is_none() }).collect();
        if c.is_empty() { return }
        let d = *self.r.pick(&c);
        match self.r.below(14) {
            0 => { self.pop(1); let n = self.r.below(4); let ts: Vec<u32> = (0..n).map(|_| *self.r.pick(&c)).collect(); // leaves a dead end: close it
                self.out.push(I::Block(e::BlockType::Empty)); self.out.push(I::LocalGet(self.loc.iter().find(|x| x.0 == Ty::I32).unwrap().1[0])); self.out.push(I::BrTable(ts.iter().map(|t| t + 1).chain([0]).take(n + 1).collect::<Vec<_>>().into(), d + 1)); self.out.push(I::End); self.out.push(I::Drop); }
            1 => { self.pop(1); self.out.extend([I::If(e::BlockType::Empty), I::Br(d + 1), I::End]) }
            2 => { self.pop(1); self.out.extend([I::I32Eqz, I::BrIf(d)]) }
            3 => { // a value goes along when the branch is not taken
                let r: Vec<u32> = (0..self.fr.len() as u32).filter(|d| { let f = &self.fr[self.fr.len() - 1 - *d as usize]; f.res.is_some() && f.res == self.topv(1) }).collect();
                if r.is_empty() { self.pop(1); self.out.push(I::BrIf(d)) } else { self.pop(1); let d = *self.r.pick(&r); self.out.push(I::BrIf(d)) } }
            _ => { self.pop(1); self.out.push(I::BrIf(d)) }
        }
    }
    /// something that no rewriting of gets and constants takes up
    fn opaque(&mut self, t: Ty) {
        match t {
            Ty::I32 => { let l = self.local(t); self.push(t, I::LocalGet(l)); self.out.push(if self.r.chance(1, 2) { I::I32Clz } else { I::I32Popcnt }) }
            Ty::I64 => { let l = self.local(t); self.push(t, I::LocalGet(l)); self.out.push(if self.r.chance(1, 2) { I::I64Clz } else { I::I64Popcnt }) }
            Ty::F32 => { let l = self.local(t); self.push(t, I::LocalGet(l)); self.out.push(I::F32Abs) } Ty::F64 => { let l = self.local(t); self.push(t, I::LocalGet(l)); self.out.push(I::F64Abs) }
            _ => { let l = self.local(t); self.push(t, I::LocalGet(l)); self.out.push(I::V128Not) }
        }
    }
    fn leaf(&mut self, t: Ty) { match self.r.below(8) { 0..=3 => { let l = self.local(t); self.push(t, I::LocalGet(l)) } 4 | 5 => self.k(t), 6 => self.opaque(t), _ => { let l = self.local(t); self.push(t, I::LocalGet(l)); let l = self.local(t); self.out.push(I::LocalTee(l)) } } }
    fn end(&mut self, t: Ty, depth: usize) {
        match self.r.below(8) { 0..=2 => { let l = self.local(t); self.pop(1); self.out.push(I::LocalSet(l)) } 3 => { let l = self.local(t); self.out.push(I::LocalTee(l)) } 4 => { let l = self.local(t); self.pop(1); self.out.extend([I::LocalTee(l), I::Drop]) } 5 => { let l = self.local(t); self.pop(1); self.out.extend([I::LocalSet(l), I::LocalGet(l)]); self.st.push(S::V(t)) } 6 if depth > 0 => { let l = self.local(t); self.pop(1); self.out.push(I::LocalSet(l)); self.step(depth - 1) } _ => {} }
    }
    /// a branch table over labels with code between them that each reaches by falling in or by the table
    fn switch(&mut self, depth: usize) {
        let n = *self.r.pick(&[1usize, 2, 3, 4, 6, 9, 10, 12, 20, 34]); let h = self.st.len();
        for _ in 0..n { self.out.push(I::Block(e::BlockType::Empty)); self.fr.push(Fr { h, is_loop: false, res: None, counter: 0, is_if: false }) }
        let x = self.loc.iter().find(|x| x.0 == Ty::I32).unwrap().1.clone(); let x = *self.r.pick(&x);
        self.out.push(I::LocalGet(x)); if self.r.chance(2, 3) { self.out.extend([I::I32Const(n as i32 + 2), I::I32RemU]) }
        let len = match self.r.below(4) { 0 => self.r.below(n + 1), 1 => n + self.r.below(5), _ => n };
        let ts: Vec<u32> = (0..len).map(|k| if self.r.chance(1, 2) { k.min(n - 1) as u32 } else { self.r.below(n) as u32 }).collect();
        let d = if self.r.chance(1, 2) { n - 1 } else { self.r.below(n) } as u32;
        self.out.push(I::BrTable(ts.into(), d));
        for k in 0..n { self.out.push(I::End); self.fr.pop(); if k + 1 < n { for _ in 0..self.r.range(0, 3) { self.step(depth.min(2) - 1) } self.drain(h); if self.r.chance(1, 6) { let d = self.r.below(n - 1 - k) as u32; self.out.extend([I::LocalGet(x), I::BrIf(d)]) } } }
    }
    /// sequences that a compiler's output is full of, exact and slightly off
    fn template(&mut self, depth: usize) {
        let t = self.ty();
        match self.r.below(13) {
            12 if depth > 0 && self.fr.len() < 5 => self.switch(depth),
            0 | 1 if matches!(t, Ty::I32 | Ty::I64) => { // shifts up and down
                let l = self.local(t); self.push(t, I::LocalGet(l));
                let a: i64 = if t == Ty::I32 { *self.r.pick(&[8, 16, 24, 24, 16, 17, 25, 31]) } else { *self.r.pick(&[8, 16, 24, 32, 48, 56, 32, 48, 56, 57, 49, 33]) };
                let b = match self.r.below(8) { 0 => a + 1, 1 => a - 1, 2 => if t == Ty::I32 { *self.r.pick(&[8, 16, 24]) } else { *self.r.pick(&[32, 48, 56]) }, _ => a };
                let k = |v: i64| if t == Ty::I32 { I::I32Const(v as i32) } else { I::I64Const(v) };
                let sh = if self.r.chance(4, 5) { if t == Ty::I32 { I::I32ShrS } else { I::I64ShrS } } else if t == Ty::I32 { I::I32ShrU } else { I::I64ShrU };
                self.out.extend([k(a), if t == Ty::I32 { I::I32Shl } else { I::I64Shl }, k(b), sh]); self.end(t, depth) }
            2 | 3 if t != Ty::V128 => { // multiply and accumulate
                let (mul, add) = match t { Ty::I32 => (I::I32Mul, I::I32Add), Ty::I64 => (I::I64Mul, I::I64Add), Ty::F32 => (I::F32Mul, I::F32Add), _ => (I::F64Mul, I::F64Add) };
                let c = self.local(t);
                if self.r.chance(1, 2) { self.leaf(t); self.opaque(t) } else { self.opaque(t); self.leaf(t) }
                self.out.push(mul); self.pop(1); let acc = if self.r.chance(4, 5) { c } else { self.local(t) };
                self.out.extend([I::LocalGet(acc), add]); if self.r.chance(4, 5) { self.pop(1); self.out.push(I::LocalSet(c)) } else { self.end(t, depth) } }
            4 if matches!(t, Ty::F32 | Ty::F64) => { // multiply, add and store
                let a = *self.r.pick(&self.addr); self.out.push(I::LocalGet(a)); self.st.push(S::A);
                self.leaf(t); self.leaf(t); self.opaque(t); let m = self.arg();
                let (mul, add, st) = if t == Ty::F32 { (I::F32Mul, if self.r.chance(4, 5) { I::F32Add } else { I::F32Sub }, I::F32Store(m)) } else { (I::F64Mul, if self.r.chance(4, 5) { I::F64Add } else { I::F64Sub }, I::F64Store(m)) };
                self.out.extend([mul, add, st]); self.pop(4) }
            5..=7 if matches!(t, Ty::I32 | Ty::I64) => { // compare and branch
                self.leaf(t);
                if self.r.chance(1, 4) { self.pop(1); self.push(Ty::I32, if t == Ty::I32 { I::I32Eqz } else { I::I64Eqz }) }
                else { if self.r.chance(1, 4) { let z = if self.r.chance(2, 3) { 0 } else { 1 }; self.push(t, if t == Ty::I32 { I::I32Const(z) } else { I::I64Const(z as i64) }) } else { self.leaf(t) } let i = self.cmp(t); self.pop(2); self.push(Ty::I32, i) }
                if self.r.chance(1, 5) { self.out.push(I::I32Eqz) }
                if depth > 0 && self.fr.len() < 5 && self.r.chance(2, 5) {
                    self.pop(1); self.out.push(I::If(e::BlockType::Empty)); let h = self.st.len(); self.fr.push(Fr { h, is_loop: false, res: None, counter: 0, is_if: true });
                    let n = self.r.range(1, 3); for _ in 0..n { self.step(depth - 1) } self.close()
                } else { self.br() } }
            8 => { // three operands, two operations
                self.leaf(t); self.leaf(t); let (i, j) = (self.binop(t), self.binop(t)); let same = self.r.chance(1, 2);
                if self.r.chance(1, 2) { self.leaf(t); self.pop(2); self.out.extend([i.clone(), if same { i } else { j }]) } else { self.out.push(i.clone()); self.pop(1); self.leaf(t); self.pop(1); self.out.push(if same { i } else { j }) }
                self.end(t, depth) }
            9 => { self.opaque(t); self.k(t); let i = self.binop(t); self.pop(1); self.out.push(i); let l = self.local(t); self.out.push(I::LocalTee(l)) }
            10 => { // a load into a local
                let a = *self.r.pick(&self.addr); self.out.push(I::LocalGet(a)); self.st.push(S::A); self.load(); if let Some(t) = self.topv(0) { self.end(t, depth) } }
            _ => { let a = *self.r.pick(&self.addr); self.out.push(I::LocalGet(a)); self.st.push(S::A); self.leaf(t); self.store(t) }
        }
    }
    fn step(&mut self, depth: usize) {
        if self.r.chance(1, 6) { return self.template(depth) }
        let s0 = self.top(0);
        for _ in 0..20 {
            match self.r.below(30) {
                0..=4 => { let t = self.ty(); let l = self.local(t); return self.push(t, I::LocalGet(l)) }
                5 | 6 => { let t = match s0 { Some(S::V(t)) if self.r.chance(3, 4) => t, _ => self.ty() }; return self.k(t) }
                7 => { let t = match s0 { Some(S::V(t)) => t, _ => self.ty() }; if let Some(g) = self.globs.iter().find(|g| g.0 == t) { let g = g.1; if s0 == Some(S::V(t)) && self.r.chance(1, 3) { self.pop(1); self.out.push(I::GlobalSet(g)); return } return self.push(t, I::GlobalGet(g)) } }
                8..=14 => if let (Some(t), true) = (self.topv(0), self.topv(0) == self.topv(1)) {
                    if matches!(t, Ty::I32 | Ty::I64) && self.r.chance(1, 3) { let i = self.cmp(t); self.pop(2); return self.push(Ty::I32, i) }
                    let i = self.binop(t); self.pop(2); return self.push(t, i) }
                15 => if let Some(t) = self.topv(0) { match (t, self.r.below(5)) {
                    (Ty::I32, 0 | 1) => { self.out.push(I::I32Eqz); return } (Ty::I64, 0 | 1) => { self.pop(1); return self.push(Ty::I32, I::I64Eqz) }
                    (Ty::I32, 2) => { self.out.push(if self.r.chance(1, 2) { I::I32Extend8S } else { I::I32Extend16S }); return }
                    (Ty::I32, 3) if self.tys.contains(&Ty::I64) => { self.pop(1); let i = if self.r.chance(1, 2) { I::I64ExtendI32S } else { I::I64ExtendI32U }; return self.push(Ty::I64, i) }
                    (Ty::I64, 2) => { let i = self.r.pick(&[I::I64Extend8S, I::I64Extend16S, I::I64Extend32S]).clone(); self.out.push(i); return }
                    (Ty::I64, _) => { self.pop(1); return self.push(Ty::I32, I::I32WrapI64) }
                    (Ty::F32, _) => { let i = self.r.pick(&[I::F32Neg, I::F32Abs]).clone(); self.out.push(i); return } (Ty::F64, _) => { let i = self.r.pick(&[I::F64Neg, I::F64Abs]).clone(); self.out.push(i); return }
                    (Ty::V128, _) => { self.out.push(I::V128Not); return } _ => {} } }
                16 | 17 => if let Some(t) = self.topv(0) { let l = self.local(t); self.pop(1); self.out.push(I::LocalSet(l)); return }
                18 => if let Some(t) = self.topv(0) { let l = self.local(t); self.out.push(I::LocalTee(l)); return }
                19 => if self.top(0).is_some() && self.r.chance(1, 2) { self.pop(1); self.out.push(I::Drop); return }
                20 | 21 => { // addresses
                    let a = *self.r.pick(&self.addr); let ap = self.at == Ty::I64;
                    match self.r.below(9) {
                        0 => { let k = self.r.below(40) as i64; self.out.push(if ap { I::I64Const(k) } else { I::I32Const(k as i32) }); self.out.push(I::LocalSet(a)); return }
                        1 => { let b = *self.r.pick(&self.addr); self.out.extend([I::LocalGet(b), I::LocalSet(a)]); return }
                        2 => { let k = self.r.below(5) as i64; let dst = *self.r.pick(&self.addr); let end = if self.r.chance(1, 2) { I::LocalSet(dst) } else { self.st.push(S::A); I::LocalTee(dst) }; self.out.push(I::LocalGet(a)); self.out.extend(if ap { [I::I64Const(k), I::I64Add] } else { [I::I32Const(k as i32), I::I32Add] }); self.out.push(end); return }
                        3 => { let k = self.r.below(2000) as i64; self.out.push(if ap { I::I64Const(k) } else { I::I32Const(k as i32) }); self.st.push(S::A); return }
                        4 => { // memory[a] += k
                            let m = self.arg(); let mut m2 = m; if self.r.chance(1, 5) { m2.offset += 1 } let b = if self.r.chance(1, 6) { *self.r.pick(&self.addr) } else { a };
                            let k = *self.r.pick(&[1, 1, 1, 2, -1, 0]);
                            let sub = self.r.chance(1, 6);
                            self.out.extend([I::LocalGet(a), I::LocalGet(b)]);
                            if self.r.chance(1, 2) { self.out.extend([I::I32Load(m), I::I32Const(k), if sub { I::I32Sub } else { I::I32Add }, I::I32Store(m2)]) } else { self.out.extend([I::I64Load(m), I::I64Const(k as i64), if sub { I::I64Sub } else { I::I64Add }, I::I64Store(m2)]) }
                            return }
                        5 if self.r.chance(1, 3) => { let (v, n) = (self.r.below(600) as i32, self.r.below(40)); self.out.extend([I::LocalGet(a), I::I32Const(v), if ap { I::I64Const(n as i64) } else { I::I32Const(n as i32) }, I::MemoryFill(self.mem)]); return }
                        _ => { self.out.push(I::LocalGet(a)); self.st.push(S::A); return }
                    } }
                22 | 23 if s0 == Some(S::A) => return self.load(),
                24 => if let (Some(S::V(t)), Some(S::A)) = (self.top(0), self.top(1)) { return self.store(t) }
                25 if s0 == Some(S::V(Ty::I32)) && self.topv(1).is_some() && self.topv(1) == self.topv(2) && self.topv(1) != Some(Ty::I32) => { let t = self.topv(1).unwrap(); self.pop(3); return self.push(t, I::Select) }
                25 if self.topv(0) == Some(Ty::I32) && self.topv(1) == Some(Ty::I32) && self.topv(2) == Some(Ty::I32) && self.r.chance(1, 3) => { self.pop(3); return self.push(Ty::I32, I::Select) }
                26 | 27 if s0 == Some(S::V(Ty::I32)) => return self.br(),
                28 if depth > 0 && self.fr.len() < 5 && self.r.chance(1, 2) => { self.open(); let n = self.r.range(1, 7); for _ in 0..n { self.step(depth - 1) } return self.close() }
                29 => if let Some(t) = self.topv(0) { if let (Some(k), true) = (self.htys.iter().position(|h| *h == t), self.r.chance(1, 6)) { self.out.push(I::Call(self.helper + k as u32)); return } }
                _ => {}
            }
        }
        let t = self.ty(); let l = self.local(t); self.push(t, I::LocalGet(l))
    }
}

pub fn gen_peep(r: &mut Rng) -> Scen {
    let mut tys = vec![Ty::I32];
    match r.below(6) { 0 => {} 1 | 2 => tys.push(Ty::I64), 3 => tys.push(*r.pick(&[Ty::F32, Ty::F64])), 4 => tys.push(Ty::V128), _ => { tys.push(Ty::I64); tys.push(*r.pick(&[Ty::F32, Ty::F64, Ty::V128])) } }
    let at = if r.chance(1, 4) { Ty::I64 } else { Ty::I32 };
    let mem_first = r.chance(2, 3);
    let mut m = e::Module::new();
    // types: the function, a helper per type
    let np = 2; let nf = r.range(2, 5);
    let params: Vec<Ty> = tys.iter().flat_map(|t| vec![*t; np]).collect();
    let results: Vec<Ty> = tys.iter().flat_map(|t| vec![*t; 3]).collect();
    let mut ts = e::TypeSection::new(); ts.ty().function(params.iter().map(|t| vt(*t)), results.iter().map(|t| vt(*t)));
    for t in &tys { ts.ty().function([vt(*t)], [vt(*t)]); } m.section(&ts);
    let mut fs = e::FunctionSection::new(); for _ in 0..nf { fs.function(0); } for k in 0..tys.len() { fs.function(1 + k as u32); } m.section(&fs);
    let mt = MemTy { min: 1, max: None, m64: at == Ty::I64, page_log2: 16 }; let other = MemTy { min: 1, max: Some(1), m64: r.chance(1, 2), page_log2: 16 };
    let mut ms = e::MemorySection::new(); if mem_first { ms.memory(e_mem(&mt)); if r.chance(1, 4) { ms.memory(e_mem(&other)); } } else { ms.memory(e_mem(&other)); ms.memory(e_mem(&mt)); } m.section(&ms);
    let mut gs = e::GlobalSection::new(); let globs: Vec<(Ty, u32)> = tys.iter().enumerate().map(|(k, t)| { gs.global(e_global(&GlobalTy { ty: *t, mutable: true }), &match t { Ty::I32 => e::ConstExpr::i32_const(3), Ty::I64 => e::ConstExpr::i64_const(-5), Ty::F32 => e::ConstExpr::f32_const(Ieee32::new(0x4000_0000)), Ty::F64 => e::ConstExpr::f64_const(Ieee64::new(0x4008_0000_0000_0000)), _ => e::ConstExpr::v128_const(r.v128v() as i128) }); (*t, k as u32) }).collect(); m.section(&gs);
    let mut ex = e::ExportSection::new(); for f in 0..nf { ex.export(&format!("f{f}"), e::ExportKind::Func, f as u32); } ex.export("m", e::ExportKind::Memory, if mem_first { 0 } else { 1 }); m.section(&ex);
    let mut cs = e::CodeSection::new();
    for _ in 0..nf {
        let mut locals: Vec<Ty> = params.clone();
        // locals beyond the reach of a short index, sometimes
        let pad = if r.chance(1, 8) { r.range(240, 262) } else { 0 };
        for _ in 0..pad { locals.push(Ty::I32) }
        let mut loc: Vec<(Ty, Vec<u32>)> = tys.iter().enumerate().map(|(k, t)| (*t, (0..np as u32).map(|i| (k * np) as u32 + i).collect())).collect();
        for k in 0..tys.len() { loc[k].1.push(locals.len() as u32); locals.push(tys[k]) }
        let addr: Vec<u32> = (0..2).map(|_| { locals.push(at); locals.len() as u32 - 1 }).collect();
        let ctr: Vec<u32> = (0..2).map(|_| { locals.push(Ty::I32); locals.len() as u32 - 1 }).collect();
        let mut fr = r.fork();
        let mut g = G { r: &mut fr, out: vec![], st: vec![], fr: vec![], loc: loc.clone(), addr, ctr, used_ctr: 0, ks: vec![], at, mem: if mem_first { 0 } else { 1 }, globs: globs.clone(), tys: tys.clone(), helper: nf as u32, htys: tys.clone(), prev: u32::MAX };
        g.out.push(I::Block(e::BlockType::Empty)); g.fr.push(Fr { h: 0, is_loop: false, res: None, counter: 0, is_if: false });
        let n = g.r.range(6, 40); for _ in 0..n { g.step(3) }
        g.drain(0); g.out.push(I::End);
        for (_, ls) in &loc { for l in ls { g.out.push(I::LocalGet(*l)) } }
        g.out.push(I::End);
        let out = std::mem::take(&mut g.out);
        let mut f = e::Function::new_with_locals_types(locals[params.len()..].iter().map(|t| vt(*t)));
        for i in &out { f.instruction(i); }
        cs.function(&f);
    }
    for t in &tys { let mut f = e::Function::new([]); f.instruction(&I::LocalGet(0)); match t { Ty::I32 => { f.instruction(&I::I32Const(1)); f.instruction(&I::I32Xor); } Ty::I64 => { f.instruction(&I::I64Const(1)); f.instruction(&I::I64Add); } _ => {} } f.instruction(&I::End); cs.function(&f); }
    m.section(&cs);
    let mut ds = e::DataSection::new(); ds.active(if mem_first { 0 } else { 1 }, &if at == Ty::I64 { e::ConstExpr::i64_const(0) } else { e::ConstExpr::i32_const(0) }, (0..200).map(|_| r.u32() as u8).collect::<Vec<u8>>()); m.section(&ds);
    let mut sc = Scen::default();
    sc.modules.push(m.finish());
    sc.acts.push(Act::Inst { m: 0, imports: vec![], start: true });
    for f in 0..nf { for _ in 0..r.range(2, 5) {
        let args = params.iter().map(|t| (*t, match t { Ty::I32 => (if r.chance(2, 3) { *r.pick(&KI) as i32 } else { r.i32v() }) as u32 as V, Ty::I64 => (if r.chance(2, 3) { *r.pick(&KI) } else { r.i64v() }) as u64 as V, Ty::F32 => (*r.pick(&[0.0f32, -0.0, 1.0, -2.5, 3.0e10, 1.0000002, 1e-40])).to_bits() as V, Ty::F64 => (*r.pick(&[0.0f64, -0.0, 1.0, -2.5, 3.0e10, 1.0000000000000004, 1e-310])).to_bits() as V, _ => r.v128v() })).collect();
        sc.acts.push(Act::Call { slot: 0, name: format!("f{f}"), args })
    } }
    sc
}
