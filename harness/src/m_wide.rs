//! Index spaces made wide: entities of every kind are put in front of a module's own, so that its own have large indices.
use crate::rng::Rng;
use crate::mon::Obs;
use crate::scen::Scen;
use wasm_encoder::reencode::{utils, Error, Reencode};
use wasm_encoder as we;
use wasmparser as wp;

type E = Error<std::convert::Infallible>;
#[derive(Default)]
struct Wide {
    /// dummy entities of each space
    ty: u32, fun: u32, glob: u32, tab: u32, mem: u32, elem: u32, data: u32, exp: u32,
    locals: Vec<(u32, we::ValType)>, nest: u32,
    /// operands below the whole body; instructions, constants and branch targets that are jumped over, in front of some of the body's own
    bed: Vec<(u32, we::ValType)>, pad: [u32; 3], rng: Option<Rng>,
    nimp: [u32; 4],
    types: Vec<wp::FuncType>, picks: Vec<we::FuncType>, wrap: std::collections::HashMap<Vec<wp::ValType>, u32>,
    code: std::collections::VecDeque<u32>, nparams: u32, funcs: Vec<u32>, used: std::collections::HashSet<String>,
    seed: u64,
}
impl Wide {
    fn shift(i: u32, imp: u32, n: u32) -> u32 { if i >= imp { i + n } else { i } }
    fn local(&self, i: u32) -> u32 { if i >= self.nparams { i + self.locals.iter().map(|l| l.0).sum::<u32>() } else { i } }
}
impl Reencode for Wide {
    type Error = std::convert::Infallible;
    fn type_index(&mut self, i: u32) -> Result<u32, E> { Ok(i + self.ty) }
    fn function_index(&mut self, i: u32) -> Result<u32, E> { Ok(Self::shift(i, self.nimp[0], self.fun)) }
    fn table_index(&mut self, i: u32) -> Result<u32, E> { Ok(Self::shift(i, self.nimp[1], self.tab)) }
    fn memory_index(&mut self, i: u32) -> Result<u32, E> { Ok(Self::shift(i, self.nimp[2], self.mem)) }
    fn global_index(&mut self, i: u32) -> Result<u32, E> { Ok(Self::shift(i, self.nimp[3], self.glob)) }
    fn element_index(&mut self, i: u32) -> Result<u32, E> { Ok(i + self.elem) }
    fn data_index(&mut self, i: u32) -> Result<u32, E> { Ok(i + self.data) }
    fn data_count(&mut self, n: u32) -> Result<u32, E> { Ok(n + self.data) }
    fn parse_type_section(&mut self, s: &mut we::TypeSection, r: wp::TypeSectionReader<'_>) -> Result<(), E> {
        for t in self.picks.clone() { s.ty().func_type(&t); }
        utils::parse_type_section(self, s, r)
    }
    fn parse_function_section(&mut self, s: &mut we::FunctionSection, r: wp::FunctionSectionReader<'_>) -> Result<(), E> {
        for _ in 0..self.fun { s.function(0); }
        utils::parse_function_section(self, s, r)
    }
    fn parse_code_section(&mut self, s: &mut we::CodeSection, r: wp::CodeSectionReader<'_>) -> Result<(), E> {
        for k in 0..self.fun { let mut f = we::Function::new([]); if k % 3 == 0 { f.instruction(&we::Instruction::Unreachable); } f.instruction(&we::Instruction::End); s.function(&f); }
        utils::parse_code_section(self, s, r)
    }
    fn parse_table_section(&mut self, s: &mut we::TableSection, r: wp::TableSectionReader<'_>) -> Result<(), E> {
        for k in 0..self.tab { s.table(we::TableType { element_type: if k % 2 == 0 { we::RefType::FUNCREF } else { we::RefType::EXTERNREF }, table64: false, minimum: (k % 3) as u64, maximum: None, shared: false }); }
        utils::parse_table_section(self, s, r)
    }
    fn parse_memory_section(&mut self, s: &mut we::MemorySection, r: wp::MemorySectionReader<'_>) -> Result<(), E> {
        for k in 0..self.mem { s.memory(we::MemoryType { minimum: (k % 7 == 3) as u64, maximum: None, memory64: k % 5 == 4, shared: false, page_size_log2: None }); }
        utils::parse_memory_section(self, s, r)
    }
    fn parse_global_section(&mut self, s: &mut we::GlobalSection, r: wp::GlobalSectionReader<'_>) -> Result<(), E> {
        for k in 0..self.glob { let (t, e) = if k % 2 == 0 { (we::ValType::I32, we::ConstExpr::i32_const(k as i32)) } else { (we::ValType::I64, we::ConstExpr::i64_const(-(k as i64))) }; s.global(we::GlobalType { val_type: t, mutable: k % 3 == 0, shared: false }, &e); }
        utils::parse_global_section(self, s, r)
    }
    fn parse_element_section(&mut self, s: &mut we::ElementSection, r: wp::ElementSectionReader<'_>) -> Result<(), E> {
        for k in 0..self.elem { let i = [k % (self.nimp[0] + self.fun).max(1)]; let e = if self.nimp[0] + self.fun == 0 { we::Elements::Functions((&[][..]).into()) } else { we::Elements::Functions((&i[..]).into()) }; if k % 4 == 1 { s.declared(e); } else { s.passive(e); } }
        utils::parse_element_section(self, s, r)
    }
    fn parse_data_section(&mut self, s: &mut we::DataSection, r: wp::DataSectionReader<'_>) -> Result<(), E> {
        for k in 0..self.data { s.passive((k as u16).to_le_bytes()); }
        utils::parse_data_section(self, s, r)
    }
    fn parse_export_section(&mut self, s: &mut we::ExportSection, r: wp::ExportSectionReader<'_>) -> Result<(), E> {
        let n = self.nimp[0] + self.fun + self.funcs.len() as u32;
        for k in 0..if n == 0 { 0 } else { self.exp } { let name = format!("{}{k}", if k % 2 == 0 { "" } else { "dummy export " }); if self.used.insert(name.clone()) { s.export(&name, we::ExportKind::Func, k % n); } }
        utils::parse_export_section(self, s, r)
    }
    fn parse_function_body(&mut self, s: &mut we::CodeSection, b: wp::FunctionBody<'_>) -> Result<(), E> {
        let ty = self.code.pop_front().unwrap_or_default() as usize;
        self.nparams = self.types[ty].params().len() as u32;
        let mut locals = self.locals.clone();
        for l in b.get_locals_reader()? { let (n, t) = l?; locals.push((n, self.val_type(t)?)); }
        // a counter of its own, for the probes
        let spare = self.nparams + locals.iter().map(|l| l.0).sum::<u32>();
        if self.pad != [0; 3] { locals.push((1, we::ValType::I32)) }
        let mut f = we::Function::new(locals);
        let res = self.types[ty].results();
        let bt = match res { [] => Some(we::BlockType::Empty), [x] => Some(we::BlockType::Result(self.val_type(*x)?)), r => self.wrap.get(r).map(|t| we::BlockType::FunctionType(*t)) };
        let n = if bt.is_some() { self.nest } else { 0 };
        let bed = if bt.is_some() && self.bed.iter().any(|b| b.0 > 0) { self.bed.clone() } else { vec![] };
        for (n, t) in &bed { for k in 0..*n { f.instruction(&match t { we::ValType::I32 => we::Instruction::I32Const(k as i32), we::ValType::I64 => we::Instruction::I64Const(!(k as i64)), we::ValType::F32 => we::Instruction::F32Const((k as f32).into()), we::ValType::F64 => we::Instruction::F64Const((k as f64).into()), we::ValType::V128 => we::Instruction::V128Const(k as i128), _ => we::Instruction::RefNull(we::HeapType::FUNC) }); } }
        if !bed.is_empty() { f.instruction(&we::Instruction::Block(bt.unwrap())); }
        for _ in 0..n { f.instruction(&we::Instruction::Block(bt.unwrap())); }
        // where the padding goes: the beginning, the end, or spread
        let mut r = self.rng.take().unwrap_or_else(|| Rng::new(0));
        let mut ops = 0u32; { let mut rd = b.get_operators_reader()?; while !rd.eof() { rd.read()?; ops += 1 } }
        let mut at: Vec<u32> = vec![];
        if self.pad != [0; 3] && r.chance(2, 3) { for _ in 0..r.range(1, 3) { at.push(match r.below(2) { 0 => 0, _ => r.below(ops as usize) as u32 }) } }
        let (mut rd, mut pos, parts) = (b.get_operators_reader()?, 0u32, at.len().max(1) as u32);
        while !rd.eof() {
            for _ in 0..at.iter().filter(|a| **a == pos).count() { padding(&mut r, &mut f, self.pad.map(|p| p / parts)); probe(&mut r, &mut f, spare) }
            pos += 1;
            let i = self.parse_instruction(&mut rd)?;
            let i = match i { we::Instruction::LocalGet(i) => we::Instruction::LocalGet(self.local(i)), we::Instruction::LocalSet(i) => we::Instruction::LocalSet(self.local(i)), we::Instruction::LocalTee(i) => we::Instruction::LocalTee(self.local(i)), i => i };
            f.instruction(&i);
        }
        self.rng = Some(r);
        for _ in 0..n { f.instruction(&we::Instruction::End); }
        if !bed.is_empty() { f.instruction(&we::Instruction::Return); f.instruction(&we::Instruction::End); }
        s.function(&f);
        Ok(())
    }
}

/// A block that is left at once, full of code, vector constants and branch targets.
fn padding(r: &mut Rng, f: &mut we::Function, [code, consts, targets]: [u32; 3]) {
    use we::Instruction as I;
    f.instruction(&I::Block(we::BlockType::Empty));
    f.instruction(&I::RefNull(we::HeapType::FUNC)); f.instruction(&I::RefIsNull); f.instruction(&I::BrIf(0));
    for k in 0..code / 2 { f.instruction(&I::RefNull(we::HeapType::EXTERN)); f.instruction(&I::Drop); if k % 8191 == 77 { f.instruction(&I::RefNull(we::HeapType::FUNC)); f.instruction(&I::RefIsNull); f.instruction(&I::BrIf(0)); } }
    for k in 0..consts { if k % 3 == 2 { f.instruction(&I::RefNull(we::HeapType::EXTERN)); f.instruction(&I::Drop); } f.instruction(&I::V128Const(k as i128 * 0x1_0001_0000_0000_0001 + 7)); f.instruction(&I::Drop); }
    let mut left = targets;
    while left > 0 {
        let n = left.min(r.range(1, 5000) as u32); left -= n;
        f.instruction(&I::Block(we::BlockType::Empty)); f.instruction(&I::I32Const(left as i32));
        f.instruction(&I::BrTable((0..n).map(|k| k % 2).collect::<Vec<_>>().into(), 0)); f.instruction(&I::End);
    }
    f.instruction(&I::End);
}

/// Branches of every kind right behind the padding, around a counter that has to come out right.
fn probe(r: &mut Rng, f: &mut we::Function, l: u32) {
    use we::{BlockType::Empty, Instruction as I};
    for _ in 0..r.range(1, 3) {
        let n = r.range(2, 9) as i32;
        if r.chance(1, 4) { // constants of vectors and shuffles
            let (a, b) = (r.u64(), r.u64()); let v = (a as i128) << 64 | b as i128; let k = r.below(16) as u8; let mut lanes = [0u8; 16]; for x in &mut lanes { *x = r.below(32) as u8 } lanes[k as usize] = 16 + k;
            let want = (v as u128 >> (8 * k as u32)) as u8;
            let v: Vec<I> = match r.below(3) {
                0 => vec![I::V128Const(v), I::I64x2ExtractLane(1), I::I64Const(a as i64), I::I64Ne],
                1 => vec![I::V128Const(!v), I::V128Const(v), I::I8x16Shuffle(lanes), I::I8x16ExtractLaneU(k), I::I32Const(want as i32), I::I32Ne],
                _ => vec![I::V128Const(v), I::V128Const(v ^ 1 << 77), I::V128Xor, I::I64x2ExtractLane(1), I::I64Const(1 << 13), I::I64Ne],
            };
            for i in &v { f.instruction(i); }
            for i in [I::If(Empty), I::Unreachable, I::End] { f.instruction(&i); }
            continue
        }
        for i in [I::I32Const(0), I::LocalSet(l)] { f.instruction(&i); }
        let inc = [I::LocalGet(l), I::I32Const(1), I::I32Add, I::LocalSet(l)];
        let v: Vec<I> = match r.below(6) {
            0 => [&[I::Loop(Empty)][..], &inc, &[I::LocalGet(l), I::I32Const(n), I::I32LtS, I::BrIf(0), I::End]].concat(),
            1 => [&[I::Block(Empty), I::Loop(Empty)][..], &inc, &[I::LocalGet(l), I::I32Const(n), I::I32Eq, I::BrIf(1), I::Br(0), I::End, I::End]].concat(),
            2 => [&[I::Block(Empty), I::Loop(Empty)][..], &inc, &[I::LocalGet(l), I::I32Const(n), I::I32GeU, I::BrTable(vec![0].into(), 1), I::End, I::End]].concat(),
            3 => [&[I::Loop(Empty)][..], &inc, &[I::LocalGet(l), I::I32Const(n), I::I32Ne, I::If(Empty), I::Br(1), I::Else, I::Nop, I::End, I::End]].concat(),
            4 => [&[I::Loop(Empty), I::Block(Empty)][..], &inc, &[I::I32Const(n), I::LocalGet(l), I::I32Sub, I::I32Eqz, I::BrIf(0), I::Br(1), I::End, I::End]].concat(),
            _ => [&[I::Block(Empty), I::Loop(Empty), I::LocalGet(l), I::I32Const(n), I::I32GeS, I::If(Empty), I::Br(2), I::End][..], &inc, &[I::I32Const(0), I::BrTable(vec![0, 1].into(), 1), I::End, I::End]].concat(),
        };
        for i in &v { f.instruction(i); }
        for i in [I::LocalGet(l), I::I32Const(n), I::I32Ne, I::If(Empty), I::Unreachable, I::End] { f.instruction(&i); }
    }
}

/// The same module with entities in front of its own. `None` if it has none of its own to move.
pub fn widen(r: &mut Rng, b: &[u8]) -> Option<(Vec<u8>, String)> {
    let mut w = Wide { seed: r.u64(), rng: Some(Rng::new(r.u64())), ..Default::default() };
    for p in wp::Parser::new(0).parse_all(b) {
        match p.ok()? {
            wp::Payload::TypeSection(s) => for g in s { for t in g.ok()?.into_types() { match t.composite_type.inner { wp::CompositeInnerType::Func(f) => w.types.push(f), _ => return None } } },
            wp::Payload::ImportSection(s) => for g in s.into_imports() { match g.ok()?.ty { wp::TypeRef::Func(_) => w.nimp[0] += 1, wp::TypeRef::Table(_) => w.nimp[1] += 1, wp::TypeRef::Memory(_) => w.nimp[2] += 1, wp::TypeRef::Global(_) => w.nimp[3] += 1, _ => return None } },
            wp::Payload::FunctionSection(s) => for f in s { let f = f.ok()?; w.code.push_back(f); w.funcs.push(f) },
            wp::Payload::ExportSection(s) => for e in s { w.used.insert(e.ok()?.name.to_string()); },
            _ => {}
        }
    }
    if w.funcs.is_empty() || w.types.is_empty() { return None }
    // which spaces are widened, and to where
    let edge = |r: &mut Rng, big: bool| -> u32 { let e = *r.pick(if big { &[120usize, 127, 128, 250, 255, 256, 300, 4096, 32760, 32768, 65530, 65536, 66000, 70000][..] } else { &[1usize, 3, 60, 120, 127, 128, 250, 255, 256, 260, 300, 1000, 4097] }); (e + r.below(3) - (e > 2) as usize) as u32 };
    let mut what = String::new();
    for _ in 0..r.range(1, 4) {
        let big = r.chance(1, 12);
        let n = edge(r, big);
        let k = r.below(15);
        match k {
            0 => w.ty = n.min(66_000), 1 => w.fun = n, 2 | 3 => w.glob = n, 4 => w.tab = n.min(1 + r.below(90) as u32), 5 => w.mem = n.min(1 + r.below(90) as u32), 6 => w.elem = n.min(66_000), 7 => w.data = n.min(66_000), 8 => w.exp = n.min(400),
            9 if r.chance(1, 2) => w.nest = n.min(2000),
            10 | 11 | 13 => { // sizes of one function; some enormous
                let big = r.chance(1, 3); let n = if big && r.chance(1, 2) { r.range(32_000, 70_000) as u32 } else { edge(r, big) } * if big { 1 } else { r.range(1, 8) as u32 };
                match r.below(5) { 0 | 1 => w.pad[0] = n * 2, 2 => w.pad[1] = n, 3 => w.pad[2] = n, _ => w.pad = [n, n / 2, n] }
            }
            12 | 14 => { let t = *r.pick(&[we::ValType::I32, we::ValType::I64, we::ValType::F32, we::ValType::F64, we::ValType::FUNCREF]); let have: u32 = w.locals.iter().chain(&w.bed).map(|l| l.0).sum(); w.bed.push((n.min(400 - have.min(400)).min(300), t)) }
            _ => { let t = *r.pick(&[we::ValType::I32, we::ValType::I32, we::ValType::I64, we::ValType::F32, we::ValType::F64, we::ValType::V128, we::ValType::FUNCREF, we::ValType::EXTERNREF]); // frames stay small enough for the deepest recursion a scenario has
                let have = |v: bool| w.locals.iter().chain(&w.bed).filter(|l| (l.1 == we::ValType::V128) == v).map(|l| l.0).sum::<u32>();
                let n = if t == we::ValType::V128 { n.min(40 - have(true).min(40)) } else { n.min(400 - have(false).min(400)).min(300) }; w.locals.push((n, t)) }
        }
        what += &format!("{}+{n} ", ["types", "functions", "globals", "globals", "tables", "memories", "elements", "data", "exports", "nesting/locals", "body", "body", "operands", "body", "operands"][k]);
    }
    if w.fun > 0 && w.ty == 0 { w.ty = 1 }
    // types in front: the module's own again, and what blocks around bodies need
    let mut want: Vec<wp::FuncType> = vec![wp::FuncType::new([], [])];
    if w.nest > 0 || !w.bed.is_empty() { for t in &w.types { if t.results().len() > 1 && !w.wrap.contains_key(t.results()) { w.wrap.insert(t.results().to_vec(), want.len() as u32); want.push(wp::FuncType::new([], t.results().iter().copied())) } } if want.len() > 1 || w.ty > 0 { w.ty = w.ty.max(want.len() as u32) } }
    let mut k = w.seed as usize % 17;
    while want.len() < w.ty as usize { want.push(if want.len() % 3 == 0 { w.types[k % w.types.len()].clone() } else { wp::FuncType::new((0..k % 4).map(|_| wp::ValType::I64), (0..k % 3).map(|_| wp::ValType::F32)) }); k += 1 }
    want.truncate(w.ty as usize);
    w.picks = want.into_iter().map(|t| w.func_type(t)).collect::<Result<_, _>>().ok()?;
    let mut m = we::Module::new();
    w.parse_core_module(&mut m, wp::Parser::new(0), b).ok()?;
    Some((m.finish(), what))
}

pub fn widen_scen(r: &mut Rng, sc: &mut Scen, o: &mut Obs) {
    for b in &mut sc.modules {
        if r.chance(5, 6) { if let Some((x, what)) = widen(r, b) {
            if let Err(e) = wp::Validator::new_with_features(crate::m_parse::features()).validate_all(&x) { panic!("monitor: widened module is invalid: {e}; {what}") }
            o.inc("widened_modules"); for k in what.split_whitespace() { let (s, n) = k.split_once('+').unwrap_or((k, "0")); let n: u32 = n.parse().unwrap_or(0); o.note("widened", &format!("{s} by {}", match n { 0..=250 => "up to 250", 251..=4100 => "251-4100", _ => "more than 4100" })) }
            *b = x;
        } }
    }
}
