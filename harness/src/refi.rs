//! Independent reference interpreter for WebAssembly (structured, one u128 slot per value).
//! It shares no code with the target except wasmparser, which only decodes the binary.
use std::collections::BTreeSet;
use std::rc::Rc;
use wasmparser::{BlockType, Operator as O, ValType};

pub type V = u128;
pub const NULL: V = u128::MAX;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Ty { I32, I64, F32, F64, V128, Func, Extern }
impl Ty {
    pub fn default(self) -> V { match self { Ty::Func | Ty::Extern => NULL, _ => 0 } }
    pub fn is_ref(self) -> bool { matches!(self, Ty::Func | Ty::Extern) }
}
pub fn ty(v: ValType) -> Ty {
    match v {
        ValType::I32 => Ty::I32, ValType::I64 => Ty::I64, ValType::F32 => Ty::F32, ValType::F64 => Ty::F64, ValType::V128 => Ty::V128,
        ValType::Ref(r) => rty(r),
    }
}
pub fn rty(r: wasmparser::RefType) -> Ty { if r.is_extern_ref() { Ty::Extern } else { Ty::Func } }
#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct FT { pub params: Vec<Ty>, pub results: Vec<Ty> }

#[derive(Clone, PartialEq, Debug)]
pub enum Trap { Unreachable, DivZero, IntOverflow, BadConv, MemOob, TableOob, UndefElem, UninitElem, SigMismatch, Host(String), Other(&'static str),
    /// the reference gives no verdict from here on (fuel, depth, allocation too large)
    Skip(&'static str) }
pub type R<T> = Result<T, Trap>;

pub enum Op { O(O<'static>), BrTable(Vec<u32>, u32) }
pub struct Code { pub locals: Vec<Ty>, pub ops: Vec<Op>, pub end: Vec<u32>, pub els: Vec<u32>, pub seen: std::cell::RefCell<Vec<u64>> }
pub type Const = Vec<O<'static>>;
#[derive(Clone, Debug, PartialEq)]
pub struct TableTy { pub elem: Ty, pub min: u64, pub max: Option<u64>, pub t64: bool }
#[derive(Clone, Debug, PartialEq)]
pub struct MemTy { pub min: u64, pub max: Option<u64>, pub m64: bool, pub page_log2: u32 }
#[derive(Clone, Debug, PartialEq)]
pub struct GlobalTy { pub ty: Ty, pub mutable: bool }
#[derive(Clone, Debug, PartialEq)]
pub enum ImpTy { Func(u32), Table(TableTy), Mem(MemTy), Global(GlobalTy) }
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Kind { Func, Table, Mem, Global }
pub enum SegMode { Active(u32, Const), Passive, Declared }
pub struct Elem { pub ty: Ty, pub mode: SegMode, pub items: Vec<Const> }
pub struct Data { pub mode: SegMode, pub bytes: Vec<u8> }
#[derive(Default)]
pub struct RModule {
    pub types: Vec<FT>, pub imports: Vec<(String, String, ImpTy)>, pub funcs: Vec<u32>, pub code: Vec<Rc<Code>>,
    pub tables: Vec<(TableTy, Option<Const>)>, pub mems: Vec<MemTy>, pub globals: Vec<(GlobalTy, Const)>,
    pub exports: Vec<(String, Kind, u32)>, pub start: Option<u32>, pub elems: Vec<Elem>, pub datas: Vec<Data>,
}

fn stat(op: O<'_>) -> O<'static> { debug_assert!(!matches!(op, O::BrTable { .. })); unsafe { std::mem::transmute::<O<'_>, O<'static>>(op) } }
fn cexpr(e: wasmparser::ConstExpr<'_>) -> Result<Const, wasmparser::BinaryReaderError> {
    let mut v = vec![];
    for op in e.get_operators_reader() { v.push(stat(op?)); }
    Ok(v)
}
fn tblty(t: wasmparser::TableType) -> TableTy { TableTy { elem: rty(t.element_type), min: t.initial, max: t.maximum, t64: t.table64 } }
fn memty(t: wasmparser::MemoryType) -> MemTy { MemTy { min: t.initial, max: t.maximum, m64: t.memory64, page_log2: t.page_size_log2.unwrap_or(16) } }
fn glbty(t: wasmparser::GlobalType) -> GlobalTy { GlobalTy { ty: ty(t.content_type), mutable: t.mutable } }

impl RModule {
    pub fn decode(wasm: &[u8]) -> Result<RModule, wasmparser::BinaryReaderError> {
        use wasmparser::Payload as P;
        let mut m = RModule::default();
        for p in wasmparser::Parser::new(0).parse_all(wasm) {
            match p? {
                P::TypeSection(s) => for g in s { for t in g?.into_types() {
                    if let wasmparser::CompositeInnerType::Func(f) = t.composite_type.inner {
                        m.types.push(FT { params: f.params().iter().map(|t| ty(*t)).collect(), results: f.results().iter().map(|t| ty(*t)).collect() })
                    }
                } },
                P::ImportSection(s) => for i in s.into_imports() { let i = i?;
                    let t = match i.ty {
                        wasmparser::TypeRef::Func(f) | wasmparser::TypeRef::FuncExact(f) => ImpTy::Func(f),
                        wasmparser::TypeRef::Table(t) => ImpTy::Table(tblty(t)),
                        wasmparser::TypeRef::Memory(t) => ImpTy::Mem(memty(t)),
                        wasmparser::TypeRef::Global(t) => ImpTy::Global(glbty(t)),
                        _ => continue,
                    };
                    m.imports.push((i.module.into(), i.name.into(), t));
                },
                P::FunctionSection(s) => for f in s { m.funcs.push(f?) },
                P::TableSection(s) => for t in s { let t = t?; let init = match t.init { wasmparser::TableInit::RefNull => None, wasmparser::TableInit::Expr(e) => Some(cexpr(e)?) }; m.tables.push((tblty(t.ty), init)) },
                P::MemorySection(s) => for t in s { m.mems.push(memty(t?)) },
                P::GlobalSection(s) => for g in s { let g = g?; m.globals.push((glbty(g.ty), cexpr(g.init_expr)?)) },
                P::ExportSection(s) => for e in s { let e = e?;
                    let k = match e.kind { wasmparser::ExternalKind::Func | wasmparser::ExternalKind::FuncExact => Kind::Func, wasmparser::ExternalKind::Table => Kind::Table, wasmparser::ExternalKind::Memory => Kind::Mem, wasmparser::ExternalKind::Global => Kind::Global, _ => continue };
                    m.exports.push((e.name.into(), k, e.index)) },
                P::StartSection { func, .. } => m.start = Some(func),
                P::ElementSection(s) => for e in s { let e = e?;
                    let mode = match e.kind { wasmparser::ElementKind::Passive => SegMode::Passive, wasmparser::ElementKind::Declared => SegMode::Declared,
                        wasmparser::ElementKind::Active { table_index, offset_expr } => SegMode::Active(table_index.unwrap_or(0), cexpr(offset_expr)?) };
                    let (t, items) = match e.items {
                        wasmparser::ElementItems::Functions(f) => { let mut v = vec![]; for x in f { v.push(vec![O::RefFunc { function_index: x? }]) } (Ty::Func, v) }
                        wasmparser::ElementItems::Expressions(t, x) => { let mut v = vec![]; for c in x { v.push(cexpr(c?)?) } (rty(t), v) }
                    };
                    m.elems.push(Elem { ty: t, mode, items });
                },
                P::DataSection(s) => for d in s { let d = d?;
                    let mode = match d.kind { wasmparser::DataKind::Passive => SegMode::Passive, wasmparser::DataKind::Active { memory_index, offset_expr } => SegMode::Active(memory_index, cexpr(offset_expr)?) };
                    m.datas.push(Data { mode, bytes: d.data.to_vec() });
                },
                P::CodeSectionEntry(b) => {
                    let mut locals = vec![];
                    for l in b.get_locals_reader()? { let (n, t) = l?; for _ in 0..n { locals.push(ty(t)) } }
                    let mut ops = vec![];
                    let mut r = b.get_operators_reader()?;
                    while !r.eof() {
                        let op = r.read()?;
                        ops.push(match op {
                            O::BrTable { targets } => { let mut v = vec![]; for t in targets.targets() { v.push(t?) } Op::BrTable(v, targets.default()) }
                            o => Op::O(stat(o)),
                        });
                    }
                    let n = ops.len();
                    let (mut end, mut els) = (vec![0u32; n], vec![0u32; n]);
                    let mut st: Vec<usize> = vec![];
                    for (i, op) in ops.iter().enumerate() {
                        match op {
                            Op::O(O::Block { .. } | O::Loop { .. } | O::If { .. }) => st.push(i),
                            Op::O(O::Else) => { let b = *st.last().unwrap(); els[b] = i as u32; }
                            Op::O(O::End) => if let Some(b) = st.pop() { end[b] = i as u32; if els[b] != 0 { end[els[b] as usize] = i as u32; } },
                            _ => {}
                        }
                    }
                    let words = n / 64 + 1;
                    m.code.push(Rc::new(Code { locals, ops, end, els, seen: std::cell::RefCell::new(vec![0; words]) }));
                }
                _ => {}
            }
        }
        Ok(m)
    }
    pub fn func_type_index(&self, f: u32) -> u32 {
        let mut n = 0;
        for (_, _, t) in &self.imports { if let ImpTy::Func(t) = t { if n == f { return *t } n += 1; } }
        self.funcs[(f - n) as usize]
    }
}

pub type HostFn = Rc<dyn Fn(&mut RStore, usize, &[V]) -> R<Vec<V>>>;
#[derive(Clone)]
pub enum RFunc { Wasm { inst: usize, ty: Rc<FT>, code: Rc<Code> }, Host { ty: Rc<FT>, f: HostFn } }
impl RFunc { pub fn ty(&self) -> &Rc<FT> { match self { RFunc::Wasm { ty, .. } | RFunc::Host { ty, .. } => ty } } }
pub struct RMem { pub data: Vec<u8>, pub ty: MemTy }
pub struct RTable { pub elems: Vec<V>, pub ty: TableTy }
pub struct RGlobal { pub v: V, pub ty: GlobalTy }
#[derive(Default)]
pub struct RInst {
    pub module: Rc<RModule>, pub types: Vec<Rc<FT>>, pub funcs: Vec<usize>, pub tables: Vec<usize>, pub mems: Vec<usize>, pub globals: Vec<usize>,
    pub elems: Vec<usize>, pub datas: Vec<usize>,
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Ext(pub Kind, pub usize);

pub struct RStore {
    pub funcs: Vec<RFunc>, pub mems: Vec<RMem>, pub tables: Vec<RTable>, pub globals: Vec<RGlobal>, pub insts: Vec<RInst>,
    pub elems: Vec<Vec<V>>, pub datas: Vec<Rc<Vec<u8>>>,
    pub fuel: u64, pub depth: usize, pub max_depth: usize, pub max_depth_seen: usize, pub nan: bool, pub nan_obs: bool, pub steps: u64, pub relaxed: bool,
    pub mem_cap: u64, pub table_cap: u64,
    /// monitor-visible events: memory accesses that trapped, by kind
    pub trap_pc: u64,
    pub max_stack: usize,
    /// spec's `max size` used when no maximum is declared
    pub log: Vec<String>,
}
impl Default for RStore {
    fn default() -> Self {
        RStore { funcs: vec![], mems: vec![], tables: vec![], globals: vec![], insts: vec![], elems: vec![], datas: vec![], fuel: 200_000, depth: 0, max_depth: 64, max_depth_seen: 0, nan: false, nan_obs: false, steps: 0, relaxed: false, mem_cap: 32 << 20, table_cap: 20_000, trap_pc: 0, max_stack: 0, log: vec![] }
    }
}

pub enum InstErr { Link(&'static str), Trap(Trap) }

struct Label { cont: u32, arity: u32, height: u32 }
struct Frame { inst: usize, code: Rc<Code>, pc: usize, locals: Vec<V>, labels: Vec<Label>, base: usize, nres: usize }

macro_rules! ld { ($s:expr, $f:expr, $st:expr, $m:expr, $n:literal, $conv:expr) => {{ let b: [u8; $n] = $s.mload::<$n>($f.inst, &$m, &mut $st)?; let c: fn([u8; $n]) -> V = $conv; $st.push(c(b)); }} }
macro_rules! stt { ($s:expr, $f:expr, $st:expr, $m:expr, $n:literal) => {{ let v = $st.pop().unwrap(); let a = $st.pop().unwrap(); $s.mstore($f.inst, &$m, a, &v.to_le_bytes()[..$n])?; }} }

impl RStore {
    pub fn new_host(&mut self, t: FT, f: HostFn) -> usize { self.funcs.push(RFunc::Host { ty: Rc::new(t), f }); self.funcs.len() - 1 }
    pub fn new_mem(&mut self, t: MemTy) -> R<usize> {
        let len = (t.min as u128) << t.page_log2;
        if len > self.mem_cap as u128 { return Err(Trap::Skip("memory too large")); }
        self.mems.push(RMem { data: vec![0; len as usize], ty: t }); Ok(self.mems.len() - 1)
    }
    pub fn new_table(&mut self, t: TableTy, init: V) -> R<usize> {
        if t.min > self.table_cap { return Err(Trap::Skip("table too large")); }
        self.tables.push(RTable { elems: vec![init; t.min as usize], ty: t }); Ok(self.tables.len() - 1)
    }
    pub fn new_global(&mut self, t: GlobalTy, v: V) -> usize { self.globals.push(RGlobal { v, ty: t }); self.globals.len() - 1 }

    /// a long bulk operation counts as many instructions
    fn bulk(&mut self, n: u64) -> R<()> { let n = if n > self.mem_cap { 0 } else { n / 256 }; if self.fuel < n { return Err(Trap::Skip("fuel")) } self.fuel -= n; Ok(()) }
    /// spec `grow`: returns old page count or None
    pub fn mem_grow(&mut self, m: usize, delta: u64) -> R<Option<u64>> {
        let mem = &mut self.mems[m];
        let page = 1u64 << mem.ty.page_log2;
        let old = mem.data.len() as u64 >> mem.ty.page_log2;
        let Some(new) = old.checked_add(delta) else { return Ok(None) };
        let hard = if mem.ty.m64 { 1u128 << (64 - mem.ty.page_log2) } else { 1u128 << (32 - mem.ty.page_log2) };
        let hard = if mem.ty.page_log2 == 0 && !mem.ty.m64 { (1u128 << 32) - 1 } else if mem.ty.page_log2 == 0 { u64::MAX as u128 } else { hard };
        if new as u128 > hard { return Ok(None); }
        if let Some(max) = mem.ty.max { if new > max { return Ok(None) } }
        if new as u128 * page as u128 > self.mem_cap as u128 { return Err(Trap::Skip("memory growth too large for the reference")); }
        mem.data.resize((new * page) as usize, 0);
        mem.ty.min = new; // the current type of a memory has its current size as minimum
        Ok(Some(old))
    }
    pub fn table_grow(&mut self, t: usize, delta: u64, init: V) -> R<Option<u64>> {
        let tb = &mut self.tables[t];
        let old = tb.elems.len() as u64;
        let Some(new) = old.checked_add(delta) else { return Ok(None) };
        if !tb.ty.t64 && new > u32::MAX as u64 { return Ok(None) }
        if let Some(max) = tb.ty.max { if new > max { return Ok(None) } }
        if new > self.table_cap { return Err(Trap::Skip("table growth too large for the reference")); }
        tb.elems.resize(new as usize, init); tb.ty.min = new;
        Ok(Some(old))
    }
    pub fn export(&self, inst: usize, name: &str) -> Option<Ext> {
        let i = &self.insts[inst];
        let (_, k, x) = i.module.exports.iter().find(|e| e.0 == name)?;
        Some(self.ext(inst, *k, *x))
    }
    fn ext(&self, inst: usize, k: Kind, x: u32) -> Ext {
        let i = &self.insts[inst];
        Ext(k, match k { Kind::Func => i.funcs[x as usize], Kind::Table => i.tables[x as usize], Kind::Mem => i.mems[x as usize], Kind::Global => i.globals[x as usize] })
    }

    pub fn limits_ok(amin: u64, amax: Option<u64>, rmin: u64, rmax: Option<u64>) -> bool {
        amin >= rmin && match (amax, rmax) { (_, None) => true, (None, Some(_)) => false, (Some(a), Some(r)) => a <= r }
    }
    pub fn import_ok(&self, types: &[FT], want: &ImpTy, got: Ext) -> bool {
        match (want, got) {
            (ImpTy::Func(t), Ext(Kind::Func, a)) => **self.funcs[a].ty() == types[*t as usize],
            (ImpTy::Global(t), Ext(Kind::Global, a)) => self.globals[a].ty == *t,
            (ImpTy::Table(t), Ext(Kind::Table, a)) => { let x = &self.tables[a]; x.ty.elem == t.elem && x.ty.t64 == t.t64 && Self::limits_ok(x.elems.len() as u64, x.ty.max, t.min, t.max) }
            (ImpTy::Mem(t), Ext(Kind::Mem, a)) => { let x = &self.mems[a]; x.ty.m64 == t.m64 && x.ty.page_log2 == t.page_log2 && Self::limits_ok(x.data.len() as u64 >> x.ty.page_log2, x.ty.max, t.min, t.max) }
            _ => false,
        }
    }

    fn eval(&self, inst: &RInst, c: &Const) -> V {
        let mut st: Vec<V> = vec![];
        for op in c {
            match op {
                O::I32Const { value } => st.push(*value as u32 as V), O::I64Const { value } => st.push(*value as u64 as V),
                O::F32Const { value } => st.push(value.bits() as V), O::F64Const { value } => st.push(value.bits() as V),
                O::V128Const { value } => st.push(value.i128() as V),
                O::RefNull { .. } => st.push(NULL), O::RefFunc { function_index } => st.push(inst.funcs[*function_index as usize] as V),
                O::GlobalGet { global_index } => st.push(self.globals[inst.globals[*global_index as usize]].v),
                O::I32Add | O::I32Sub | O::I32Mul => { let b = st.pop().unwrap() as u32; let a = st.pop().unwrap() as u32; st.push(match op { O::I32Add => a.wrapping_add(b), O::I32Sub => a.wrapping_sub(b), _ => a.wrapping_mul(b) } as V) }
                O::I64Add | O::I64Sub | O::I64Mul => { let b = st.pop().unwrap() as u64; let a = st.pop().unwrap() as u64; st.push(match op { O::I64Add => a.wrapping_add(b), O::I64Sub => a.wrapping_sub(b), _ => a.wrapping_mul(b) } as V) }
                O::End => {}
                _ => panic!("ref: const op {op:?}"),
            }
        }
        st.pop().unwrap()
    }

    /// Instantiates; `start` false leaves the start function to the caller. On failure everything written stays.
    pub fn instantiate(&mut self, m: &Rc<RModule>, imports: &[Ext], start: bool) -> Result<usize, InstErr> {
        if imports.len() != m.imports.len() { return Err(InstErr::Link("unknown import")) }
        let mut inst = RInst { module: m.clone(), types: m.types.iter().map(|t| Rc::new(t.clone())).collect(), ..Default::default() };
        for ((_, _, want), got) in m.imports.iter().zip(imports) {
            if !self.import_ok(&m.types, want, *got) { return Err(InstErr::Link("incompatible import type")) }
            match got.0 { Kind::Func => inst.funcs.push(got.1), Kind::Table => inst.tables.push(got.1), Kind::Mem => inst.mems.push(got.1), Kind::Global => inst.globals.push(got.1) }
        }
        let id = self.insts.len();
        for (i, t) in m.funcs.iter().enumerate() {
            self.funcs.push(RFunc::Wasm { inst: id, ty: inst.types[*t as usize].clone(), code: m.code[i].clone() });
            inst.funcs.push(self.funcs.len() - 1);
        }
        for mt in &m.mems { let a = self.new_mem(mt.clone()).map_err(InstErr::Trap)?; inst.mems.push(a) }
        for (gt, c) in &m.globals { let v = self.eval(&inst, c); let a = self.new_global(gt.clone(), v); inst.globals.push(a) }
        for (t, init) in &m.tables {
            let v = match init { Some(c) => self.eval(&inst, c), None => NULL };
            let a = self.new_table(t.clone(), v).map_err(InstErr::Trap)?; inst.tables.push(a);
        }
        for e in &m.elems { let v = e.items.iter().map(|c| self.eval(&inst, c)).collect(); self.elems.push(v); inst.elems.push(self.elems.len() - 1) }
        for d in &m.datas { self.datas.push(Rc::new(d.bytes.clone())); inst.datas.push(self.datas.len() - 1) }
        let offs_e: Vec<Option<(usize, V)>> = m.elems.iter().map(|e| match &e.mode { SegMode::Active(t, c) => Some((inst.tables[*t as usize], self.eval(&inst, c))), _ => None }).collect();
        let offs_d: Vec<Option<(usize, V)>> = m.datas.iter().map(|d| match &d.mode { SegMode::Active(t, c) => Some((inst.mems[*t as usize], self.eval(&inst, c))), _ => None }).collect();
        let (ea, da) = (inst.elems.clone(), inst.datas.clone());
        let sf = m.start.map(|s| inst.funcs[s as usize]);
        self.insts.push(inst);
        for (i, e) in m.elems.iter().enumerate() {
            match e.mode {
                SegMode::Active(..) => {
                    let (t, off) = offs_e[i].unwrap();
                    let n = self.elems[ea[i]].len() as u64;
                    self.table_init(t, ea[i], off as u64, 0, n).map_err(InstErr::Trap)?;
                    self.elems[ea[i]].clear();
                }
                SegMode::Declared => self.elems[ea[i]].clear(),
                SegMode::Passive => {}
            }
        }
        for (i, _) in m.datas.iter().enumerate() {
            if let Some((mm, off)) = offs_d[i] {
                let n = self.datas[da[i]].len() as u64;
                self.mem_init(mm, da[i], off as u64, 0, n).map_err(InstErr::Trap)?;
                self.datas[da[i]] = Rc::new(vec![]);
            }
        }
        if start { if let Some(f) = sf { self.invoke_from(f, &[], id).map_err(InstErr::Trap)?; } }
        Ok(id)
    }

    pub fn table_init(&mut self, t: usize, e: usize, d: u64, s: u64, n: u64) -> R<()> {
        if s as u128 + n as u128 > self.elems[e].len() as u128 || d as u128 + n as u128 > self.tables[t].elems.len() as u128 { return Err(Trap::TableOob) }
        for i in 0..n as usize { self.tables[t].elems[d as usize + i] = self.elems[e][s as usize + i]; }
        Ok(())
    }
    pub fn mem_init(&mut self, m: usize, dt: usize, d: u64, s: u64, n: u64) -> R<()> {
        let src = self.datas[dt].clone();
        if s as u128 + n as u128 > src.len() as u128 || d as u128 + n as u128 > self.mems[m].data.len() as u128 { return Err(Trap::MemOob) }
        self.mems[m].data[d as usize..(d + n) as usize].copy_from_slice(&src[s as usize..(s + n) as usize]);
        Ok(())
    }
    fn mload<const N: usize>(&self, inst: usize, m: &wasmparser::MemArg, st: &mut Vec<V>) -> R<[u8; N]> {
        let a = st.pop().unwrap();
        let mem = &self.mems[self.insts[inst].mems[m.memory as usize]];
        let ea = a + m.offset as u128;
        if ea + N as u128 > mem.data.len() as u128 { return Err(Trap::MemOob) }
        let mut b = [0; N]; b.copy_from_slice(&mem.data[ea as usize..ea as usize + N]); Ok(b)
    }
    fn mstore(&mut self, inst: usize, m: &wasmparser::MemArg, a: V, bytes: &[u8]) -> R<()> {
        let mi = self.insts[inst].mems[m.memory as usize];
        let mem = &mut self.mems[mi];
        let ea = a + m.offset as u128;
        if ea + bytes.len() as u128 > mem.data.len() as u128 { return Err(Trap::MemOob) }
        mem.data[ea as usize..ea as usize + bytes.len()].copy_from_slice(bytes); Ok(())
    }

    pub fn invoke(&mut self, f: usize, args: &[V]) -> R<Vec<V>> {
        let d0 = self.depth;
        let r = self.invoke_inner(f, args, usize::MAX);
        self.depth = d0;
        r
    }
    /// like `invoke`, but a host function sees `caller` as its calling instance
    pub fn invoke_from(&mut self, f: usize, args: &[V], caller: usize) -> R<Vec<V>> {
        let d0 = self.depth;
        let r = self.invoke_inner(f, args, caller);
        self.depth = d0;
        r
    }
    fn call_host(&mut self, f: HostFn, caller: usize, args: &[V]) -> R<Vec<V>> {
        let d0 = self.depth; self.depth += 1;
        if self.depth > self.max_depth { self.depth = d0; return Err(Trap::Skip("depth")) }
        let r = f(self, caller, args);
        self.depth = d0; r
    }
    fn frame(&mut self, f: usize, st: &mut Vec<V>) -> R<Frame> {
        let RFunc::Wasm { inst, ty, code } = &self.funcs[f] else { unreachable!() };
        let np = ty.params.len();
        let mut locals: Vec<V> = st.split_off(st.len() - np);
        locals.extend(code.locals.iter().map(|t| t.default()));
        let fr = Frame { inst: *inst, code: code.clone(), pc: 0, locals, labels: vec![Label { cont: u32::MAX, arity: ty.results.len() as u32, height: st.len() as u32 }], base: st.len(), nres: ty.results.len() };
        self.depth += 1;
        if self.depth > self.max_depth { return Err(Trap::Skip("depth")) }
        if self.depth > self.max_depth_seen { self.max_depth_seen = self.depth }
        Ok(fr)
    }

    fn bt(&self, inst: usize, b: &BlockType) -> (usize, usize) {
        match b { BlockType::Empty => (0, 0), BlockType::Type(_) => (0, 1), BlockType::FuncType(i) => { let t = &self.insts[inst].types[*i as usize]; (t.params.len(), t.results.len()) } }
    }

    fn invoke_inner(&mut self, f: usize, args: &[V], caller: usize) -> R<Vec<V>> {
        if let RFunc::Host { f, .. } = &self.funcs[f] { let f = f.clone(); return self.call_host(f, caller, args); }
        let mut st: Vec<V> = args.to_vec();
        let mut frames: Vec<Frame> = vec![];
        let mut f0 = self.frame(f, &mut st)?;
        macro_rules! pop { () => { st.pop().unwrap() } }
        // performs a branch in the current frame; evaluates to true when it leaves the function
        macro_rules! br { ($d:expr) => {{
            let idx = f0.labels.len() - 1 - $d as usize;
            let (cont, arity, height) = { let l = &f0.labels[idx]; (l.cont, l.arity as usize, l.height as usize) };
            let from = st.len() - arity;
            if from != height { st.copy_within(from.., height); st.truncate(height + arity); }
            if cont == u32::MAX { true } else {
                // a loop label stays, a block label goes
                if matches!(f0.code.ops[cont as usize], Op::O(O::Loop { .. })) { f0.labels.truncate(idx + 1); f0.pc = cont as usize + 1; }
                else { f0.labels.truncate(idx); f0.pc = cont as usize + 1; }
                false
            }
        }} }
        macro_rules! ret { () => {{
            let n = f0.nres; let from = st.len() - n;
            if from != f0.base { st.copy_within(from.., f0.base); st.truncate(f0.base + n); }
            self.depth -= 1;
            match frames.pop() { Some(p) => { f0 = p; } None => return Ok(st) }
        }} }
        macro_rules! call { ($a:expr) => {{
            let a: usize = $a;
            if let RFunc::Host { f, ty } = &self.funcs[a] {
                let (f, np) = (f.clone(), ty.params.len());
                let args = st.split_off(st.len() - np);
                let r = self.call_host(f, f0.inst, &args)?;
                st.extend(r);
            } else {
                let nf = self.frame(a, &mut st)?;
                frames.push(std::mem::replace(&mut f0, nf));
            }
        }} }
        macro_rules! rcall { ($a:expr) => {{
            let a: usize = $a;
            let np = self.funcs[a].ty().params.len();
            let args = st.split_off(st.len() - np);
            st.truncate(f0.base);
            if let RFunc::Host { f, .. } = &self.funcs[a] {
                let f = f.clone();
                let r = self.call_host(f, f0.inst, &args)?;
                st.extend(r); f0.nres = st.len() - f0.base;
                ret!();
            } else {
                st.extend(args);
                self.depth -= 1;
                f0 = self.frame(a, &mut st)?;
            }
        }} }
        macro_rules! indirect { ($ti:expr, $tb:expr) => {{
            let i = pop!() as u64;
            let t = &self.tables[self.insts[f0.inst].tables[*$tb as usize]];
            if i >= t.elems.len() as u64 { return Err(Trap::UndefElem) }
            let r = t.elems[i as usize];
            if r == NULL { return Err(Trap::UninitElem) }
            let a = r as usize;
            if **self.funcs[a].ty() != *self.insts[f0.inst].types[*$ti as usize] { return Err(Trap::SigMismatch) }
            a
        }} }
        macro_rules! tbl { ($i:expr) => { self.insts[f0.inst].tables[*$i as usize] } }
        macro_rules! mem { ($i:expr) => { self.insts[f0.inst].mems[*$i as usize] } }
        loop {
            if self.fuel == 0 { return Err(Trap::Skip("fuel")) }
            self.fuel -= 1; self.steps += 1;
            let pc = f0.pc; f0.pc += 1;
            if st.len() > self.max_stack { self.max_stack = st.len() }
            let code = f0.code.clone();
            code.seen.borrow_mut()[pc / 64] |= 1 << (pc % 64);
            let op = match &code.ops[pc] {
                Op::BrTable(t, d) => { let i = pop!() as usize; let l = *t.get(i).unwrap_or(d); if br!(l) { ret!() } continue }
                Op::O(o) => o,
            };
            match op {
                O::Unreachable => return Err(Trap::Unreachable),
                O::Nop => {}
                O::Block { blockty } => { let (p, r) = self.bt(f0.inst, blockty); f0.labels.push(Label { cont: code.end[pc], arity: r as u32, height: (st.len() - p) as u32 }) }
                O::Loop { blockty } => { let (p, _) = self.bt(f0.inst, blockty); f0.labels.push(Label { cont: pc as u32, arity: p as u32, height: (st.len() - p) as u32 }) }
                O::If { blockty } => {
                    let c = pop!() as u32;
                    let (p, r) = self.bt(f0.inst, blockty);
                    f0.labels.push(Label { cont: code.end[pc], arity: r as u32, height: (st.len() - p) as u32 });
                    if c == 0 { if code.els[pc] != 0 { f0.pc = code.els[pc] as usize + 1 } else { f0.pc = code.end[pc] as usize } }
                }
                O::Else => { f0.pc = code.end[pc] as usize }
                O::End => { f0.labels.pop(); if f0.labels.is_empty() { ret!() } }
                O::Br { relative_depth } => if br!(*relative_depth) { ret!() },
                O::BrIf { relative_depth } => if pop!() as u32 != 0 { if br!(*relative_depth) { ret!() } },
                O::Return => ret!(),
                O::Call { function_index } => call!(self.insts[f0.inst].funcs[*function_index as usize]),
                O::CallIndirect { type_index, table_index } => { let a = indirect!(type_index, table_index); call!(a) }
                O::ReturnCall { function_index } => rcall!(self.insts[f0.inst].funcs[*function_index as usize]),
                O::ReturnCallIndirect { type_index, table_index } => { let a = indirect!(type_index, table_index); rcall!(a) }
                O::Drop => { pop!(); }
                O::Select | O::TypedSelect { .. } => { let c = pop!() as u32; let b = pop!(); let a = pop!(); st.push(if c != 0 { a } else { b }) }
                O::LocalGet { local_index } => st.push(f0.locals[*local_index as usize]),
                O::LocalSet { local_index } => f0.locals[*local_index as usize] = pop!(),
                O::LocalTee { local_index } => f0.locals[*local_index as usize] = *st.last().unwrap(),
                O::GlobalGet { global_index } => st.push(self.globals[self.insts[f0.inst].globals[*global_index as usize]].v),
                O::GlobalSet { global_index } => { let g = self.insts[f0.inst].globals[*global_index as usize]; self.globals[g].v = pop!() }
                O::TableGet { table } => { let i = pop!() as u64; let t = &self.tables[tbl!(table)]; st.push(*t.elems.get(usize::try_from(i).unwrap_or(usize::MAX)).ok_or(Trap::TableOob)?) }
                O::TableSet { table } => { let v = pop!(); let i = pop!() as u64; let t = tbl!(table); *self.tables[t].elems.get_mut(usize::try_from(i).unwrap_or(usize::MAX)).ok_or(Trap::TableOob)? = v }
                O::TableSize { table } => st.push(self.tables[tbl!(table)].elems.len() as V),
                O::TableGrow { table } => { let n = pop!() as u64; let v = pop!(); let t = tbl!(table); let r = self.table_grow(t, n, v)?; st.push(match r { Some(x) => x as V, None => if self.tables[t].ty.t64 { u64::MAX as V } else { u32::MAX as V } }) }
                O::TableFill { table } => { let n = pop!() as u64; self.bulk(n)?; let v = pop!(); let i = pop!() as u64; let t = tbl!(table); let tb = &mut self.tables[t]; if i as u128 + n as u128 > tb.elems.len() as u128 { return Err(Trap::TableOob) } for x in i..i + n { tb.elems[x as usize] = v } }
                O::TableCopy { dst_table, src_table } => {
                    let n = pop!() as u64; self.bulk(n)?; let s = pop!() as u64; let d = pop!() as u64; let (dt, stt) = (tbl!(dst_table), tbl!(src_table));
                    if s as u128 + n as u128 > self.tables[stt].elems.len() as u128 || d as u128 + n as u128 > self.tables[dt].elems.len() as u128 { return Err(Trap::TableOob) }
                    let tmp = self.tables[stt].elems[s as usize..(s + n) as usize].to_vec();
                    self.tables[dt].elems[d as usize..(d + n) as usize].copy_from_slice(&tmp);
                }
                O::TableInit { elem_index, table } => { let n = pop!() as u64; self.bulk(n)?; let s = pop!() as u64; let d = pop!() as u64; let t = tbl!(table); let e = self.insts[f0.inst].elems[*elem_index as usize]; self.table_init(t, e, d, s, n)? }
                O::ElemDrop { elem_index } => { let e = self.insts[f0.inst].elems[*elem_index as usize]; self.elems[e].clear() }
                O::RefNull { .. } => st.push(NULL),
                O::RefIsNull => { let v = pop!(); st.push((v == NULL) as V) }
                O::RefFunc { function_index } => st.push(self.insts[f0.inst].funcs[*function_index as usize] as V),

                O::I32Load { memarg } => ld!(self, f0, st, *memarg, 4, |b| u32::from_le_bytes(b) as V),
                O::F32Load { memarg } => ld!(self, f0, st, *memarg, 4, |b| u32::from_le_bytes(b) as V),
                O::I64Load { memarg } => ld!(self, f0, st, *memarg, 8, |b| u64::from_le_bytes(b) as V),
                O::F64Load { memarg } => ld!(self, f0, st, *memarg, 8, |b| u64::from_le_bytes(b) as V),
                O::I32Load8S { memarg } => ld!(self, f0, st, *memarg, 1, |b| b[0] as i8 as i32 as u32 as V),
                O::I32Load8U { memarg } => ld!(self, f0, st, *memarg, 1, |b| b[0] as V),
                O::I32Load16S { memarg } => ld!(self, f0, st, *memarg, 2, |b| i16::from_le_bytes(b) as i32 as u32 as V),
                O::I32Load16U { memarg } => ld!(self, f0, st, *memarg, 2, |b| u16::from_le_bytes(b) as V),
                O::I64Load8S { memarg } => ld!(self, f0, st, *memarg, 1, |b| b[0] as i8 as i64 as u64 as V),
                O::I64Load8U { memarg } => ld!(self, f0, st, *memarg, 1, |b| b[0] as V),
                O::I64Load16S { memarg } => ld!(self, f0, st, *memarg, 2, |b| i16::from_le_bytes(b) as i64 as u64 as V),
                O::I64Load16U { memarg } => ld!(self, f0, st, *memarg, 2, |b| u16::from_le_bytes(b) as V),
                O::I64Load32S { memarg } => ld!(self, f0, st, *memarg, 4, |b| i32::from_le_bytes(b) as i64 as u64 as V),
                O::I64Load32U { memarg } => ld!(self, f0, st, *memarg, 4, |b| u32::from_le_bytes(b) as V),
                O::F32Store { memarg } => { if self.nan && is_nan32(st[st.len() - 1]) { self.nan_obs = true } stt!(self, f0, st, *memarg, 4) }
                O::F64Store { memarg } => { if self.nan && is_nan64(st[st.len() - 1]) { self.nan_obs = true } stt!(self, f0, st, *memarg, 8) }
                O::I32Store { memarg } | O::I64Store32 { memarg } => stt!(self, f0, st, *memarg, 4),
                O::I64Store { memarg } => stt!(self, f0, st, *memarg, 8),
                O::I32Store8 { memarg } | O::I64Store8 { memarg } => stt!(self, f0, st, *memarg, 1),
                O::I32Store16 { memarg } | O::I64Store16 { memarg } => stt!(self, f0, st, *memarg, 2),
                O::MemorySize { mem } => { let m = &self.mems[mem!(mem)]; st.push((m.data.len() as u64 >> m.ty.page_log2) as V) }
                O::MemoryGrow { mem } => { let d = pop!() as u64; let m = mem!(mem); let r = self.mem_grow(m, d)?; st.push(match r { Some(x) => x as V, None => if self.mems[m].ty.m64 { u64::MAX as V } else { u32::MAX as V } }) }
                O::MemoryFill { mem } => { let n = pop!() as u64; self.bulk(n)?; let v = pop!() as u8; let d = pop!() as u64; let m = mem!(mem); let mm = &mut self.mems[m]; if d as u128 + n as u128 > mm.data.len() as u128 { return Err(Trap::MemOob) } for i in d..d + n { mm.data[i as usize] = v } }
                O::MemoryCopy { dst_mem, src_mem } => {
                    let n = pop!() as u64; self.bulk(n)?; let s = pop!() as u64; let d = pop!() as u64; let (dm, sm) = (mem!(dst_mem), mem!(src_mem));
                    if s as u128 + n as u128 > self.mems[sm].data.len() as u128 || d as u128 + n as u128 > self.mems[dm].data.len() as u128 { return Err(Trap::MemOob) }
                    let tmp = self.mems[sm].data[s as usize..(s + n) as usize].to_vec();
                    self.mems[dm].data[d as usize..(d + n) as usize].copy_from_slice(&tmp);
                }
                O::MemoryInit { data_index, mem } => { let n = pop!() as u64; self.bulk(n)?; let s = pop!() as u64; let d = pop!() as u64; let m = mem!(mem); let dt = self.insts[f0.inst].datas[*data_index as usize]; self.mem_init(m, dt, d, s, n)? }
                O::DataDrop { data_index } => { let d = self.insts[f0.inst].datas[*data_index as usize]; self.datas[d] = Rc::new(vec![]) }
                O::I32Const { value } => st.push(*value as u32 as V),
                O::I64Const { value } => st.push(*value as u64 as V),
                O::F32Const { value } => st.push(value.bits() as V),
                O::F64Const { value } => st.push(value.bits() as V),
                O::V128Const { value } => st.push(value.i128() as V),

                O::V128Load { memarg } => ld!(self, f0, st, *memarg, 16, |b| u128::from_le_bytes(b)),
                O::V128Store { memarg } => stt!(self, f0, st, *memarg, 16),
                O::V128Load8x8S { memarg } => ld!(self, f0, st, *memarg, 8, |b| { let mut r = 0; for i in 0..8 { r |= (b[i] as i8 as i16 as u16 as V) << (16 * i) } r }),
                O::V128Load8x8U { memarg } => ld!(self, f0, st, *memarg, 8, |b| { let mut r = 0; for i in 0..8 { r |= (b[i] as V) << (16 * i) } r }),
                O::V128Load16x4S { memarg } => ld!(self, f0, st, *memarg, 8, |b| { let mut r = 0; for i in 0..4 { r |= (i16::from_le_bytes([b[2 * i], b[2 * i + 1]]) as i32 as u32 as V) << (32 * i) } r }),
                O::V128Load16x4U { memarg } => ld!(self, f0, st, *memarg, 8, |b| { let mut r = 0; for i in 0..4 { r |= (u16::from_le_bytes([b[2 * i], b[2 * i + 1]]) as V) << (32 * i) } r }),
                O::V128Load32x2S { memarg } => ld!(self, f0, st, *memarg, 8, |b| { let x = u64::from_le_bytes(b); (x as u32 as i32 as i64 as u64 as V) | ((x >> 32) as u32 as i32 as i64 as u64 as V) << 64 }),
                O::V128Load32x2U { memarg } => ld!(self, f0, st, *memarg, 8, |b| { let x = u64::from_le_bytes(b); (x as u32 as V) | ((x >> 32) as V) << 64 }),
                O::V128Load8Splat { memarg } => ld!(self, f0, st, *memarg, 1, |b| { let mut r = 0; for i in 0..16 { r |= (b[0] as V) << (8 * i) } r }),
                O::V128Load16Splat { memarg } => ld!(self, f0, st, *memarg, 2, |b| { let x = u16::from_le_bytes(b) as V; let mut r = 0; for i in 0..8 { r |= x << (16 * i) } r }),
                O::V128Load32Splat { memarg } => ld!(self, f0, st, *memarg, 4, |b| { let x = u32::from_le_bytes(b) as V; x | x << 32 | x << 64 | x << 96 }),
                O::V128Load64Splat { memarg } => ld!(self, f0, st, *memarg, 8, |b| { let x = u64::from_le_bytes(b) as V; x | x << 64 }),
                O::V128Load32Zero { memarg } => ld!(self, f0, st, *memarg, 4, |b| u32::from_le_bytes(b) as V),
                O::V128Load64Zero { memarg } => ld!(self, f0, st, *memarg, 8, |b| u64::from_le_bytes(b) as V),
                O::V128Load8Lane { memarg, lane } => { let v = pop!(); let b = self.mload::<1>(f0.inst, memarg, &mut st)?; st.push(ins(v, 8, *lane, b[0] as V)) }
                O::V128Load16Lane { memarg, lane } => { let v = pop!(); let b = self.mload::<2>(f0.inst, memarg, &mut st)?; st.push(ins(v, 16, *lane, u16::from_le_bytes(b) as V)) }
                O::V128Load32Lane { memarg, lane } => { let v = pop!(); let b = self.mload::<4>(f0.inst, memarg, &mut st)?; st.push(ins(v, 32, *lane, u32::from_le_bytes(b) as V)) }
                O::V128Load64Lane { memarg, lane } => { let v = pop!(); let b = self.mload::<8>(f0.inst, memarg, &mut st)?; st.push(ins(v, 64, *lane, u64::from_le_bytes(b) as V)) }
                O::V128Store8Lane { memarg, lane } => { let v = pop!(); let a = pop!(); self.mstore(f0.inst, memarg, a, &v.to_le_bytes()[*lane as usize..][..1])? }
                O::V128Store16Lane { memarg, lane } => { let v = pop!(); let a = pop!(); self.mstore(f0.inst, memarg, a, &v.to_le_bytes()[*lane as usize * 2..][..2])? }
                O::V128Store32Lane { memarg, lane } => { let v = pop!(); let a = pop!(); self.mstore(f0.inst, memarg, a, &v.to_le_bytes()[*lane as usize * 4..][..4])? }
                O::V128Store64Lane { memarg, lane } => { let v = pop!(); let a = pop!(); self.mstore(f0.inst, memarg, a, &v.to_le_bytes()[*lane as usize * 8..][..8])? }
                o => {
                    // a NaN whose bits are not determined by the spec becomes visible to bit-level operations
                    match o {
                        O::I32ReinterpretF32 | O::F32Copysign | O::F32x4Splat | O::F32x4ReplaceLane { .. } => if self.nan && is_nan32(st[st.len() - 1]) { self.nan_obs = true },
                        O::I64ReinterpretF64 | O::F64Copysign | O::F64x2Splat | O::F64x2ReplaceLane { .. } => if self.nan && is_nan64(st[st.len() - 1]) { self.nan_obs = true },
                        _ => {}
                    }
                    if !crate::refnum::scalar(o, &mut st, &mut self.nan)? && !crate::refnum::simd(o, &mut st, &mut self.nan_obs) { panic!("ref: unsupported operator {o:?}") }
                    if self.nan_obs { self.nan = true }
                }
            }
        }
    }

    /// names of all operators that were executed by any code of the store
    pub fn executed_ops(&self, into: &mut BTreeSet<String>) -> u64 {
        let mut n = 0;
        let mut done: Vec<*const Code> = vec![];
        for f in &self.funcs {
            if let RFunc::Wasm { code, .. } = f {
                if done.contains(&Rc::as_ptr(code)) { continue }
                done.push(Rc::as_ptr(code));
                let seen = code.seen.borrow();
                for (i, o) in code.ops.iter().enumerate() {
                    if seen[i / 64] >> (i % 64) & 1 == 1 { n += 1; into.insert(opname(o)); }
                }
            }
        }
        n
    }
}
pub fn is_nan32(v: V) -> bool { v as u32 & 0x7fff_ffff > 0x7f80_0000 }
pub fn is_nan64(v: V) -> bool { v as u64 & (u64::MAX >> 1) > 0x7ff0_0000_0000_0000 }
pub fn opname(o: &Op) -> String {
    match o { Op::BrTable(..) => "BrTable".into(), Op::O(o) => { let s = format!("{o:?}"); let e = s.find([' ', '{', '(']).unwrap_or(s.len()); s[..e].to_string() } }
}
pub fn ins(v: V, w: u32, lane: u8, x: V) -> V { let sh = w * lane as u32; let mask = ((1u128 << w) - 1) << sh; (v & !mask) | (x << sh) }
