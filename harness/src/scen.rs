//! Scenarios: histories of embedder actions over one store, run on the reference interpreter and on tinywasm.
use crate::modgen::*;
use crate::refi::*;
use crate::rng::{splitmix, Rng};
use std::cell::RefCell;
use std::rc::Rc;

#[derive(Clone, Debug)]
pub enum Item { Obj(usize), Exp(usize, String) }
/// Behaviour of a host function; mirrored on both sides.
#[derive(Clone, Debug, PartialEq)]
pub enum HostKind {
    Log,
    /// fails on calls whose number is divisible by n
    Fail(u32),
    /// reads and writes memory `name` of the calling instance
    Poke(String),
    /// bumps global `name` of the calling instance
    Bump(String),
    /// grows memory `name` of the calling instance by one page on every third call
    Grow(String),
    /// calls the exports of the calling instance in turn, while `left` > 0; swallows errors or passes them on
    Reenter { names: Vec<String>, left: u32, swallow: bool },
    /// charges fuel (no effect on the reference)
    Charge(u32),
}
#[derive(Clone, Debug)]
pub enum Act {
    HostFn { ty: FT, kind: HostKind },
    Mem(MemTy), Table(TableTy), Global(GlobalTy, V),
    Inst { m: usize, imports: Vec<(String, String, Item)>, start: bool },
    Start(usize),
    Call { slot: usize, name: String, args: Vec<(Ty, V)> },
    MemWrite { it: Item, off: u64, bytes: Vec<u8> }, MemGrow { it: Item, delta: u64 }, MemFill { it: Item, off: u64, len: u64, val: u8 }, MemCopy { it: Item, dst: u64, src: u64, len: u64 }, MemRead { it: Item, off: u64, len: u64 },
    TableSet { it: Item, idx: u32, from: Option<(Item, u32)> }, TableGrow { it: Item, delta: u32 }, TableCopy { it: Item, dst: u64, src: u64, len: u64 },
    GlobalSet { it: Item, v: V },
}
#[derive(Clone, Default)]
pub struct Scen { pub modules: Vec<Vec<u8>>, pub acts: Vec<Act>, /// beyond the usual sizes
 pub big: bool }

#[derive(Clone, Debug, PartialEq)]
pub enum Out { Vals(Vec<(Ty, V)>), Trap(String), Link(&'static str), Fail, NA }
#[derive(Clone, Debug)]
pub struct Event { pub host: usize, pub args: Vec<(Ty, V)> }
#[derive(Clone, Default)]
pub struct Snap { pub mems: Vec<Rc<Vec<u8>>>, pub tables: Vec<Vec<V>>, pub globals: Vec<(Ty, V)> }
/// index spaces of one successful instance, in reference store addresses
#[derive(Clone, Default)]
pub struct Spaces { pub mems: Vec<usize>, pub tables: Vec<usize>, pub globals: Vec<usize>, pub exports: Vec<(String, Ext)> }
pub struct Step { pub out: Out, pub events: Vec<Event>, pub snap: Snap, pub slots: usize }
pub struct Trace { pub steps: Vec<Step>, pub spaces: Vec<Option<Spaces>>, pub obj_addr: Vec<Option<Ext>>, pub skip: Option<&'static str>, pub ref_steps: u64, pub traps: u64, pub calls: u64, pub max_depth: usize, pub ops: std::collections::BTreeSet<String>, pub ops_executed: u64, pub host_calls: u64, pub failed_inst: u64 }

pub fn trap_class(t: &Trap) -> String {
    match t {
        Trap::Unreachable => "unreachable".into(), Trap::DivZero => "integer divide by zero".into(), Trap::IntOverflow => "integer overflow".into(), Trap::BadConv => "invalid conversion to integer".into(),
        Trap::MemOob => "out of bounds memory access".into(), Trap::TableOob => "out of bounds table access".into(), Trap::UndefElem => "undefined element".into(), Trap::UninitElem => "uninitialized element".into(),
        Trap::SigMismatch => "indirect call type mismatch".into(), Trap::Host(s) => format!("host:{s}"), Trap::Other(s) => format!("other:{s}"), Trap::Skip(s) => format!("skip:{s}"),
    }
}
/// results of the n-th call of host function `id`: a deterministic function of its inputs
pub fn host_results(id: usize, n: u64, res: &[Ty], args: &[(Ty, V)]) -> Vec<V> {
    let mut h = 0x1234_5678u64 ^ (id as u64) << 32 ^ n;
    for (t, a) in args { if !t.is_ref() && !matches!(t, Ty::F32 | Ty::F64 | Ty::V128) { h ^= (*a as u64) ^ (*a >> 64) as u64; } splitmix(&mut h); }
    res.iter().map(|t| {
        let x = splitmix(&mut h);
        match t {
            Ty::I32 => (if x & 3 == 0 { x >> 32 } else { (x >> 8) & 63 }) as u32 as V, Ty::I64 => if x & 3 == 0 { x as V } else { ((x >> 8) & 255) as V },
            Ty::F32 => (((x >> 20) as i16) as f32 / 4.0).to_bits() as V, Ty::F64 => (((x >> 20) as i32) as f64 / 8.0).to_bits() as V,
            Ty::V128 => x as V | (x.rotate_left(17) as V) << 64,
            Ty::Func | Ty::Extern => args.iter().find(|a| a.0 == *t).map(|a| a.1).unwrap_or(if *t == Ty::Extern { (x & 0xff) as V } else { NULL }),
        }
    }).collect()
}
/// arguments for a nested call, derived from the outer arguments
pub fn reenter_args(params: &[Ty], n: u64, args: &[(Ty, V)]) -> Vec<V> { host_results(77, n, params, args) }

#[derive(Default)]
pub struct HostState { pub log: RefCell<Vec<Event>>, pub count: RefCell<Vec<u64>>, pub left: RefCell<Vec<u32>> }

pub fn ref_host(st: &Rc<HostState>, id: usize, ty: &FT, kind: &HostKind) -> HostFn {
    let (st, ty, kind) = (st.clone(), ty.clone(), kind.clone());
    Rc::new(move |s: &mut RStore, inst: usize, args: &[V]| {
        let targs: Vec<(Ty, V)> = ty.params.iter().copied().zip(args.iter().copied()).collect();
        st.log.borrow_mut().push(Event { host: id, args: targs.clone() });
        let n = { let mut c = st.count.borrow_mut(); c[id] += 1; c[id] };
        let mut extra = 0u64;
        match &kind {
            HostKind::Log | HostKind::Charge(_) => {}
            HostKind::Fail(k) => if n % *k as u64 == 0 { return Err(Trap::Host(format!("hostfail {id} {n}"))) },
            HostKind::Poke(name) => if inst != usize::MAX { if let Some(Ext(Kind::Mem, m)) = s.export(inst, name) {
                let d = &mut s.mems[m].data; if d.len() >= 8 { let a = (n as usize * 13) % (d.len() - 1); extra = d[a] as u64; d[a] = d[a].wrapping_add(n as u8) }
            } },
            HostKind::Bump(name) => if inst != usize::MAX { if let Some(Ext(Kind::Global, g)) = s.export(inst, name) { let g = &mut s.globals[g]; if g.ty == (GlobalTy { ty: Ty::I32, mutable: true }) { g.v = (g.v as u32).wrapping_add(n as u32) as V } } },
            HostKind::Grow(name) => if inst != usize::MAX && n % 3 == 0 { if let Some(Ext(Kind::Mem, m)) = s.export(inst, name) { extra = s.mem_grow(m, 1)?.map(|x| x + 1).unwrap_or(0) } },
            HostKind::Reenter { names, swallow, .. } => {
                let go = { let mut l = st.left.borrow_mut(); if l[id] > 0 { l[id] -= 1; true } else { false } };
                if go && inst != usize::MAX {
                    let name = &names[n as usize % names.len()];
                    if let Some(Ext(Kind::Func, f)) = s.export(inst, name) {
                        let fty = s.funcs[f].ty().clone();
                        let a = reenter_args(&fty.params, n, &targs);
                        // a nested call starts from the host function, which belongs to the calling instance
                        let r = s.invoke_from(f, &a, inst);
                        match r {
                            Ok(v) => { for (t, x) in fty.results.iter().zip(v) { if matches!(t, Ty::I32 | Ty::I64) { extra = extra.rotate_left(7) ^ x as u64 } } }
                            Err(t @ Trap::Skip(_)) => return Err(t),
                            Err(t) => if !*swallow { return Err(t) } else { extra = 99 },
                        }
                    }
                }
            }
        }
        let n2 = n ^ (extra << 8);
        Ok(host_results(id, n2, &ty.results, &targs))
    })
}

pub struct RefRun { pub s: RStore, pub objs: Vec<Option<Ext>>, pub slots: Vec<Option<usize>> }
impl RefRun {
    fn item(&self, it: &Item) -> Option<Ext> {
        match it { Item::Obj(k) => self.objs.get(*k).copied().flatten(), Item::Exp(s, n) => self.s.export((*self.slots.get(*s)?)?, n) }
    }
}
pub fn snap(s: &RStore, prev: Option<&Snap>) -> Snap {
    Snap {
        mems: s.mems.iter().enumerate().map(|(i, m)| match prev.and_then(|p| p.mems.get(i)) { Some(p) if **p == m.data => p.clone(), _ => Rc::new(m.data.clone()) }).collect(),
        tables: s.tables.iter().map(|t| t.elems.clone()).collect(), globals: s.globals.iter().map(|g| (g.ty.ty, g.v)).collect(),
    }
}

/// Runs the scenario on the reference. The trace ends before the first action whose outcome the reference cannot judge.
pub fn run_ref(sc: &Scen, fuel: u64) -> Trace {
    let st = Rc::new(HostState::default());
    let mut rr = RefRun { s: RStore { fuel, mem_cap: if sc.big { 8 << 20 } else { 4 << 20 }, table_cap: if sc.big { 400_000 } else { 20_000 }, ..Default::default() }, objs: vec![], slots: vec![] };
    let mods: Vec<Rc<RModule>> = sc.modules.iter().map(|b| Rc::new(RModule::decode(b).expect("generated module decodes"))).collect();
    let mut tr = Trace { steps: vec![], spaces: vec![], obj_addr: vec![], skip: None, ref_steps: 0, traps: 0, calls: 0, max_depth: 0, ops: Default::default(), ops_executed: 0, host_calls: 0, failed_inst: 0 };
    let conv = |t: Trap| -> Result<Out, &'static str> { match t { Trap::Skip(s) => Err(s), t => Ok(Out::Trap(trap_class(&t))) } };
    let mut prev: Option<Snap> = None;
    for a in &sc.acts {
        let r: Result<Out, &'static str> = (|| match a {
            Act::HostFn { ty, kind } => {
                let id = rr.objs.len();
                let mut c = st.count.borrow_mut(); while c.len() <= id { c.push(0); st.left.borrow_mut().push(0) }
                if let HostKind::Reenter { left, .. } = kind { st.left.borrow_mut()[id] = *left }
                let f = rr.s.new_host(ty.clone(), ref_host(&st, id, ty, kind)); rr.objs.push(Some(Ext(Kind::Func, f))); Ok(Out::NA)
            }
            Act::Mem(t) => { match rr.s.new_mem(t.clone()) { Ok(m) => rr.objs.push(Some(Ext(Kind::Mem, m))), Err(_) => return Err("mem") } Ok(Out::NA) }
            Act::Table(t) => { match rr.s.new_table(t.clone(), NULL) { Ok(m) => rr.objs.push(Some(Ext(Kind::Table, m))), Err(_) => return Err("table") } Ok(Out::NA) }
            Act::Global(t, v) => { let g = rr.s.new_global(t.clone(), *v); rr.objs.push(Some(Ext(Kind::Global, g))); Ok(Out::NA) }
            Act::Inst { m, imports, start } => {
                let mut v = vec![];
                let (mut unknown, mut wrong) = (false, false);
                for ((_, _, it), (_, _, want)) in imports.iter().zip(&mods[*m].imports) { match rr.item(it) { Some(e) => { wrong |= !rr.s.import_ok(&mods[*m].types, want, e); v.push(e) } None => unknown = true } }
                // with several reasons to fail, either may be reported
                if unknown { rr.slots.push(None); tr.spaces.push(None); return Ok(Out::Link(if wrong { "any" } else { "unknown import" })) }
                match rr.s.instantiate(&mods[*m], &v, *start) {
                    Ok(id) => { let i = &rr.s.insts[id]; tr.spaces.push(Some(Spaces { mems: i.mems.clone(), tables: i.tables.clone(), globals: i.globals.clone(), exports: i.module.exports.iter().filter_map(|(n, ..)| rr.s.export(id, n).map(|e| (n.clone(), e))).collect() })); rr.slots.push(Some(id)); Ok(Out::Vals(vec![])) }
                    Err(e) => { rr.slots.push(None); tr.spaces.push(None); match e { InstErr::Link(s) => Ok(Out::Link(s)), InstErr::Trap(t) => { tr.failed_inst += 1; conv(t) } } }
                }
            }
            Act::Start(slot) => { let Some(Some(id)) = rr.slots.get(*slot) else { return Ok(Out::NA) }; match rr.s.insts[*id].module.start { None => Ok(Out::NA), Some(f) => { let f = rr.s.insts[*id].funcs[f as usize]; match rr.s.invoke_from(f, &[], *id) { Ok(_) => Ok(Out::Vals(vec![])), Err(t) => conv(t) } } } }
            Act::Call { slot, name, args } => {
                let Some(Some(id)) = rr.slots.get(*slot) else { return Ok(Out::NA) };
                let Some(Ext(Kind::Func, f)) = rr.s.export(*id, name) else { return Ok(Out::Fail) };
                tr.calls += 1;
                let ty = rr.s.funcs[f].ty().clone();
                let id = *id;
                // a host function that is called directly by the embedder belongs to the instance it was looked up in
                let args: Vec<V> = args.iter().map(|a| a.1).collect();
                match rr.s.invoke_from(f, &args, id) { Ok(v) => Ok(Out::Vals(ty.results.iter().copied().zip(v).collect())), Err(t) => { if !matches!(t, Trap::Skip(_)) { tr.traps += 1 } conv(t) } }
            }
            Act::MemWrite { it, off, bytes } => { let Some(Ext(Kind::Mem, m)) = rr.item(it) else { return Ok(Out::NA) }; let d = &mut rr.s.mems[m].data; let e = *off as u128 + bytes.len() as u128; if e > d.len() as u128 { Ok(Out::Fail) } else { d[*off as usize..e as usize].copy_from_slice(bytes); Ok(Out::Vals(vec![])) } }
            Act::MemRead { it, off, len } => { let Some(Ext(Kind::Mem, m)) = rr.item(it) else { return Ok(Out::NA) }; let d = &rr.s.mems[m].data; let e = *off as u128 + *len as u128; if e > d.len() as u128 { Ok(Out::Fail) } else { Ok(Out::Vals(vec![(Ty::I64, crate::hash_bytes(&d[*off as usize..e as usize]) as V)])) } }
            Act::MemFill { it, off, len, val } => { let Some(Ext(Kind::Mem, m)) = rr.item(it) else { return Ok(Out::NA) }; let d = &mut rr.s.mems[m].data; let e = *off as u128 + *len as u128; if e > d.len() as u128 { Ok(Out::Fail) } else { d[*off as usize..e as usize].fill(*val); Ok(Out::Vals(vec![])) } }
            Act::MemCopy { it, dst, src, len } => { let Some(Ext(Kind::Mem, m)) = rr.item(it) else { return Ok(Out::NA) }; let d = &mut rr.s.mems[m].data; if *src as u128 + *len as u128 > d.len() as u128 || *dst as u128 + *len as u128 > d.len() as u128 { Ok(Out::Fail) } else { d.copy_within(*src as usize..(*src + *len) as usize, *dst as usize); Ok(Out::Vals(vec![])) } }
            Act::MemGrow { it, delta } => { let Some(Ext(Kind::Mem, m)) = rr.item(it) else { return Ok(Out::NA) }; match rr.s.mem_grow(m, *delta) { Ok(Some(x)) => Ok(Out::Vals(vec![(Ty::I64, x as V)])), Ok(None) => Ok(Out::Fail), Err(_) => Err("grow") } }
            Act::TableSet { it, idx, from } => {
                let Some(Ext(Kind::Table, t)) = rr.item(it) else { return Ok(Out::NA) };
                let v = match from { None => NULL, Some((fi, k)) => { let Some(Ext(Kind::Table, ft)) = rr.item(fi) else { return Ok(Out::NA) }; if rr.s.tables[ft].ty.elem != rr.s.tables[t].ty.elem { return Ok(Out::NA) } match rr.s.tables[ft].elems.get(*k as usize) { Some(v) => *v, None => return Ok(Out::Fail) } } };
                match rr.s.tables[t].elems.get_mut(*idx as usize) { Some(s) => { *s = v; Ok(Out::Vals(vec![])) } None => Ok(Out::Fail) }
            }
            Act::TableGrow { it, delta } => { let Some(Ext(Kind::Table, t)) = rr.item(it) else { return Ok(Out::NA) }; match rr.s.table_grow(t, *delta as u64, NULL) { Ok(Some(x)) => Ok(Out::Vals(vec![(Ty::I64, x as V)])), Ok(None) => Ok(Out::Fail), Err(_) => Err("grow") } }
            Act::TableCopy { it, dst, src, len } => { let Some(Ext(Kind::Table, t)) = rr.item(it) else { return Ok(Out::NA) }; let e = &mut rr.s.tables[t].elems; if *src as u128 + *len as u128 > e.len() as u128 || *dst as u128 + *len as u128 > e.len() as u128 { Ok(Out::Fail) } else { e.copy_within(*src as usize..(*src + *len) as usize, *dst as usize); Ok(Out::Vals(vec![])) } }
            Act::GlobalSet { it, v } => { let Some(Ext(Kind::Global, g)) = rr.item(it) else { return Ok(Out::NA) }; let g = &mut rr.s.globals[g]; if g.ty.mutable { g.v = *v; Ok(Out::Vals(vec![])) } else { Ok(Out::Fail) } }
        })();
        tr.obj_addr = rr.objs.clone();
        match r {
            Err(s) => { tr.skip = Some(s); break }
            Ok(_) if rr.s.nan_obs => { tr.skip = Some("nan bits observed"); break }
            Ok(out) => {
                let events: Vec<Event> = st.log.borrow_mut().drain(..).collect();
                tr.host_calls += events.len() as u64;
                let sn = snap(&rr.s, prev.as_ref()); prev = Some(sn.clone());
                tr.steps.push(Step { out, events, snap: sn, slots: rr.slots.len() });
            }
        }
    }
    tr.ref_steps = rr.s.steps; tr.max_depth = rr.s.max_depth_seen;
    tr.ops_executed = rr.s.executed_ops(&mut tr.ops);
    tr
}

// ------------------------------------------------------------------ generation
#[derive(Clone, Debug)]
pub struct ScenProf { pub p: Prof, pub mods: usize, pub calls: usize, pub host: u32, pub reenter: u32, pub fail: u32, pub hostops: u32, pub import: u32, pub mismatch: u32, pub hostmem: u32 }
impl Default for ScenProf { fn default() -> Self { ScenProf { p: Prof::default(), mods: 2, calls: 8, host: 60, reenter: 20, fail: 10, hostops: 12, import: 60, mismatch: 0, hostmem: 30 } } }

pub fn val(r: &mut Rng, t: Ty) -> V {
    match t { Ty::I32 => r.i32v() as u32 as V, Ty::I64 => r.i64v() as u64 as V, Ty::F32 => r.f32bits() as V, Ty::F64 => r.f64bits() as V, Ty::V128 => r.v128v(), Ty::Func => NULL, Ty::Extern => match r.below(9) { 0..=2 => NULL, 3 => *r.pick(&[0u32, 0x7fff_ffff, 0x8000_0000, 0xffff_fffe, 0x0001_0000]) as V, _ => r.below(200) as V } }
}
#[derive(Clone)]
struct Avail { it: Item, ty: Imp }

pub fn gen_scen(r: &mut Rng, sp: &ScenProf) -> Scen {
    let mut sc = Scen::default();
    let mut pool: Vec<Avail> = vec![];
    let mut nobj = 0;
    let nm = r.range(1, sp.mods);
    let mut shapes: Vec<Shape> = vec![]; // per slot
    let mut names = vec!["f0".to_string(), "f1".to_string(), "f2".to_string(), "f3".to_string()];
    r.shuffle(&mut names);
    if r.chance(sp.host as usize, 100) {
        for _ in 0..r.range(1, 4) {
            let ty = gen_ftype(r, &sp.p);
            let kind = if r.chance(sp.reenter as usize, 100) { HostKind::Reenter { names: names.clone(), left: r.range(1, 6) as u32, swallow: r.chance(1, 2) } }
                else if r.chance(sp.fail as usize, 100) { HostKind::Fail(r.range(1, 9) as u32) }
                else { match r.below(8) { 0 => HostKind::Poke(format!("m{}", r.below(2))), 1 => HostKind::Bump(format!("g{}", r.below(4))), 2 => HostKind::Grow(format!("m{}", r.below(2))), 3 => HostKind::Charge(r.below(300) as u32), _ => HostKind::Log } };
            sc.acts.push(Act::HostFn { ty: ty.clone(), kind }); pool.push(Avail { it: Item::Obj(nobj), ty: Imp::Func(ty) }); nobj += 1;
        }
    }
    if r.chance(sp.hostmem as usize, 100) {
        let m = gen_mem(r, &sp.p); sc.acts.push(Act::Mem(m.clone())); pool.push(Avail { it: Item::Obj(nobj), ty: Imp::Mem(m) }); nobj += 1;
        if r.chance(1, 2) { let mut t = gen_table(r, &sp.p); t.t64 = r.chance(1, 8); sc.acts.push(Act::Table(t.clone())); pool.push(Avail { it: Item::Obj(nobj), ty: Imp::Table(t) }); nobj += 1; }
        if r.chance(1, 2) { let g = gen_gtype(r, &sp.p); let v = val(r, g.ty); sc.acts.push(Act::Global(g.clone(), v)); pool.push(Avail { it: Item::Obj(nobj), ty: Imp::Global(g) }); }
    }
    for k in 0..nm {
        let mut imports = vec![]; let mut items = vec![];
        if !pool.is_empty() && r.chance(sp.import as usize + 20 * k, 100) {
            for i in 0..r.range(1, 6) {
                let a = r.pick(&pool).clone();
                let mut ty = a.ty.clone();
                match &mut ty { // a looser declaration is also compatible
                    Imp::Mem(m) => { if r.chance(1, 3) { m.min = r.below(m.min as usize + 1) as u64 } if r.chance(1, 3) { m.max = m.max.and_then(|x| if r.chance(1, 2) { None } else { Some(x + 1) }) } if m.page_log2 == 16 { m.max = m.max.map(|x| x.min(65536)) } }
                    Imp::Table(t) => { if r.chance(1, 3) { t.min = r.below(t.min as usize + 1) as u64 } if r.chance(1, 3) { t.max = t.max.and_then(|x| if r.chance(1, 2) { None } else { Some(x + 1) }) } }
                    _ => {}
                }
                if r.chance(sp.mismatch as usize, 100) { mismatch(r, &mut ty) }
                let name = format!("i{i}");
                items.push(("env".to_string(), name.clone(), a.it.clone())); imports.push(Import { module: "env".into(), name, ty });
            }
        }
        // an optional second copy of an earlier module
        if k > 0 && r.chance(1, 8) && imports.is_empty() {
            let m = r.below(sc.modules.len()); let sh = shapes[m].clone();
            if sh.nimp + sh.nimpm + sh.nimpt + sh.nimpg == 0 { sc.acts.push(Act::Inst { m, imports: vec![], start: true }); add_exports(&mut pool, k, &sh); shapes.push(sh); calls(r, sp, &mut sc, &shapes, &pool); continue }
        }
        let (b, sh) = gen_module(r, &sp.p, &imports);
        sc.modules.push(b);
        let m = sc.modules.len() - 1;
        while shapes.len() < k { shapes.push(Shape::default()) }
        sc.acts.push(Act::Inst { m, imports: items, start: true });
        add_exports(&mut pool, k, &sh);
        shapes.push(sh);
        calls(r, sp, &mut sc, &shapes, &pool);
    }
    sc
}
fn mismatch(r: &mut Rng, t: &mut Imp) {
    match t {
        Imp::Func(f) => match r.below(3) { 0 => f.params.push(Ty::I32), 1 => f.results.push(Ty::I64), _ => { if f.params.pop().is_none() { f.params.push(Ty::F32) } } },
        Imp::Mem(m) => match r.below(5) { 0 => m.min += 1, 1 => m.max = Some(m.min), 2 => m.m64 = !m.m64, 3 => m.max = Some(m.max.unwrap_or(10).saturating_sub(1).max(m.min)), _ => *t = Imp::Global(GlobalTy { ty: Ty::I32, mutable: true }) },
        Imp::Table(x) => match r.below(4) { 0 => x.min += 1, 1 => x.max = Some(x.min), 2 => x.elem = if x.elem == Ty::Func { Ty::Extern } else { Ty::Func }, _ => x.t64 = !x.t64 },
        Imp::Global(g) => match r.below(2) { 0 => g.mutable = !g.mutable, _ => g.ty = if g.ty == Ty::I32 { Ty::I64 } else { Ty::I32 } },
    }
    if let Imp::Mem(m) = t { if let Some(x) = m.max { m.min = m.min.min(x) } }
    if let Imp::Table(m) = t { if let Some(x) = m.max { m.min = m.min.min(x) } }
}
fn add_exports(pool: &mut Vec<Avail>, slot: usize, sh: &Shape) {
    for (n, k, i) in &sh.exports {
        let i = *i as usize;
        let ty = match k { Kind::Func => Imp::Func(sh.fty(i as u32).clone()), Kind::Mem => Imp::Mem(sh.mems[i].clone()), Kind::Table => Imp::Table(sh.tables[i].clone()), Kind::Global => Imp::Global(sh.globals[i].clone()) };
        pool.push(Avail { it: Item::Exp(slot, n.clone()), ty });
    }
}
fn calls(r: &mut Rng, sp: &ScenProf, sc: &mut Scen, shapes: &[Shape], pool: &[Avail]) {
    let n = r.range(sp.calls / 2, sp.calls);
    for _ in 0..n {
        if r.chance(sp.hostops as usize, 100) && !pool.is_empty() {
            let a = r.pick(pool).clone(); let it = a.it;
            let off = |r: &mut Rng, m: &MemTy| { let sz = m.min << m.page_log2; match r.below(6) { 0 => sz.wrapping_sub(r.below(20) as u64), 1 => sz + r.below(2) as u64, 2 => u64::MAX - r.below(9) as u64, _ => if sz == 0 { 0 } else { r.u64() % sz } } };
            match a.ty {
                Imp::Mem(m) => { let o = off(r, &m); sc.acts.push(match r.below(5) { 0 => Act::MemWrite { it, off: o, bytes: (0..r.below(17)).map(|_| r.u32() as u8).collect() }, 1 => Act::MemRead { it, off: o, len: r.below(4000) as u64 }, 2 => Act::MemFill { it, off: o, len: r.below(3000) as u64, val: r.u32() as u8 }, 3 => Act::MemCopy { it, dst: o, src: off(r, &m), len: r.below(3000) as u64 }, _ => Act::MemGrow { it, delta: r.below(3) as u64 } }) }
                Imp::Table(t) => { let idx = r.below(t.min as usize + 2) as u32; sc.acts.push(match r.below(4) {
                    0 => Act::TableGrow { it, delta: r.below(3) as u32 }, 1 => Act::TableCopy { it, dst: idx as u64, src: r.below(t.min as usize + 1) as u64, len: r.below(6) as u64 }, 2 => Act::TableSet { it, idx, from: None },
                    _ => { let c: Vec<&Avail> = pool.iter().filter(|x| matches!(&x.ty, Imp::Table(u) if u.elem == t.elem)).collect(); let f = (*r.pick(&c)).clone(); Act::TableSet { it, idx, from: Some((f.it, r.below(8) as u32)) } } }) }
                Imp::Global(g) => { let v = val(r, g.ty); sc.acts.push(Act::GlobalSet { it, v }) }
                Imp::Func(_) => {}
            }
            continue;
        }
        let slot = if r.chance(2, 3) { shapes.len() - 1 } else { r.below(shapes.len()) };
        let fs: Vec<&(String, Kind, u32)> = shapes[slot].exports.iter().filter(|e| e.1 == Kind::Func).collect();
        if fs.is_empty() { continue }
        let (name, _, i) = (*r.pick(&fs)).clone();
        let args = shapes[slot].fty(i).params.clone().iter().map(|t| (*t, val(r, *t))).collect();
        sc.acts.push(Act::Call { slot, name, args });
    }
}
