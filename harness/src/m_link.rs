//! The matrix of import declarations against supplied objects (C14): every kind and type of object, host-made, exported or
//! re-exported, grown or not, against exact, looser, tighter and wrong declarations, supplied in every way.
use crate::m_exec::{bad, module};
use crate::mon::{Obs, R};
use crate::rng::Rng;
use tinywasm::types::{ExternRef, FuncRef, FuncType, GlobalType, MemoryArch, MemoryType, TableType, WasmType, WasmValue};
use tinywasm::{Error, Function, Global, HostFunction, Imports, LinkingError, Memory, ModuleInstance, Store, Table};

const TY: [(&str, WasmType); 7] = [("i32", WasmType::I32), ("i64", WasmType::I64), ("f32", WasmType::F32), ("f64", WasmType::F64), ("v128", WasmType::V128), ("funcref", WasmType::RefFunc), ("externref", WasmType::RefExtern)];
#[derive(Clone, PartialEq, Debug)]
enum T { F(Vec<usize>, Vec<usize>), G(usize, bool), T { ext: bool, t64: bool, min: u64, max: Option<u64> }, M { m64: bool, one: bool, min: u64, max: Option<u64> } }
#[derive(Clone)]
enum H { F(Function), G(Global), T(Table), M(Memory) }
struct Ob { t: T, h: H, name: String, host: bool, foreign: bool }

fn zero(t: usize) -> (String, WasmValue) {
    match t { 0 => ("(i32.const 7)".into(), WasmValue::I32(7)), 1 => ("(i64.const 7)".into(), WasmValue::I64(7)), 2 => ("(f32.const 7)".into(), WasmValue::F32(7.0)), 3 => ("(f64.const 7)".into(), WasmValue::F64(7.0)), 4 => ("(v128.const i64x2 7 7)".into(), WasmValue::V128([7, 0, 0, 0, 0, 0, 0, 0, 7, 0, 0, 0, 0, 0, 0, 0])), 5 => ("(ref.null func)".into(), WasmValue::RefFunc(FuncRef::null())), _ => ("(ref.null extern)".into(), WasmValue::RefExtern(ExternRef::null())) }
}
fn sig(p: &[usize], r: &[usize]) -> String { format!("{} {}", p.iter().map(|t| format!("(param {})", TY[*t].0)).collect::<String>(), r.iter().map(|t| format!("(result {})", TY[*t].0)).collect::<String>()) }
fn lim(x64: bool, min: u64, max: Option<u64>) -> String { format!("{}{min}{}", if x64 { "i64 " } else { "" }, max.map(|m| format!(" {m}")).unwrap_or_default()) }
impl T {
    fn random(r: &mut Rng) -> T {
        match r.below(4) {
            0 => { let k = if r.chance(1, 8) { 20 } else { 1 }; T::F((0..r.below(4) * k).map(|_| r.below(7)).collect(), (0..r.below(3) * k).map(|_| r.below(7)).collect()) }
            1 => T::G(r.below(7), r.chance(1, 2)),
            2 => { let min = if r.chance(1, 8) { *r.pick(&[255u64, 256, 257, 300, 1000, 65535, 65536, 65600]) } else { r.below(5) as u64 }; let t = T::T { ext: r.chance(1, 2), t64: r.chance(1, 4), min, max: None }; t.max(min, r) }
            _ => { let one = r.chance(1, 3); let min = if one && r.chance(1, 6) { *r.pick(&[255u64, 256, 300, 65535, 65536, 70000]) } else { r.below(3) as u64 }; let t = T::M { m64: r.chance(1, 4), one, min, max: None }; t.max(min, r) }
        }
    }
    fn text(&self, body: bool) -> String { // the type; for a definition with its initial value
        match self {
            T::F(p, r) => format!("func {} {}", sig(p, r), if body { r.iter().map(|t| zero(*t).0).collect::<String>() } else { String::new() }),
            T::G(t, m) => format!("global {} {}", if *m { format!("(mut {})", TY[*t].0) } else { TY[*t].0.into() }, if body { zero(*t).0 } else { String::new() }),
            T::T { ext, t64, min, max } => format!("table {} {}", lim(*t64, *min, *max), if *ext { "externref" } else { "funcref" }),
            T::M { m64, one, min, max } => format!("memory {} {}", lim(*m64, *min, *max), if *one { "(pagesize 1)" } else { "" }),
        }
    }
    /// the largest limit that may be declared
    fn top(&self) -> u64 { match self { T::T { t64, .. } => if *t64 { u64::MAX } else { u32::MAX as u64 }, T::M { m64, one, .. } => match (m64, one) { (true, true) => u64::MAX, (true, false) => 1 << 48, (false, true) => u32::MAX as u64, _ => 65536 }, _ => 0 } }
    fn max(mut self, min: u64, r: &mut Rng) -> T {
        let top = self.top();
        let x = match r.below(8) { 0..=2 => None, 3..=5 => Some(min + r.below(4) as u64), 6 => Some(top - r.below(3) as u64), _ => Some(*r.pick(&[255, 256, 1000, 65535, 65536, 0x7fff_ffff, 0x8000_0000, 0x1_0000_0003, 0x8000_0000_0000_0000])) };
        match &mut self { T::T { max, .. } | T::M { max, .. } => *max = x.map(|x| x.clamp(min, top)), _ => {} }
        self
    }
    fn valid(&self) -> bool { let top = self.top(); match self { T::T { min, max: Some(x), .. } | T::M { min, max: Some(x), .. } => min <= x && *x <= top, T::T { min, .. } | T::M { min, .. } => *min <= top, _ => true } }
    /// a declaration that differs a little
    fn near(&self, r: &mut Rng) -> T {
        let mut t = self.clone();
        match &mut t {
            T::F(p, q) => match r.below(8) {
                0 => p.push(r.below(7)), 1 => q.push(r.below(7)), 2 => { p.pop(); } 3 => { q.pop(); }
                4 => if !p.is_empty() { let k = r.below(p.len()); p[k] = r.below(7) }, 5 => if !q.is_empty() { let k = r.below(q.len()); q[k] = r.below(7) },
                6 => p.reverse(), _ => std::mem::swap(p, q),
            },
            T::G(x, m) => if r.chance(1, 2) { *m = !*m } else { *x = r.below(7) },
            T::T { ext, t64, min, max } => match r.below(11) { 0 => *ext = !*ext, 1 => *t64 = !*t64, 2 => *min += 1, 3 => *min = min.saturating_sub(1), 4 => *max = max.map(|x| x.saturating_add(1)), 5 => *max = max.map(|x| x.saturating_sub(1)), 6 => *max = Some(*min + r.below(3) as u64), 7 => *max = None, 8 => *max = max.map(|x| x ^ (1 << *r.pick(&[8, 16, 31, 32, 63]))), 9 => *min ^= *r.pick(&[256, 65536]), _ => *min = 0 },
            T::M { m64, one, min, max } => match r.below(12) { 0 => *m64 = !*m64, 1 => *one = !*one, 2 => *min += 1, 3 => *min = min.saturating_sub(1), 4 => *max = max.map(|x| x.saturating_add(1)), 5 => *max = max.map(|x| x.saturating_sub(1)), 6 => *max = Some(*min + r.below(3) as u64), 7 => *max = None, 8 => *max = Some(60000), 9 => *max = max.map(|x| x ^ (1 << *r.pick(&[8, 15, 31, 32, 47, 63]))), 10 => *min ^= *r.pick(&[256, 32768, 65536]), _ => *min = 0 },
        }
        if t.valid() { t } else { self.clone() }
    }
    /// may an object of type `o` (limits: its current size) be imported as this?
    fn accepts(&self, o: &T) -> bool {
        let lim = |imin: u64, imax: &Option<u64>, omin: u64, omax: &Option<u64>| omin >= imin && match (imax, omax) { (None, _) => true, (Some(_), None) => false, (Some(i), Some(o)) => o <= i };
        match (self, o) {
            (T::F(..), T::F(..)) | (T::G(..), T::G(..)) => self == o,
            (T::T { ext, t64, min, max }, T::T { ext: e, t64: t, min: m, max: x }) => ext == e && t64 == t && lim(*min, max, *m, x),
            (T::M { m64, one, min, max }, T::M { m64: e, one: t, min: m, max: x }) => m64 == e && one == t && lim(*min, max, *m, x),
            _ => false,
        }
    }
}
fn host_obj(s: &mut Store, t: &T) -> Result<H, Error> {
    Ok(match t {
        T::F(p, r) => { let ty = FuncType::new(&p.iter().map(|t| TY[*t].1).collect::<Vec<_>>(), &r.iter().map(|t| TY[*t].1).collect::<Vec<_>>()); let rs: Vec<WasmValue> = r.iter().map(|t| zero(*t).1).collect(); H::F(HostFunction::from_untyped(s, &ty, move |_, _| Ok(rs.clone()))) }
        T::G(x, m) => H::G(Global::new(s, GlobalType::new(TY[*x].1, *m), zero(*x).1)?),
        T::T { ext, min, max, .. } => H::T(Table::new(s, TableType::new(if *ext { WasmType::RefExtern } else { WasmType::RefFunc }, *min, *max), if *ext { WasmValue::RefExtern(ExternRef::null()) } else { WasmValue::RefFunc(FuncRef::null()) })?),
        T::M { m64, one, min, max } => H::M(Memory::new(s, MemoryType::new(if *m64 { MemoryArch::I64 } else { MemoryArch::I32 }, *min, *max, if *one { Some(1) } else { None }))?),
    })
}
fn snap(s: &Store, h: &H) -> Result<String, Error> {
    Ok(match h {
        H::F(_) => String::new(), H::G(g) => format!("{:?}", g.get(s)?),
        H::T(t) => { let n = t.size(s)?; format!("{n} {:?}", (0..n.min(6)).map(|k| t.get(s, k as u32).map(|v| format!("{v:?}"))).collect::<Result<Vec<_>, _>>()?) }
        H::M(m) => { let n = m.len(s)?; format!("{n} {} {:?}", m.page_count(s)?, m.read_vec(s, 0, n.min(16))?) }
    })
}
fn define(im: &mut Imports, m: &str, n: &str, h: &H) { match h { H::F(x) => { im.define(m, n, x.clone()); } H::G(x) => { im.define(m, n, x.clone()); } H::T(x) => { im.define(m, n, x.clone()); } H::M(x) => { im.define(m, n, x.clone()); } } }
fn get(i: &ModuleInstance, s: &Store, n: &str, t: &T) -> Result<H, Error> { Ok(match t { T::F(..) => H::F(i.func_untyped(s, n)?), T::G(..) => H::G(i.global(n)?), T::T { .. } => H::T(i.table(n)?), T::M { .. } => H::M(i.memory(n)?) }) }

fn now(st: &Store, other: &Store, ob: &Ob, wat: &str) -> Result<String, crate::mon::Bad> { snap(if ob.foreign { other } else { st }, &ob.h).map_err(|e| bad(format!("object {} cannot be read any more: {e:?}", ob.name), wat)) }

pub fn links(seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed);
    let (mut st, mut other) = (Store::default(), Store::default());
    let mut obs: Vec<Ob> = vec![];
    let err = |e: Error| bad(format!("setting up: {e:?}"), "");
    // objects of the host, of a module, passed on by a second module, and of another store
    for k in 0..r.range(2, 5) { let mut t = T::random(&mut r); if let T::T { t64, max, .. } = &mut t { *t64 = false; *max = max.map(|m| m.min(u32::MAX as u64)) } let foreign = r.chance(1, 6); let h = host_obj(if foreign { &mut other } else { &mut st }, &t).map_err(err)?; obs.push(Ob { t, h, name: format!("h{k}"), host: true, foreign }) }
    let own: Vec<T> = (0..r.range(2, 6)).map(|_| T::random(&mut r)).collect();
    let wat = format!("(module {})", own.iter().enumerate().map(|(k, t)| { let x = t.text(true); let (kind, rest) = x.split_once(' ').unwrap(); format!("({kind} (export \"o{k}\") {rest})") }).collect::<String>());
    let opt = r.chance(3, 4);
    let p = ModuleInstance::instantiate(&mut st, &module(&wat, opt), None).map_err(|e| bad(format!("{e:?}"), &wat))?;
    for (k, t) in own.iter().enumerate() { let h = get(&p, &st, &format!("o{k}"), t).map_err(|e| bad(format!("looking up o{k}: {e:?}"), &wat))?; obs.push(Ob { t: t.clone(), h, name: format!("o{k}"), host: false, foreign: false }) }
    // growth counts: the current size is what an import's minimum is compared with
    for ob in &mut obs {
        if !r.chance(1, 3) { continue }
        let s = if ob.foreign { &mut other } else { &mut st };
        match (&mut ob.t, &ob.h) {
            (T::M { min, max, one, .. }, H::M(m)) => { let d = if *one && r.chance(1, 4) { *r.pick(&[250u64, 256, 300, 65536]) } else { r.below(3) as u64 }; if max.map(|x| *min + d <= x).unwrap_or(true) { if m.grow(s, d as i64).map_err(err)?.is_none() { return Err(bad(format!("memory {min} {max:?} did not grow by {d}"), "")) } *min += d; o.inc("grown_objects") } }
            (T::T { min, max, ext, .. }, H::T(t)) => { let d = if r.chance(1, 4) { *r.pick(&[250u64, 256, 300, 65536]) } else { r.below(3) as u64 }; if max.map(|x| *min + d <= x).unwrap_or(true) { t.grow(s, d as i32, if *ext { WasmValue::RefExtern(ExternRef::null()) } else { WasmValue::RefFunc(FuncRef::null()) }).map_err(err)?; *min += d; o.inc("grown_objects") } }
            _ => {}
        }
    }
    // the same module in the other store: what it exports must never get in here
    let q = ModuleInstance::instantiate(&mut other, &module(&wat, opt), None).map_err(|e| bad(format!("{e:?}"), &wat))?;
    let mut snaps: Vec<String> = vec![];
    for ob in &obs { snaps.push(snap(if ob.foreign { &other } else { &st }, &ob.h).map_err(err)?) }
    let (mut hash, mut sample) = (1u64, String::new());
    for trial in 0..r.range(4, 12) {
        let n = r.range(1, 4);
        let (mut decl, mut body, mut want_ok, mut missing, mut wrong, mut foreign) = (String::new(), String::new(), true, false, false, false);
        let mut im = Imports::new(); let mut second = Imports::new(); let mut used: Vec<(usize, T)> = vec![]; let mut desc = vec![];
        let linked = r.chance(1, 2); let strange = linked && r.chance(1, 6); let mut start = String::new();
        let (mut nm, mut nt, mut ng) = (0, 0, 0);
        for k in 0..n {
            let x = r.below(obs.len()); let ob = &obs[x];
            // mostly right, so that a single wrong one is what decides
            let t = if r.chance(3, 5) { let mut t = ob.t.clone(); let top = t.top(); match &mut t { T::T { min, max, .. } | T::M { min, max, .. } => { if r.chance(1, 3) { *min = r.below(*min as usize + 1) as u64 } if r.chance(1, 3) { *max = max.and_then(|m| if r.chance(1, 2) { Some(m.saturating_add(r.below(3) as u64).min(top)) } else { None }) } } _ => {} } t } else if r.chance(5, 6) { ob.t.near(&mut r) } else { T::random(&mut r) };
            let via_module = !ob.host && linked && r.chance(3, 4);
            let gone = r.chance(1, 14);
            let (mname, name) = if via_module { ("P".to_string(), if gone { format!("{}x", ob.name) } else { ob.name.clone() }) } else { (if r.chance(1, 4) { "P".to_string() } else { "e".into() }, format!("n{trial}_{k}")) };
            if !via_module && !gone {
                // what is defined last under a name counts, and definitions count more than linked modules
                if r.chance(1, 5) { let y = r.below(obs.len()); define(&mut im, &mname, &name, &obs[y].h); if r.chance(1, 2) { define(&mut second, &mname, &name, &ob.h) } else { define(&mut im, &mname, &name, &ob.h) } } else { define(if r.chance(1, 3) { &mut second } else { &mut im }, &mname, &name, &ob.h) }
            }
            let text = t.text(false);
            let (kind, rest) = text.split_once(' ').unwrap();
            decl += &format!("(import \"{mname}\" \"{name}\" ({kind} {rest}))");
            desc.push(format!("{:?} supplied for {:?}{}{}{}", ob.t, t, if ob.foreign { " (of another store)" } else { "" }, if gone { " (not supplied)" } else { "" }, if via_module { " (linked module)" } else { "" }));
            if strange && gone && mname == "P" { foreign = true }
            if via_module && strange { foreign = true; want_ok = false; if gone { missing = true } if !t.accepts(&ob.t) { wrong = true } } else if gone { missing = true; want_ok = false } else if ob.foreign { foreign = true; want_ok = false; if !t.accepts(&ob.t) { wrong = true } } else if !t.accepts(&ob.t) { wrong = true; want_ok = false }
            match &t {
                T::M { m64, min, one, .. } => { if *min >= if *one { 4 } else { 1 } { body += &format!("(data (memory {nm}) ({}.const 1) \"Z\")", if *m64 { "i64" } else { "i32" }) } nm += 1 }
                T::T { ext, t64, min, .. } => { if *min >= 1 && !*ext { body += &format!("(elem (table {nt}) ({}.const 0) func $self)", if *t64 { "i64" } else { "i32" }) } nt += 1 }
                T::G(0, true) => { start += &format!("(global.set {ng} (i32.const 1234))"); ng += 1 }
                T::G(..) => ng += 1, _ => {}
            }
            used.push((x, t));
        }
        let l = if strange { q.clone() } else { p.clone() };
        if linked { if r.chance(1, 2) { im.link_module("P", l).map_err(err)?; } else { second.link_module("P", l).map_err(err)?; } }
        if linked && r.chance(1, 4) { im.link_module("unrelated", p.clone()).map_err(err)?; }
        let im = if r.chance(1, 10) { im.merge(second).merge(Imports::new()) } else { im.merge(second) };
        let wat = format!("(module {decl} {body} (func $self {start}) {})", if start.is_empty() { "" } else { "(start $self)" });
        let m = module(&wat, opt);
        o.inc("link_attempts"); o.add("imports_linked_or_refused", n as u64);
        hash = hash.rotate_left(7) ^ crate::hash_bytes(format!("{wat}{desc:?}").as_bytes()); if trial == 0 { sample = format!("seed {seed}: {desc:?}") }
        let res = if r.chance(1, 3) { ModuleInstance::instantiate_no_start(&mut st, &m, Some(im)).and_then(|i| { i.start(&mut st)?; Ok(i) }) } else { ModuleInstance::instantiate(&mut st, &m, Some(im)) };
        match res {
            Ok(_) if !want_ok => return Err(bad(format!("linked although it must not: {desc:?}"), &wat)),
            Ok(_) => {
                o.inc("links_made");
                for (k, ob) in obs.iter().enumerate() {
                    let x = now(&st, &other, ob, &wat)?;
                    let mine: Vec<&T> = used.iter().filter(|(y, _)| *y == k).map(|(_, t)| t).collect();
                    let touched = mine.iter().any(|t| match t { T::M { min, one, .. } => *min >= if *one { 4 } else { 1 }, T::T { ext, min, .. } => *min >= 1 && !*ext, T::G(0, true) => true, _ => false });
                    if !touched && x != snaps[k] { return Err(bad(format!("object {} changed from {} to {x}, but nothing touches it: {desc:?}", ob.name, snaps[k]), &wat)) }
                    if touched {
                        let good = match &ob.h { H::M(m) => m.read_vec(&st, 1, 1).map(|v| v == b"Z").unwrap_or(false), H::T(t) => matches!(t.get(&st, 0), Ok(WasmValue::RefFunc(f)) if f.addr().is_some()), H::G(g) => matches!(g.get(&st), Ok(WasmValue::I32(1234))), H::F(_) => true };
                        if !good { return Err(bad(format!("the module was linked to something else than object {} ({x}): {desc:?}", ob.name), &wat)) }
                        // back to what it was
                        match &ob.h { H::M(m) => m.copy_from_slice(&mut st, 1, b"\0").map_err(err)?, H::T(t) => t.set(&mut st, 0, WasmValue::RefFunc(FuncRef::null())).map_err(|e| bad(format!("{e:?}"), &wat))?, H::G(g) => g.set(&mut st, WasmValue::I32(7)).map_err(err)?, _ => {} }
                    }
                }
            }
            Err(e) if want_ok => return Err(bad(format!("not linked although every import is supplied with a matching object: {e:?}: {desc:?}"), &wat)),
            Err(e) => {
                o.inc("links_refused");
                let kind = match &e { Error::Linker(LinkingError::UnknownImport { .. }) => 0, Error::Linker(LinkingError::IncompatibleImportType { .. }) => 1, _ => 2 };
                o.note("reasons", ["unknown import", "incompatible type", "other"][kind]);
                let fine = match kind { 0 => missing, 1 => wrong, _ => foreign };
                if !fine { return Err(bad(format!("refused with {e:?}, but {}: {desc:?}", if missing { "an import is missing" } else if wrong { "a type does not match" } else { "an object belongs to another store" }), &wat)) }
                for (k, ob) in obs.iter().enumerate() { let x = now(&st, &other, ob, &wat)?; if x != snaps[k] { return Err(bad(format!("a refused instantiation changed object {} from {} to {x}: {desc:?}", ob.name, snaps[k]), &wat)) } }
            }
        }
    }
    o.case(hash, || sample);
    Ok(())
}
