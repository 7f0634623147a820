//! Histories over objects larger than any small integer counts: tables, segments and memories beyond 2^16, frames beyond 2^16 operands.
use crate::refi::*;
use crate::rng::Rng;
use crate::scen::*;

const NF: usize = 7;
/// a number around one of the sizes, or around a power of two
fn edge(r: &mut Rng, of: &[u64]) -> u64 {
    let b = match r.below(8) { 0 => 0, 1 | 2 => 65536, 3 => 131072, 4 => r.below(65536) as u64, _ => *r.pick(of) };
    match r.below(5) { 0 | 1 => b, 2 => b + r.below(5) as u64, 3 => b.saturating_sub(r.below(5) as u64), _ => b.saturating_sub(r.below(b as usize + 1) as u64) }
}
fn len(r: &mut Rng, max: u64) -> u64 { (match r.below(8) { 0 => r.below(9) as u64, 1 => 65535, 2 => 65536, 3 => 65537, 4 => max, 5 => max.saturating_sub(r.below(9) as u64), _ => r.below(max as usize + 1) as u64 }).min(max + r.below(2) as u64) }

struct Op { code: String, params: Vec<(Ty, Vec<u64>)>, res: &'static str }

pub fn gen_big(r: &mut Rng, p: &str) -> Scen {
    let mut sc = Scen { big: true, ..Scen::default() };
    let (mut t, mut imports, mut nobj) = ("(module\n".to_string(), vec![], 0);
    let (tables, mems, frames) = match p { "C07" => (true, false, false), "C05" | "C06" | "C24" => (false, true, false), "C12" => (false, false, true), _ => (r.chance(2, 3), r.chance(1, 2), r.chance(1, 4)) };
    let tw = |x: bool| if x { Ty::I64 } else { Ty::I32 };
    let n = |x: Ty| if x == Ty::I64 { "i64" } else { "i32" };
    // ---- objects
    let mut tabs: Vec<(u64, Ty, bool)> = vec![]; // size, address type, functions?
    let mut ms: Vec<(u64, Ty)> = vec![]; // bytes
    let mut segs: Vec<(u64, bool)> = vec![];
    let mut datas: Vec<u64> = vec![];
    let mut defs = String::new();
    if tables { for k in 0..r.range(1, 3) {
        let (size, at, fun) = (*r.pick(&[60_000u64, 65_530, 65_535, 65_536, 65_537, 70_000, 131_072, 140_001, 300]), tw(r.chance(1, 4)), r.chance(3, 4));
        let max = if r.chance(1, 3) { Some(size + *r.pick(&[0u64, 1, 500, 70_000])) } else { None };
        let ty = format!("{} {size} {} {}", if at == Ty::I64 { "i64" } else { "" }, max.map(|x| x.to_string()).unwrap_or_default(), if fun { "funcref" } else { "externref" });
        if r.chance(1, 3) && tabs.len() == imports.len() {
            sc.acts.push(Act::Table(TableTy { elem: if fun { Ty::Func } else { Ty::Extern }, t64: at == Ty::I64, min: size, max })); imports.push(("h".to_string(), format!("t{k}"), Item::Obj(nobj))); nobj += 1;
            t += &format!("(import \"h\" \"t{k}\" (table $t{k} {ty}))\n");
        } else { defs += &format!("(table $t{k} (export \"t{k}\") {ty})\n") }
        tabs.push((size, at, fun));
    } }
    let mut imem = true;
    if mems { for k in 0..r.range(1, 2) {
        let (pages, at) = (*r.pick(&[1u64, 2, 3, 5, 16, 17, 33, 40]), tw(r.chance(1, 4)));
        let max = if r.chance(1, 3) { Some(pages + r.below(12) as u64) } else { None };
        let ty = format!("{} {pages} {}", if at == Ty::I64 { "i64" } else { "" }, max.map(|x| x.to_string()).unwrap_or_default());
        if r.chance(1, 3) && imem {
            sc.acts.push(Act::Mem(MemTy { min: pages, max, m64: at == Ty::I64, page_log2: 16 })); imports.push(("h".to_string(), format!("m{k}"), Item::Obj(nobj))); nobj += 1;
            t += &format!("(import \"h\" \"m{k}\" (memory $m{k} {ty}))\n");
        } else { imem = false; defs += &format!("(memory $m{k} (export \"m{k}\") {ty})\n") }
        ms.push((pages * 65536, at));
    } }
    t += &defs;
    t += "(type $sig (func (result i32)))\n";
    for f in 0..NF { t += &format!("(func $e{f} (result i32) (i32.const {}))\n", f * 1000 + 7) }
    t += &format!("(elem declare func{})\n", (0..NF).map(|f| format!(" $e{f}")).collect::<String>());
    // ---- segments
    if tables { for k in 0..r.range(1, 3) {
        let fun = r.chance(3, 4); let size = *r.pick(&[5u64, 300, 65_535, 65_536, 65_537, 66_000, 70_000]);
        // period of the pattern is prime to every power of two
        let item = |i: u64| if fun { if i % 11 == 3 { None } else { Some((i * 5 % NF as u64) as usize) } } else { None };
        let plain = fun && r.chance(1, 2);
        let off = match r.below(3) { 0 => { let c: Vec<usize> = (0..tabs.len()).filter(|i| tabs[*i].2 == fun && tabs[*i].0 >= size.min(300)).collect(); if c.is_empty() { String::new() } else { let i = *r.pick(&c); let (ts, at, _) = tabs[i]; let o = if size <= ts { match r.below(3) { 0 => 0, 1 => ts - size, _ => r.below((ts - size) as usize + 1) as u64 } } else { 1 }; if size > ts && r.chance(9, 10) { String::new() } else { format!("(table $t{i}) ({}.const {o})", n(at)) } } } _ => String::new() };
        t += &format!("(elem $s{k} {off} {}", if plain { "func" } else if fun { "funcref" } else { "externref" });
        for i in 0..size { match item(i) { Some(f) if !plain => t += &format!(" (ref.func $e{f})"), None if !plain => t += if fun { " (ref.null func)" } else { " (ref.null extern)" }, f => t += &format!(" $e{}", f.unwrap_or(1)) } }
        t += ")\n"; segs.push((size, fun));
    } }
    if mems { for k in 0..r.range(1, 2) {
        let size = *r.pick(&[5u64, 3000, 65_535, 65_536, 65_537, 70_000]);
        let mut x = r.u64() | 1;
        let off = match r.below(3) { 0 => { let i = r.below(ms.len()); let (b, at) = ms[i]; if size <= b || r.chance(1, 10) { format!("(memory $m{i}) ({}.const {})", n(at), match r.below(3) { 0 => 0, 1 => b.saturating_sub(size), _ => r.below(b.saturating_sub(size) as usize + 1) as u64 }) } else { String::new() } } _ => String::new() };
        t += &format!("(data $d{k} {off} \"");
        for i in 0..size { x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407); t += &format!("\\{:02x}", (x >> 56) as u8 ^ (i >> 16) as u8) }
        t += "\")\n"; datas.push(size);
    } }
    // ---- what is done, as functions of the operands
    let mut ops: Vec<Op> = vec![];
    let tn = |r: &mut Rng| r.below(tabs.len());
    if tables { for _ in 0..r.range(4, 9) {
        let a = tn(r); let (s, at, fun) = tabs[a]; let an = n(at);
        let v = if fun { format!("(ref.func $e{})", r.below(NF)) } else { "(ref.null extern)".into() };
        let idx = vec![s];
        ops.push(match r.below(9) {
            0 | 1 if fun => Op { code: format!("(call_indirect $t{a} (type $sig) (local.get 0))"), params: vec![(at, idx)], res: "i32" },
            0..=2 => Op { code: format!("(ref.is_null (table.get $t{a} (local.get 0)))"), params: vec![(at, idx)], res: "i32" },
            3 => Op { code: format!("(table.set $t{a} (local.get 0) {v})"), params: vec![(at, idx)], res: "" },
            4 => Op { code: format!("(table.grow $t{a} {v} (local.get 0))"), params: vec![(at, vec![70_000, 1, 6])], res: an },
            5 => Op { code: format!("(table.fill $t{a} (local.get 0) {v} (local.get 1))"), params: vec![(at, idx.clone()), (at, idx)], res: "" },
            6 | 7 => { let c: Vec<usize> = (0..tabs.len()).filter(|i| tabs[*i].2 == fun).collect(); let b = *r.pick(&c); let (s2, at2, _) = tabs[b]; let lt = if at == Ty::I64 && at2 == Ty::I64 { Ty::I64 } else { Ty::I32 };
                Op { code: format!("(table.copy $t{a} $t{b} (local.get 0) (local.get 1) (local.get 2))"), params: vec![(at, vec![s]), (at2, vec![s2]), (lt, vec![s.min(s2)])], res: "" } }
            _ => { let c: Vec<usize> = (0..segs.len()).filter(|i| segs[*i].1 == fun).collect(); if c.is_empty() { Op { code: format!("(table.size $t{a})"), params: vec![], res: an } } else { let g = *r.pick(&c);
                if r.chance(1, 12) { Op { code: format!("(elem.drop $s{g})"), params: vec![], res: "" } } else { Op { code: format!("(table.init $t{a} $s{g} (local.get 0) (local.get 1) (local.get 2))"), params: vec![(at, vec![s]), (Ty::I32, vec![segs[g].0]), (Ty::I32, vec![segs[g].0])], res: "" } } } }
        });
    } }
    if mems { for _ in 0..r.range(4, 9) {
        let a = r.below(ms.len()); let (s, at) = ms[a]; let an = n(at);
        ops.push(match r.below(9) {
            0 => Op { code: format!("(i64.load $m{a} offset={} (local.get 0))", r.pick(&[0u32, 3, 65_532, 65_536, 70_000])), params: vec![(at, vec![s])], res: "i64" },
            1 => Op { code: format!("(i64.store $m{a} offset={} (local.get 0) (i64.const 0x1122334455667788))", r.pick(&[0u32, 3, 65_532, 65_536, 70_000])), params: vec![(at, vec![s])], res: "" },
            2 => Op { code: format!("(memory.grow $m{a} (local.get 0))"), params: vec![(at, vec![])], res: an },
            3 | 4 => Op { code: format!("(memory.fill $m{a} (local.get 0) (i32.const {}) (local.get 1))", r.below(300)), params: vec![(at, vec![s]), (at, vec![s])], res: "" },
            5 | 6 => { let b = r.below(ms.len()); let (s2, at2) = ms[b]; let lt = if at == Ty::I64 && at2 == Ty::I64 { Ty::I64 } else { Ty::I32 };
                Op { code: format!("(memory.copy $m{a} $m{b} (local.get 0) (local.get 1) (local.get 2))"), params: vec![(at, vec![s]), (at2, vec![s2]), (lt, vec![s.min(s2)])], res: "" } }
            _ => { let g = r.below(datas.len()); if r.chance(1, 12) { Op { code: format!("(data.drop $d{g})"), params: vec![], res: "" } } else { Op { code: format!("(memory.init $m{a} $d{g} (local.get 0) (local.get 1) (local.get 2))"), params: vec![(at, vec![s]), (Ty::I32, vec![datas[g]]), (Ty::I32, vec![datas[g]])], res: "" } } }
        });
    } }
    // operands: places, and a length that mostly still fits
    let args = |r: &mut Rng, o: &Op| -> Vec<(Ty, V)> {
        let mut room = u64::MAX; let k = o.params.len(); let mut out = vec![];
        let grow = o.code.contains(".grow");
        for (i, (ty, of)) in o.params.iter().enumerate() {
            let v = if grow { if o.code.starts_with("(memory") { r.below(9) as u64 } else { *r.pick(&[0u64, 1, 100, 5000, 65_535, 65_536, 65_537, 70_000, 0xffff_ff00]) } }
                else if k > 1 && i == k - 1 { if r.chance(1, 10) { edge(r, of) } else { len(r, room) } }
                else { let v = if k > 1 && r.chance(1, 3) { r.below(300) as u64 } else { edge(r, of) }; for s in of { room = room.min(s.saturating_sub(v)) } v };
            out.push((*ty, if *ty == Ty::I32 { v as u32 as V } else { v as V }));
        }
        out
    };
    // the same operation also with its operands written into the code
    for i in 0..ops.len() { if r.chance(1, 4) && !ops[i].params.is_empty() {
        let vs = args(r, &ops[i]); let mut code = ops[i].code.clone();
        for (k, (ty, v)) in vs.iter().enumerate() { code = code.replace(&format!("(local.get {k})"), &format!("({}.const {v})", n(*ty))) }
        let res = ops[i].res; ops.push(Op { code, params: vec![], res });
    } }
    for (k, o) in ops.iter().enumerate() {
        let wrap = r.chance(1, 4);
        let code = if wrap && o.res.is_empty() { format!("(block (loop {}))", o.code) } else { o.code.clone() };
        t += &format!("(func (export \"f{k}\") {} {} {code})\n", o.params.iter().map(|x| format!("(param {})", n(x.0))).collect::<String>(), if o.res.is_empty() { String::new() } else { format!("(result {})", o.res) });
    }
    // ---- frames that fill the stack
    let mut deep = vec![];
    if frames { for k in 0..r.range(1, 2) {
        let ty = *r.pick(&["i32", "i64", "f64", "v128"]); let nl = *r.pick(&[900usize, 1050, 1300, 2200]);
        let mut spots: Vec<usize> = (0..r.range(3, 8)).map(|_| 1 + match r.below(4) { 0 => 0, 1 => nl - 1, _ => r.below(nl) }).collect(); spots.sort(); spots.dedup();
        let v = |i: usize| match ty { "i32" => format!("(i32.add (i32.mul (local.get 0) (i32.const 3)) (i32.const {i}))"), "i64" => format!("(i64.add (i64.extend_i32_u (local.get 0)) (i64.const {i}))"), "f64" => format!("(f64.convert_i32_u (i32.add (local.get 0) (i32.const {i})))"), _ => format!("(i32x4.splat (i32.add (local.get 0) (i32.const {i})))") };
        let add = match ty { "v128" => "i32x4.add".to_string(), t => format!("{t}.add") };
        let sets: String = spots.iter().map(|i| format!("(local.set {i} {})", v(*i))).collect();
        let sum = spots.iter().fold(v(0), |e, i| format!("({add} {e} (local.get {i}))"));
        let held = r.below(4); let holds: String = (0..held).map(|i| v(i + 50)).collect::<Vec<_>>().join(" "); let unhold = format!("{add} ").repeat(held);
        let call = *r.pick(&["direct", "direct", "if"]);
        let rec = format!("(call $r{k} (i32.sub (local.get 0) (i32.const 1)))");
        let z = match ty { "v128" => "(v128.const i64x2 1 2)".to_string(), t => format!("({t}.const 1)") };
        let rec = if call == "if" { format!("(if (result {ty}) (i32.eqz (local.get 0)) (then {z}) (else {rec}))") } else { rec };
        let stop = if call == "if" { String::new() } else { format!("(if (i32.eqz (local.get 0)) (then (return {z})))") };
        t += &format!("(func $r{k} (export \"r{k}\") (param i32) (result {ty}) (local{}) {stop} {sets} {holds} {rec} {unhold} {sum} {add})\n", format!(" {ty}").repeat(nl));
        deep.push(format!("r{k}"));
    } }
    t += ")";
    sc.modules.push(wat::parse_str(&t).unwrap_or_else(|e| panic!("monitor: bad text: {e}\n{}", &t[..t.len().min(3000)])));
    sc.acts.push(Act::Inst { m: 0, imports: imports.clone(), start: true });
    for _ in 0..r.range(4, 9) {
        if !deep.is_empty() && (ops.is_empty() || r.chance(1, 3)) { let name = r.pick(&deep).clone(); sc.acts.push(Act::Call { slot: 0, name, args: vec![(Ty::I32, r.range(20, 60) as V)] }); continue }
        let hosts: Vec<usize> = (0..nobj).collect();
        if r.chance(1, 4) && !(hosts.is_empty() && ms.is_empty() && tabs.is_empty()) {
            // the embedder does the same
            let (k, mem) = if !ms.is_empty() && (tabs.is_empty() || r.chance(1, 2)) { (r.below(ms.len()), true) } else { (r.below(tabs.len()), false) };
            let name = format!("{}{k}", if mem { "m" } else { "t" });
            let it = imports.iter().find(|i| i.1 == name).map(|i| i.2.clone()).unwrap_or(Item::Exp(0, name));
            let s = if mem { ms[k].0 } else { tabs[k].0 };
            let (a, b) = (if r.chance(1, 2) { r.below(400) as u64 } else { edge(r, &[s]) }, if r.chance(1, 2) { r.below(400) as u64 } else { edge(r, &[s]) }); let l = { let m = s.saturating_sub(a.max(b)); len(r, m) };
            sc.acts.push(if mem { match r.below(5) { 0 => { let l = l.min(150_000); Act::MemWrite { it, off: a, bytes: (0..l).map(|i| (i * 7 + (i >> 16) + 1) as u8).collect() } } 1 => Act::MemFill { it, off: a, len: l, val: r.u64() as u8 }, 2 => Act::MemRead { it, off: a, len: l }, 3 => Act::MemGrow { it, delta: r.below(5) as u64 }, _ => Act::MemCopy { it, dst: a, src: b, len: l } } }
                else { match r.below(3) { 0 => Act::TableCopy { it, dst: a, src: b, len: l }, 1 => Act::TableGrow { it, delta: *r.pick(&[1, 5000, 65_536, 70_000]) }, _ => { let from = if r.chance(1, 4) { None } else { Some((it.clone(), edge(r, &[s]) as u32)) }; Act::TableSet { it, idx: a as u32, from } } } });
            continue
        }
        if ops.is_empty() { continue }
        let k = r.below(ops.len()); let args = args(r, &ops[k]);
        sc.acts.push(Act::Call { slot: 0, name: format!("f{k}"), args });
    }
    sc
}
