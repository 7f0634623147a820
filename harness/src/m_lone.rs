//! Modules in which one memory is touched by one instruction only, in one of the shapes the optimiser knows or does not know.
use crate::refi::*;
use crate::rng::Rng;
use crate::scen::*;

const LOADS: [(&str, &str, bool); 32] = [("i32.load", "i32", false), ("i32.load8_s", "i32", false), ("i32.load8_u", "i32", false), ("i32.load16_s", "i32", false), ("i32.load16_u", "i32", false), ("i64.load", "i64", false), ("i64.load8_s", "i64", false), ("i64.load8_u", "i64", false), ("i64.load16_s", "i64", false), ("i64.load16_u", "i64", false), ("i64.load32_s", "i64", false), ("i64.load32_u", "i64", false), ("f32.load", "f32", false), ("f64.load", "f64", false),
    ("v128.load", "v128", false), ("v128.load8x8_s", "v128", false), ("v128.load8x8_u", "v128", false), ("v128.load16x4_s", "v128", false), ("v128.load16x4_u", "v128", false), ("v128.load32x2_s", "v128", false), ("v128.load32x2_u", "v128", false), ("v128.load8_splat", "v128", false), ("v128.load16_splat", "v128", false), ("v128.load32_splat", "v128", false), ("v128.load64_splat", "v128", false), ("v128.load32_zero", "v128", false), ("v128.load64_zero", "v128", false), ("v128.load8_lane", "v128", true), ("v128.load16_lane", "v128", true), ("v128.load32_lane", "v128", true), ("v128.load64_lane", "v128", true), ("i32.load", "i32", false)];
const STORES: [(&str, &str, bool); 14] = [("i32.store", "i32", false), ("i32.store8", "i32", false), ("i32.store16", "i32", false), ("i64.store", "i64", false), ("i64.store8", "i64", false), ("i64.store16", "i64", false), ("i64.store32", "i64", false), ("f32.store", "f32", false), ("f64.store", "f64", false), ("v128.store", "v128", false), ("v128.store8_lane", "v128", true), ("v128.store16_lane", "v128", true), ("v128.store32_lane", "v128", true), ("v128.store64_lane", "v128", true)];
const TS: [&str; 5] = ["i32", "i64", "f32", "f64", "v128"];
fn konst(r: &mut Rng, t: &str) -> String { match t { "v128" => format!("(v128.const i64x2 {} {})", r.i64v(), r.i64v()), "f32" | "f64" => format!("({t}.const {})", r.pick(&["0", "-0", "1.5", "-3", "1e20"])), "i32" => format!("(i32.const {})", if r.chance(1, 2) { r.below(9) as i32 - 2 } else { r.i32v() }), _ => format!("({t}.const {})", if r.chance(1, 2) { r.below(9) as i64 - 2 } else { r.i64v() }) } }
fn get(r: &mut Rng, t: &str) -> String { format!("(local.get ${}{t})", r.pick(&["p", "p", "x", "y"])) }
fn add(t: &str, r: &mut Rng, a: &str, b: &str) -> String { let op = match t { "v128" => *r.pick(&["v128.xor", "i8x16.add", "v128.andnot"]), _ => return format!("({t}.{} {a} {b})", if t.starts_with('f') { *r.pick(&["add", "sub", "mul"]) } else { *r.pick(&["add", "add", "sub", "xor", "mul"]) }) }; format!("({op} {a} {b})") }

pub fn gen_lone(r: &mut Rng) -> Scen {
    let kind = r.below(10);
    let at = if r.chance(1, 5) { "i64" } else { "i32" };
    let (imp, small) = (r.chance(1, 2), r.chance(1, 8));
    let offset = if r.chance(1, 2) { 0 } else if r.chance(1, 8) { if at == "i64" { *r.pick(&[1u64 << 32, (1 << 32) + 8, 1 << 33, (1 << 40) + 100, 1 << 63, u64::MAX - 3, u64::MAX]) } else { *r.pick(&[0x8000_0000u64, 0xffff_fff8, 0xffff_ffff]) } } else { *r.pick(&[1u64, 4, 8, 100, 4000, 65535]) };
    let lane = |op: &str, r: &mut Rng| r.below(match op { o if o.contains("8_") => 16, o if o.contains("16_") => 8, o if o.contains("32_") => 4, _ => 2 });
    let m = format!("$o{}{}", if offset > 0 { format!(" offset={offset}") } else { String::new() }, if r.chance(1, 4) { " align=1" } else { "" });
    let a = match r.below(9) { 0..=3 => "(local.get $a)".to_string(), 4 => format!("({at}.const {})", r.below(70000)), 5 => format!("({at}.add (local.get $a) ({at}.const {}))", r.below(20)), 6 => "(global.get $ga)".into(), 7 => "(local.tee $b (local.get $a))".into(), _ => format!("(call $id{at} (local.get $a))") };
    let mut passive = false;
    // code, type of what it leaves
    let (code, res): (String, &str) = match kind {
        0..=3 => { let (op, t, l) = *r.pick(&LOADS); let e = if l { format!("({op} {m} {} {a} {})", lane(op, r), get(r, t)) } else { format!("({op} {m} {a})") };
            let (x, y) = (get(r, t), konst(r, t));
            match r.below(12) {
                0 | 1 => (e, t), 2 | 3 => (format!("(local.set $x{t} {e}) (local.get $x{t})"), t), 4 => (format!("(local.tee $x{t} {e})"), t), 5 => (format!("(drop {e}) {x}"), t),
                6 => (add(t, r, &e, &x), t), 7 => (add(t, r, &x, &e), t), 8 => (add(t, r, &e, &y), t), 9 => (format!("(global.set $g{t} {e}) (global.get $g{t})"), t),
                10 if t == "i32" || t == "i64" => (format!("(if (result i32) ({t}.{} {e} {}) (then (i32.const 1)) (else (i32.const 2)))", r.pick(&["eq", "ne", "lt_s", "ge_u"]), if r.chance(1, 2) { x } else { y }), "i32"),
                11 if t == "i32" => (if r.chance(1, 2) { format!("(i64.extend_i32_{} {e})", r.pick(&["s", "u"])) } else { format!("(i64.extend_i32_u (i32.eqz {e}))") }, "i64"),
                _ => (format!("(local.set $y{t} {}) (local.get $y{t})", add(t, r, &e, &y)), t) } }
        4..=6 => { let (op, t, l) = *r.pick(&STORES);
            let id = format!("(call $id{t} {})", get(r, t));
            let v = match r.below(8) { 0..=2 => get(r, t), 3 => konst(r, t), 4 => { let (x, y) = (get(r, t), get(r, t)); add(t, r, &x, &y) } 5 => { let (x, y) = (get(r, t), konst(r, t)); add(t, r, &x, &y) } 6 => id, _ => if t == "f32" || t == "f64" { let (x, y) = (get(r, t), get(r, t)); let mul = format!("({t}.mul {y} {id})"); if r.chance(2, 3) { format!("({t}.add {x} {mul})") } else { format!("({t}.add {mul} {x})") } } else { format!("(local.tee $x{t} {})", get(r, t)) } };
            (if l { format!("({op} {m} {} {a} {v})", lane(op, r)) } else { format!("({op} {m} {a} {v})") }, "") }
        7 => { let t = *r.pick(&["i32", "i64"]); (format!("({t}.store {m} (local.get $a) ({t}.{} ({t}.load {m} (local.get $a)) ({t}.const {})))", r.pick(&["add", "add", "sub"]), r.pick(&[1, 1, -1, 7])), "") }
        8 => match r.below(6) { 0 | 1 => ("(memory.size $o)".into(), at), 2 => (format!("(memory.grow $o ({at}.const {}))", r.below(4)), at), 3 => (format!("(memory.grow $o ({at}.and (local.get $a) ({at}.const 3)))"), at), 4 => (format!("(drop (memory.grow $o ({at}.const 1)))"), ""), _ => ("(drop (memory.size $o))".into(), "") },
        _ => match r.below(6) { 0 => { let n = r.below(40); (format!("(memory.fill $o {a} (i32.const 7) ({at}.const {n}))"), "") } 1 => { passive = true; (format!("(memory.init $o $d {a} (i32.const 1) (i32.const {}))", r.below(5)), "") } 2 if imp => { let n = r.below(9); let len = "i32"; (format!("(memory.copy $o $M {a} (i32.const 3) ({len}.const {n}))"), "") } 3 if imp => { let n = r.below(9); (format!("(memory.copy $M $o (i32.const 3) {a} (i32.const {n}))"), "") } _ => { let n = r.below(30); (format!("(memory.copy $o $o ({at}.const 9) {a} ({at}.const {n}))"), "") } },
    };
    let nf = *r.pick(&[1usize, 1, 2, 4, 9]); let me = r.below(nf);
    let pad = if r.chance(1, 6) { "(local".to_string() + &" i64".repeat(*r.pick(&[250, 260, 300])) + ")" } else { String::new() };
    let wrap = match r.below(6) { 0 => Some("block"), 1 => Some("loop"), _ => None };
    let body = match wrap { Some(w) => format!("({w} {} {code})", if res.is_empty() { String::new() } else { format!("(result {res})") }), None => code };
    let result = if res.is_empty() { String::new() } else { format!("(result {res})") };
    let mut t = "(module\n".to_string();
    if imp { t += "(import \"s\" \"m\" (memory $M 1))\n" }
    let min = if small { r.below(3000) } else { r.below(3) };
    let own = format!("(memory $o{} {} {min} {}{})\n", if r.chance(1, 8) { " (export \"mem\")" } else { "" }, if at == "i64" { "i64" } else { "" }, if r.chance(1, 3) { (min + r.below(4)).to_string() } else { String::new() }, if small { " (pagesize 1)" } else { "" });
    let other = format!("(memory $q {})\n", r.below(2));
    match r.below(4) { 0 => { t += &own; t += &other } 1 => { t += &other; t += &own } _ => t += &own }
    t += &format!("(global $ga (mut {at}) ({at}.const {}))\n", r.below(70000));
    for x in TS { t += &format!("(global $g{x} (mut {x}) {}) (func $id{x} (param {x}) (result {x}) (local.get 0))\n", if x == "v128" { "(v128.const i64x2 0 0)".into() } else { format!("({x}.const 3)") }) }
    if passive { t += "(data $d \"abcdefgh\")\n" }
    if r.chance(1, 10) && res.is_empty() { t += &format!("(func $s (local $a {at}) (local $b {at}) {} {body}) (start $s)\n", TS.map(|x| format!("(local $p{x} {x}) (local $x{x} {x}) (local $y{x} {x})")).join(" ")); }
    for f in 0..nf {
        let sig = format!("(export \"f{f}\") (param $a {at}) {} {result}", TS.map(|x| format!("(param $p{x} {x})")).join(" "));
        let loc = format!("{pad} (local $b {at}) {}", TS.map(|x| format!("(local $x{x} {x}) (local $y{x} {x})")).join(" "));
        let code = if f == me { body.clone() } else if res.is_empty() { "(global.set $gi32 (i32.add (global.get $gi32) (local.get $pi32)))".into() } else { format!("(local.get $p{res})") };
        t += &format!("(func {sig} {loc}\n  {code})\n");
    }
    t += ")";
    let mut sc = Scen::default();
    sc.modules.push(wat::parse_str(&t).unwrap_or_else(|e| panic!("monitor: bad text: {e}\n{t}")));
    let mut imports = vec![];
    if imp { sc.acts.push(Act::Mem(MemTy { min: 1, max: None, m64: false, page_log2: 16 })); imports.push(("s".to_string(), "m".to_string(), Item::Obj(0))); sc.acts.push(Act::MemWrite { it: Item::Obj(0), off: 0, bytes: (0..64).map(|k| k * 3 + 1).collect() }) }
    sc.acts.push(Act::Inst { m: 0, imports, start: true });
    let calls = r.range(2, 6);
    for k in 0..calls {
        let f = if k == 0 { me } else { r.below(nf) };
        let addr = *r.pick(&[0u64, 0, 5, 63, 65528, 65536, 1999, u64::MAX, u64::MAX - 7, (1 << 32) + 5]) as V;
        let mut args = vec![if at == "i64" { (Ty::I64, addr) } else { (Ty::I32, addr & 0xffff_ffff) }];
        args.push((Ty::I32, r.i32v() as u32 as V)); args.push((Ty::I64, r.i64v() as u64 as V)); args.push((Ty::F32, 1.25f32.to_bits() as V)); args.push((Ty::F64, (-7.5f64).to_bits() as V)); args.push((Ty::V128, r.v128v()));
        sc.acts.push(Act::Call { slot: 0, name: format!("f{f}"), args });
    }
    sc
}
