//! Runs generated cases under Miri. Speaks the worker protocol of tw: lines "from count" on stdin.
//! A case file: "M <hex of a module>", then "C <export> <type>:<value>..." for each call. Written by `tw gencases`.
use std::collections::BTreeMap;
use std::io::{BufRead, Write};
use tinywasm::engine::{Config, MemoryBackend, StackConfig};
use tinywasm::parser::{Parser, ParserOptions};
use tinywasm::types::*;
use tinywasm::*;

fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn val(s: &str) -> WasmValue {
    let (t, v) = s.split_once(':').unwrap(); let x = u128::from_str_radix(v, 16).unwrap();
    match t { "i32" => WasmValue::I32(x as u32 as i32), "i64" => WasmValue::I64(x as u64 as i64), "f32" => WasmValue::F32(f32::from_bits(x as u32)), "f64" => WasmValue::F64(f64::from_bits(x as u64)), "v128" => WasmValue::V128(x.to_le_bytes()), "func" => WasmValue::RefFunc(FuncRef::null()), _ => WasmValue::RefExtern(ExternRef::null()) }
}
fn zero(t: WasmType) -> WasmValue {
    match t { WasmType::I32 => WasmValue::I32(3), WasmType::I64 => WasmValue::I64(4), WasmType::F32 => WasmValue::F32(0.5), WasmType::F64 => WasmValue::F64(1.5), WasmType::V128 => WasmValue::V128([7; 16]), WasmType::RefFunc => WasmValue::RefFunc(FuncRef::null()), WasmType::RefExtern => WasmValue::RefExtern(ExternRef::null()) }
}
type N = BTreeMap<&'static str, u64>;
fn case(path: &str, seed: u64, n: &mut N) {
    let text = std::fs::read_to_string(path).expect("case file");
    let mut add = |k, v: u64| *n.entry(k).or_default() += v;
    let mut lines = text.lines();
    let bytes = unhex(lines.next().unwrap().strip_prefix("M ").unwrap());
    let opts = ParserOptions::default().with_parser_threads(1).with_rewrite_optimization(seed & 1 == 0);
    let m = match Parser::with_options(opts).parse_module_bytes(&bytes) { Ok(m) => m, Err(_) => { add("refused", 1); return } };
    let m = if seed % 11 == 0 { Module::try_from_twasm(&m.serialize_twasm().unwrap()).unwrap() } else { m };
    let be = if seed % 3 == 0 { MemoryBackend::paged(256) } else { MemoryBackend::vec() };
    let mut st = Store::new(Engine::new(Config::new().with_memory_backend(be).with_value_stack(StackConfig::dynamic(64, 512)).with_call_stack(StackConfig::dynamic(4, 16))));
    let mut im = Imports::new();
    for i in m.imports() {
        let ImportType::Func(f) = i.ty else { add("refused", 1); return };
        let (ps, rs): (Vec<WasmType>, Vec<WasmType>) = (f.params().to_vec(), f.results().to_vec());
        let t = FuncType::new(&ps, &rs);
        let f = HostFunction::from_untyped(&mut st, &t, move |_, _| Ok(rs.iter().map(|t| zero(*t)).collect()));
        im.define(i.module, i.name, f);
    }
    let inst = match ModuleInstance::instantiate_no_start(&mut st, &m, Some(im)) { Ok(i) => i, Err(_) => { add("failed_instantiations", 1); return } };
    drop(m);
    for (k, l) in lines.enumerate() {
        let mut w = l.strip_prefix("C ").unwrap().split(' ');
        let Ok(f) = inst.func_untyped(&st, w.next().unwrap()) else { continue };
        let args: Vec<WasmValue> = w.filter(|x| !x.is_empty()).map(val).collect();
        let Ok(mut e) = f.call_resumable(&mut st, &args) else { add("calls_refused", 1); continue };
        let mut end = "calls_abandoned";
        for _ in 0..6 { match e.resume_with_fuel(if k % 2 == 0 { 128 } else { 1 }) { Ok(ExecProgress::Suspended) => {} Ok(_) => { end = "calls_completed"; break } Err(_) => { end = "calls_failed"; break } } }
        add(end, 1);
    }
    drop(inst);
}
fn main() {
    let dir = std::env::var("TWM_DIR").expect("TWM_DIR");
    let a: Vec<String> = std::env::args().collect();
    if a.get(1).map(|s| s.as_str()) == Some("one") { let mut n = N::new(); let s: u64 = a[3].parse().unwrap(); case(&format!("{dir}/{s}.case"), s, &mut n); println!("{n:?}"); return }
    let stdin = std::io::stdin(); let mut line = String::new();
    loop {
        line.clear();
        if stdin.lock().read_line(&mut line).unwrap() == 0 { return }
        let v: Vec<u64> = line.split_whitespace().map(|x| x.parse().unwrap()).collect();
        let mut n = N::new(); let mut distinct = vec![];
        for s in v[0]..v[0] + v[1] { println!("U {s}"); std::io::stdout().flush().unwrap(); *n.entry("evaluations").or_default() += 1; distinct.push(s); case(&format!("{dir}/{s}.case"), s, &mut n); }
        let ns: Vec<String> = n.iter().map(|(k, v)| format!("\"miri_{k}\":{v}").replace("miri_evaluations", "evaluations")).collect();
        println!("D {{\"n\":{{{}}},\"sets\":{{}},\"distinct\":{:?},\"samples\":[\"case {}\"]}}", ns.join(","), distinct, v[0]); std::io::stdout().flush().unwrap();
    }
}
