//! Runs archived modules in a build of the runtime without std, parser and NaN canonicalisation.
//! "M <hex of an archive>" instantiates; "C <export> <type>:<hex>..." calls; one answer line for each.
use std::io::{BufRead, Write};
use tinywasm::types::*;
use tinywasm::*;

fn unhex(s: &str) -> Vec<u8> { (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect() }
fn val(s: &str) -> WasmValue {
    let (t, v) = s.split_once(':').unwrap(); let x = u128::from_str_radix(v, 16).unwrap();
    match t { "I32" => WasmValue::I32(x as u32 as i32), "I64" => WasmValue::I64(x as u64 as i64), "F32" => WasmValue::F32(f32::from_bits(x as u32)), "F64" => WasmValue::F64(f64::from_bits(x as u64)), "V128" => WasmValue::V128(x.to_le_bytes()), _ => panic!("type") }
}
fn bits(v: &WasmValue) -> String {
    match v { WasmValue::I32(x) => format!("I32:{:x}", *x as u32), WasmValue::I64(x) => format!("I64:{:x}", *x as u64), WasmValue::F32(x) => format!("F32:{:x}", x.to_bits()), WasmValue::F64(x) => format!("F64:{:x}", x.to_bits()), WasmValue::V128(b) => format!("V128:{:x}", u128::from_le_bytes(*b)), _ => "ref".into() }
}
fn err(e: &Error) -> String { match e { Error::Trap(t) => format!("T {}", t.message()), e => format!("E {e}") } }
fn main() {
    let mut st = Store::default(); let mut inst: Option<ModuleInstance> = None;
    for l in std::io::stdin().lock().lines() {
        let l = l.unwrap(); let mut w = l.split(' ');
        let out = match w.next() {
            Some("M") => {
                inst = None; st = Store::default();
                match Module::try_from_twasm(&unhex(w.next().unwrap())) {
                    Err(e) => format!("E archive: {e:?}"),
                    Ok(m) => match ModuleInstance::instantiate(&mut st, &m, None) { Ok(i) => { inst = Some(i); "M".into() } Err(e) => err(&e) },
                }
            }
            Some("C") => {
                let f = inst.as_ref().expect("no instance").func_untyped(&st, w.next().unwrap());
                let a: Vec<WasmValue> = w.map(val).collect();
                match f.and_then(|f| f.call(&mut st, &a)) { Ok(v) => format!("R {}", v.iter().map(bits).collect::<Vec<_>>().join(" ")), Err(e) => err(&e) }
            }
            _ => panic!("command"),
        };
        println!("{out}"); std::io::stdout().flush().unwrap();
    }
}
