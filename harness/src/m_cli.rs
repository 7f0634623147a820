//! The command line tool, run as a process in a scratch directory. What it prints is compared with what the library
//! returns for the same arguments, formatted here.
use crate::m_exec::bad;
use crate::mon::{Bad, Obs, R};
use crate::rng::Rng;
use std::io::Write;
use std::path::{Path, PathBuf};
use std::process::{Command, Stdio};
use tinywasm::engine::{Config, FuelPolicy, MemoryBackend, StackConfig};
use tinywasm::types::{WasmType as T, WasmValue as V};
use tinywasm::{Engine, Module, ModuleInstance, Store};

struct Dir(PathBuf);
impl Drop for Dir { fn drop(&mut self) { let _ = std::fs::remove_dir_all(&self.0); } }
struct Out { code: Option<i32>, out: Vec<u8>, err: String, cmd: String }
impl Out { fn ok(&self) -> bool { self.code == Some(0) } fn text(&self) -> String { String::from_utf8_lossy(&self.out).into_owned() } }

struct Cli { exe: String, dir: Dir, runs: std::cell::Cell<u64> }
impl Cli {
    fn p(&self, n: &str) -> PathBuf { self.dir.0.join(n) }
    fn run(&self, args: &[&str], stdin: Option<&[u8]>) -> Result<Out, String> {
        self.runs.set(self.runs.get() + 1);
        let mut c = Command::new(&self.exe);
        c.args(args).current_dir(&self.dir.0).env("RUST_BACKTRACE", "0").env_remove("RUST_LOG").env_remove("CLICOLOR_FORCE").stdin(if stdin.is_some() { Stdio::piped() } else { Stdio::null() }).stdout(Stdio::piped()).stderr(Stdio::piped());
        let mut c = c.spawn().unwrap_or_else(|e| panic!("monitor: cannot start {}: {e}", self.exe));
        if let Some(b) = stdin { let mut s = c.stdin.take().unwrap(); let _ = s.write_all(b); }
        let o = c.wait_with_output().unwrap_or_else(|e| panic!("monitor: {e}"));
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        let cmd = format!("tinywasm {}", args.iter().map(|a| format!("{a:?}")).collect::<Vec<_>>().join(" "));
        if o.status.code().is_none() || err.contains("panicked at") { return Err(format!("{cmd}: the tool crashed ({:?}): {}", o.status, err.chars().take(400).collect::<String>())) }
        Ok(Out { code: o.status.code(), out: o.stdout, err, cmd })
    }
}
fn show(v: &V) -> String {
    match v { V::I32(x) => format!("i32({x})"), V::I64(x) => format!("i64({x})"), V::F32(x) => format!("f32({x})"), V::F64(x) => format!("f64({x})"), V::V128(b) => format!("v128([{}])", b.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(", ")), _ => "?".into() }
}
fn printed(v: &[V]) -> String { match v { [] => String::new(), [x] => show(x) + "\n", v => format!("[{}]\n", v.iter().map(show).collect::<Vec<_>>().join(", ")) } }
const NUM: [(T, &str); 5] = [(T::I32, "i32"), (T::I64, "i64"), (T::F32, "f32"), (T::F64, "f64"), (T::V128, "v128")];
fn name(t: T) -> &'static str { match t { T::I32 => "i32", T::I64 => "i64", T::F32 => "f32", T::F64 => "f64", T::V128 => "v128", T::RefFunc => "funcref", T::RefExtern => "externref" } }

/// One argument as text, and the value it stands for if it stands for one.
fn arg(r: &mut Rng, t: T) -> (String, Option<V>) {
    let s = match t {
        _ if r.chance(1, 14) => r.pick(&["", "abc", " 1", "1 ", "0x10", "1_000", "--", "1,2", "i32(1)", "99999999999999999999999999999999999999999999", "1e400x", "+-1", "--help", "true", "١"]).to_string(),
        T::I32 => match r.below(8) { 0 => "2147483647".into(), 1 => "-2147483648".into(), 2 => "2147483648".into(), 3 => "+7".into(), 4 => "4294967295".into(), 5 => "007".into(), 6 => "1.5".into(), _ => r.i32v().to_string() },
        T::I64 => match r.below(7) { 0 => "9223372036854775807".into(), 1 => "-9223372036854775808".into(), 2 => "9223372036854775808".into(), 3 => "-0".into(), 4 => "18446744073709551615".into(), _ => r.i64v().to_string() },
        T::F32 => match r.below(10) { 9 => { let x = f32::from_bits(0x3f00_0000 + r.u32() % 0x0500_0000); let m = (x as f64 + f32::from_bits(x.to_bits() + 1) as f64) / 2.0; format!("{}{}", if r.chance(1, 3) { "-" } else { "" }, format!("{m:.60}") + *r.pick(&["", "1", "000000000000000000000001"])) } 0 => "inf".into(), 1 => "-inf".into(), 2 => "NaN".into(), 3 => "-0.0".into(), 4 => "1e39".into(), 5 => "1.17549429e-38".into(), 6 => ".5".into(), 7 => "16777217".into(), _ => format!("{}", f32::from_bits(r.f32bits())) },
        T::F64 => match r.below(9) { 0 => "Infinity".into(), 1 => "-inf".into(), 2 => "nan".into(), 3 => "-0".into(), 4 => "1e309".into(), 5 => "4.9e-324".into(), 6 => "1E5".into(), 7 => "0.1".into(), _ => format!("{:e}", f64::from_bits(r.f64bits())) },
        T::V128 => match r.below(5) { 0 => "170141183460469231731687303715884105727".into(), 1 => "-170141183460469231731687303715884105728".into(), 2 => "170141183460469231731687303715884105728".into(), 3 => "-1".into(), _ => (r.u64() as i128 * r.i64v() as i128).to_string() },
        _ => "0".into(),
    };
    let v = match t { T::I32 => s.parse().ok().map(V::I32), T::I64 => s.parse().ok().map(V::I64), T::F32 => s.parse().ok().map(V::F32), T::F64 => s.parse().ok().map(V::F64), T::V128 => s.parse::<i128>().ok().map(|x| V::V128(x.to_le_bytes())), _ => None };
    (s, v)
}

struct Ex { name: String, p: Vec<T>, func: bool }
/// A module in text, its function exports, and whether it needs imports.
fn gen(r: &mut Rng) -> (String, Vec<Ex>, String) {
    let mut t = String::from("(module\n"); let mut ex: Vec<Ex> = vec![]; let mut inspect = (String::new(), String::new());
    let imports = r.chance(1, 12);
    if imports { t += "(import \"env\" \"h\\u{e9}\" (func (param i32 f64)))\n(import \"a b\" \"g\" (global i64))\n(import \"m\" \"mem\" (memory 1 7))\n"; inspect.0 += "  env.hé: func (i32, f64)\n  a b.g: global[const i64]\n  m.mem: memory[i32] initial=1 max=7 page_size=65536\n"; }
    else if r.chance(3, 4) { let (mn, mx) = (r.range(1, 3), r.range(3, 9)); let x = r.chance(1, 2); t += &format!("(memory {} {mn} {mx})\n", if x { "(export \"mem\")" } else { "" }); if x { inspect.1 += &format!("  mem: memory[i32] initial={mn} max={mx} page_size=65536\n"); ex.push(Ex { name: "mem".into(), p: vec![], func: false }) } }
    else { t += "(memory 1)\n" }
    t += "(global $n (mut i32) (i32.const 5))\n";
    if r.chance(1, 3) { t += "(table (export \"tab\") 2 9 externref)\n(global (export \"glob\") (mut f32) (f32.const 1.5))\n"; inspect.1 += "  tab: table[i32 externref] initial=2 max=9\n  glob: global[mut f32]\n"; ex.push(Ex { name: "tab".into(), p: vec![], func: false }); ex.push(Ex { name: "glob".into(), p: vec![], func: false }) }
    match r.below(8) { 0 => t += "(data (i32.const 65534) \"abc\")\n", 1 | 2 => t += "(data (i32.const 3) \"\\01\\02\\03\\04\\05\\06\\07\\08\\09\")\n", _ => {} }
    let names = ["f", "g", "add", "a b", "", "-v", "--help", "é漢", "run", "x.y", "F", "_initialize", "i32"];
    let mut used: Vec<&str> = vec![];
    for k in 0..r.range(1, 5) {
        let n = *r.pick(&names); if used.contains(&n) { continue } used.push(n);
        let p: Vec<T> = if r.chance(1, 16) { vec![*r.pick(&[T::RefFunc, T::RefExtern])] } else { (0..if r.chance(1, 20) { r.range(5, 40) } else { r.below(5) }).map(|_| r.pick(&NUM).0).collect() };
        let q: Vec<T> = if r.chance(1, 4) { vec![] } else { (0..if r.chance(1, 14) { r.range(5, 40) } else { r.range(1, 4) }).map(|_| if !p.is_empty() && r.chance(2, 3) { *r.pick(&p) } else { r.pick(&NUM).0 }).filter(|t| !matches!(t, T::RefFunc | T::RefExtern)).collect() };
        let mut b = String::new();
        match r.below(10) { 0 => b += "(unreachable)", 1 => b += "(global.set $n (i32.div_u (i32.const 1) (i32.sub (global.get $n) (i32.const 5))))", 2 => b += "(i32.store (i32.const -8) (i32.const 1))", 3 => b += "(i32.store (i32.const 8) (i32.add (i32.const 1) (i32.load (i32.const 8))))", 4 => b += &format!("(call $rec{k} (i32.const {}))", *r.pick(&[1, 20, 90, 100, 110, 1000, 100000])), 5 => b += "(drop (memory.grow (i32.const 2)))", _ => {} }
        for t in &q {
            let mine: Vec<usize> = (0..p.len()).filter(|k| p[*k] == *t).collect();
            let e = if mine.is_empty() || r.chance(1, 5) {
                match t { T::I32 => r.pick(&["(global.get $n)", "(memory.size)", "(i32.load (i32.const 4))", "(i32.const -1)"]).to_string(), T::I64 => "(i64.extend_i32_u (global.get $n))".into(), T::F32 => r.pick(&["(f32.const -0)", "(f32.const inf)", "(f32.const nan)", "(f32.const -nan)", "(f32.const 16777216)", "(f32.const 1e-45)", "(f32.const 3.4e38)"]).to_string(), T::F64 => r.pick(&["(f64.const -0)", "(f64.const 1e300)", "(f64.const -nan:0x4)", "(f64.const 0.1)", "(f64.const 5e-324)"]).to_string(), _ => "(v128.const i8x16 0 1 2 3 -1 -2 -128 127 8 9 10 11 12 13 14 15)".into() }
            } else if r.chance(1, 2) { format!("(local.get {})", r.pick(&mine)) } else {
                let op = match t { T::I32 => *r.pick(&["i32.add", "i32.sub", "i32.div_s", "i32.shr_u", "i32.lt_s"]), T::I64 => *r.pick(&["i64.mul", "i64.sub", "i64.rem_u", "i64.xor"]), T::F32 => *r.pick(&["f32.add", "f32.div", "f32.min", "f32.copysign"]), T::F64 => *r.pick(&["f64.sub", "f64.mul", "f64.max", "f64.div"]), _ => *r.pick(&["i8x16.sub", "i64x2.add", "v128.xor", "i16x8.mul"]) };
                format!("({op} (local.get {}) (local.get {}))", r.pick(&mine), r.pick(&mine))
            };
            b += &e;
        }
        let list = |v: &[T]| v.iter().map(|t| name(*t)).collect::<Vec<_>>().join(", ");
        t += &format!("(func (export {:?}) (param {}) (result {}) {b})\n", n, p.iter().map(|t| name(*t)).collect::<Vec<_>>().join(" "), q.iter().map(|t| name(*t)).collect::<Vec<_>>().join(" "));
        t += &format!("(func $rec{k} (param i32) (if (i32.gt_s (local.get 0) (i32.const 1)) (then (call $rec{k} (i32.sub (local.get 0) (i32.const 1))))))\n");
        inspect.1 += &format!("  {n}: func ({}){}\n", list(&p), if q.is_empty() { String::new() } else { format!(" -> ({})", list(&q)) });
        ex.push(Ex { name: n.into(), p, func: true });
    }
    if r.chance(1, 3) { let (s, b) = *r.pick(&[("func ()", "(func (export \"_start\"))\n"), ("func ()", "(func (export \"_start\") (unreachable))\n"), ("func (i32)", "(func (export \"_start\") (param i32))\n"), ("func () -> (i32)", "(func (export \"_start\") (result i32) (i32.const 3))\n"), ("global[const i32]", "(global (export \"_start\") i32 (i32.const 1))\n")]); t += b; inspect.1 += &format!("  _start: {s}\n"); ex.push(Ex { name: "_start".into(), p: if s == "func (i32)" { vec![T::I32] } else { vec![] }, func: s.starts_with("func") }) }
    if r.chance(1, 6) && inspect.0.is_empty() { t.insert_str("(module".len(), if r.chance(1, 2) { " (func $s (unreachable)) (start $s)\n" } else { " (start $s) (func $s (global.set $n (i32.add (global.get $n) (i32.const 5))))\n" }) } else
    if r.chance(1, 3) { t += if r.chance(1, 4) { "(func $s (unreachable)) (start $s)" } else { "(func $s (global.set $n (i32.add (global.get $n) (i32.const 3)))) (start $s)" } }
    t += ")\n";
    for s in [&mut inspect.0, &mut inspect.1] { if s.is_empty() { *s = "  (none)\n".into() } }
    (t, ex, format!("Imports\n{}\nExports\n{}", inspect.0, inspect.1))
}

/// Flags of the engine, and the engine they stand for.
fn flags(r: &mut Rng) -> (Vec<String>, Option<Config>) {
    let mut f: Vec<String> = vec![]; let mut c = Some(Config::new());
    let mut add = |c: &mut Option<Config>, a: &[String], g: Option<&dyn Fn(Config) -> Config>| { f.extend(a.iter().cloned()); *c = match (c.take(), g) { (Some(c), Some(g)) => Some(g(c)), _ => None } };
    let s = |x: &str| x.to_string();
    if r.chance(1, 6) { let w = r.chance(1, 2); add(&mut c, &[s("--fuel-policy"), s(if w { "weighted" } else { "per-instruction" })], Some(&|c| c.with_fuel_policy(if w { FuelPolicy::Weighted } else { FuelPolicy::PerInstruction }))) }
    if r.chance(1, 6) { add(&mut c, &[s("--trap-on-oom")], Some(&|c| c.with_trap_on_oom(true))) }
    match r.below(8) { 0 => add(&mut c, &[s("--memory-backend"), s("vec")], Some(&|c| c.with_memory_backend(MemoryBackend::vec()))), 1 => add(&mut c, &[s("--memory-backend=paged")], Some(&|c| c.with_memory_backend(MemoryBackend::paged(65536)))), 2 => { let n = 1usize << r.range(6, 17); add(&mut c, &[s("--memory-backend=paged"), format!("--memory-page-chunk-size={n}")], Some(&|c| c.with_memory_backend(MemoryBackend::paged(n)))) } 3 if r.chance(1, 3) => { let n = *r.pick(&[0usize, 3, 1000]); add(&mut c, &[s("--memory-backend=paged"), format!("--memory-page-chunk-size={n}")], None) } _ => {} }
    match r.below(10) { 0 => { let n = *r.pick(&[64usize, 500, 4000, 40000]); add(&mut c, &[format!("--value-stack-size={n}")], Some(&|c| c.with_value_stack(StackConfig::fixed(n)))) } 1 => { let (a, b) = (r.below(64), 64 + r.below(5000)); add(&mut c, &[s("--value-stack-dynamic"), format!("{a}:{b}")], Some(&|c| c.with_value_stack(StackConfig::dynamic(a, b)))) } 2 if r.chance(1, 3) => add(&mut c, &[s("--value-stack-dynamic"), s(*r.pick(&["5", "9:3", "a:b", ":", "1:2:3", "-1:5"]))], None), _ => {} }
    match r.below(10) { 0 => { let n = *r.pick(&[1usize, 2, 20, 100, 101]); add(&mut c, &[format!("--call-stack-size={n}")], Some(&|c| c.with_call_stack(StackConfig::fixed(n)))) } 1 => { let (a, b) = (r.below(4), 4 + r.below(120)); add(&mut c, &[s("--call-stack-dynamic"), format!("{a}:{b}")], Some(&|c| c.with_call_stack(StackConfig::dynamic(a, b)))) } 2 if r.chance(1, 4) => add(&mut c, &[s("--call-stack-dynamic=1:9"), s("--call-stack-size=9")], None), 3 if r.chance(1, 4) => add(&mut c, &[s(*r.pick(&["--call-stack-size=x", "--fuel-policy=none", "--memory-backend=file", "--no-such-flag"]))], None), _ => {} }
    (f, c)
}
/// What the library does: the results, or None if anything fails.
fn library(m: &Module, c: &Config, invoke: Option<(&str, &[V])>) -> Option<Vec<V>> {
    let mut s = Store::new(Engine::new(c.clone()));
    let i = ModuleInstance::instantiate_no_start(&mut s, m, None).ok()?;
    let started = i.start_func(&s).ok()?.is_some();
    if started { i.start(&mut s).ok()?; }
    match invoke {
        Some((n, a)) => i.func_untyped(&s, n).ok()?.call(&mut s, a).ok(),
        None => { if started { return Some(vec![]) } i.func_untyped(&s, "_start").ok()?.call(&mut s, &[]).ok().map(|_| vec![]) }
    }
}

pub fn cli(seed: u64, o: &mut Obs) -> R {
    let mut r = Rng::new(seed); let r = &mut r;
    let exe = std::env::var("TW_CLI").unwrap_or_else(|_| panic!("monitor: TW_CLI is not set"));
    let base = std::env::temp_dir();
    let dir = base.join(format!("twcli-{}-{seed}", std::process::id()));
    std::fs::create_dir(&dir).unwrap_or_else(|e| panic!("monitor: {}: {e}", dir.display()));
    let c = Cli { exe, dir: Dir(dir), runs: Default::default() };
    let res = if r.chance(1, 4) { script(r, &c, o) } else { session(r, &c, o) };
    o.add("commands_run", c.runs.get());
    res.map_err(|b: Bad| b)?;
    o.case(seed, || format!("seed {seed}"));
    Ok(())
}
fn session(r: &mut Rng, c: &Cli, o: &mut Obs) -> R {
    let (text, ex, inspect) = gen(r);
    let fail = |w: String| bad(w, &text);
    let f = |e: String| bad(e, &text);
    let wasm = wat::parse_str(&text).unwrap_or_else(|e| panic!("monitor: bad text: {e}\n{text}"));
    let put = |n: &str, b: &[u8]| std::fs::write(c.p(n), b).unwrap_or_else(|e| panic!("monitor: {e}"));
    let cut = loop { let b = &wasm[..8 + r.below(wasm.len() - 8)]; if wasmparser::validate(b).is_err() { break b } };
    put("m.wasm", &wasm); put("m.wat", text.as_bytes()); put("plain", &wasm); put("bad.wasm", cut); put("bad.wat", &text.as_bytes()[..text.len() / 2]);
    std::fs::create_dir(c.p("sub.d")).unwrap_or_else(|e| panic!("monitor: {e}"));
    for n in ["v.1.2.wasm", ".hidden.wasm", "twasm.wasm", "sub.d/m.wasm", "sub.d/x", "two..wasm"] { put(n, &wasm) }
    let ls = || { let mut v: Vec<(String, Vec<u8>)> = vec![]; for d in ["", "sub.d/"] { v.extend(std::fs::read_dir(c.p(d)).unwrap().flatten().map(|e| (format!("{d}{}", e.file_name().to_string_lossy()), std::fs::read(e.path()).unwrap_or_default()))) } v.sort(); v };
    // ---- compile
    let before = ls();
    let src = *r.pick(&["m.wasm", "m.wat"]);
    let bin = c.run(&["compile", src, "-o", "-"], None).map_err(f)?;
    if !bin.ok() || bin.out.get(..4) != Some(b"TWAS") { return Err(fail(format!("{}: status {:?}, {} bytes; {}", bin.cmd, bin.code, bin.out.len(), bin.err))) }
    if ls() != before { return Err(fail(format!("{} changed files", bin.cmd))) }
    let arch = bin.out;
    if Module::try_from_twasm(&arch).is_err() { return Err(fail(format!("{} does not print an archive the library can read", bin.cmd))) }
    for _ in 0..r.range(1, 4) {
        let before = ls();
        let input = *r.pick(&["m.wasm", "m.wat", "plain", "-", "bad.wasm", "bad.wat", "missing.wasm", "old.twasm", "-bad", "v.1.2.wasm", ".hidden.wasm", "twasm.wasm", "sub.d/m.wasm", "sub.d/x", "./m.wasm", "two..wasm"]);
        put("old.twasm", &arch);
        let (output, path): (Vec<String>, Option<String>) = match r.below(6) { 0 | 1 => (vec![], Path::new(input).file_stem().map(|s| format!("{}{}.twasm", if input.starts_with("sub.d/") { "sub.d/" } else { "" }, s.to_string_lossy())).filter(|_| !input.starts_with('-'))), 2 => (vec!["--output".into(), "o.twasm".into()], Some("o.twasm".into())), 3 => (vec!["-o".into(), "there".into()], Some("there".into())), 4 => (vec!["-o".into(), "no/such/dir".into()], None), _ => (vec!["-o".into(), "o.out".into()], Some("o.out".into())) };
        if r.chance(1, 3) { put("there", if r.chance(1, 2) { b"something else" } else { &[7u8; 100_000] }) } else if r.chance(1, 4) { put(*r.pick(&["there", "o.twasm", "plain.twasm"]), b"") }
        let before = { let _ = before; ls() };
        let force = r.chance(1, 2);
        let mut a: Vec<&str> = vec!["compile"]; if force { a.push(*r.pick(&["--force", "-f"])) } a.push(if input == "-bad" { "-" } else { input }); a.extend(output.iter().map(|s| s.as_str()));
        let stdin: Option<Vec<u8>> = match input { "-" => Some(if r.chance(1, 2) { wasm.clone() } else { text.clone().into_bytes() }), "-bad" => Some(cut.to_vec()), _ => None };
        let e = c.run(&a, stdin.as_deref()).map_err(f)?;
        let exists = path.as_ref().map(|p| c.p(p).exists() && before.iter().any(|x| x.0 == *p)).unwrap_or(false);
        let good = !matches!(input, "bad.wasm" | "bad.wat" | "missing.wasm" | "old.twasm" | "-bad") && path.is_some() && (!exists || force);
        o.inc(if good { "compilations" } else { "compilations_refused" });
        if e.ok() != good { return Err(fail(format!("{} ({}): status {:?}, expected {}; {}", e.cmd, if exists { "the output exists" } else { "no such output yet" }, e.code, if good { "success" } else { "failure" }, e.err))) }
        let after = ls();
        let mut want = before.clone();
        if good { let p = path.unwrap(); want.retain(|x| x.0 != p); want.push((p, arch.clone())); want.sort() }
        if after != want { return Err(fail(format!("{} (status {:?}): files {:?} became {:?}{}", e.cmd, e.code, before.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>(), after.iter().map(|x| (&x.0, x.1.len())).collect::<Vec<_>>(), if good { format!(", the output should be the {} bytes that are printed with -o -", arch.len()) } else { String::new() }))) }
        if !good && e.err.is_empty() { return Err(fail(format!("{} failed without a message", e.cmd))) }
    }
    put("m.twasm", &arch);
    if r.chance(1, 3) { declared(r, c, o)? }
    if r.chance(1, 8) { memory_out(r, c, o)? }
    // ---- inspect, dump
    let form = *r.pick(&["m.wasm", "m.wat", "m.twasm", "plain", "-"]);
    let e = c.run(&["inspect", form], if form == "-" { Some(&wasm) } else { None }).map_err(f)?;
    if !e.ok() || e.text() != inspect { return Err(fail(format!("{}: status {:?}, printed\n{}\nexpected\n{inspect}", e.cmd, e.code, e.text()))) }
    o.inc("inspections");
    if r.chance(1, 4) { let e = c.run(&["dump", form], if form == "-" { Some(&wasm) } else { None }).map_err(f)?; if !e.ok() { return Err(fail(format!("{}: {:?}", e.cmd, e.code))) }
        let m = tinywasm::parse_bytes(&wasm).map_err(|e| fail(format!("refused: {e:?}")))?; let mut want = String::new();
        let nimp = m.imports.iter().filter(|i| matches!(i.kind, tinywasm::types::ImportKind::Function(_))).count();
        for (k, g) in m.funcs.iter().enumerate() {
            let x: Vec<&str> = m.exports.iter().filter(|e| e.kind == tinywasm::types::ExternalKind::Func && e.index as usize == nimp + k).map(|e| e.name.as_ref()).collect();
            want += &format!("func[{k}]"); if !x.is_empty() { want += &format!(" exports={x:?}") } want += "\n";
            for (ip, i) in g.instructions.iter().enumerate() { want += &format!("  {ip:04}: {i:?}\n") } want += "\n";
        }
        if e.text() != want { return Err(fail(format!("{}: printed\n{}\nexpected\n{want}", e.cmd, e.text()))) }
        o.inc("dumps");
        let e = c.run(&[*r.pick(&["dump", "inspect", "run"]), *r.pick(&["bad.wasm", "bad.wat", "missing"])], None).map_err(f)?; if e.ok() || !e.out.is_empty() || e.err.is_empty() { return Err(fail(format!("{} succeeded or said nothing: {:?}", e.cmd, e.code))) } }
    // ---- run
    let lib = tinywasm::parse_bytes(&wasm).map_err(|e| fail(format!("refused: {e:?}")))?;
    for _ in 0..r.range(4, 10) {
        let (fl, cfg) = flags(r);
        let form = *r.pick(&["m.wasm", "m.wat", "m.twasm", "plain", "-wasm", "-wat", "-twasm"]);
        let stdin: Option<&[u8]> = match form { "-wasm" => Some(&wasm), "-wat" => Some(text.as_bytes()), "-twasm" => Some(&arch), _ => None };
        let mut a: Vec<String> = vec![]; if r.chance(1, 2) { a.push("run".into()) }
        let mut vals: Option<Vec<V>> = Some(vec![]); let mut target: Option<String> = None;
        let mut texts: Vec<String> = vec![];
        if !r.chance(1, 6) {
            let e = if ex.is_empty() || r.chance(1, 20) { Ex { name: "no such export".into(), p: vec![], func: false } } else { let e = r.pick(&ex); Ex { name: e.name.clone(), p: e.p.clone(), func: e.func } };
            for t in &e.p { let (s, v) = arg(r, *t); texts.push(s); vals = match (vals, v) { (Some(mut x), Some(v)) => { x.push(v); Some(x) } _ => None } }
            if r.chance(1, 14) { if r.chance(1, 2) && !texts.is_empty() { texts.pop(); } else { texts.push("1".into()) } vals = None }
            if !e.func { vals = None }
            target = Some(e.name);
        }
        let mut opts = fl.clone();
        if let Some(t) = &target { opts.push(format!("--invoke={t}")) }
        a.extend(opts);
        a.push(if stdin.is_some() { "-".into() } else { form.to_string() });
        // a first argument that looks like an option has to be separated
        let sep = texts.first().map(|s| s.starts_with('-')).unwrap_or(false) || texts.iter().any(|s| s == "--") || r.chance(1, 3); if sep && !texts.is_empty() { a.push("--".into()) }
        a.extend(texts.iter().cloned());
        let av: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
        let e = c.run(&av, stdin).map_err(f)?;
        let want = match (&cfg, &vals) { (Some(cfg), Some(v)) => library(&lib, cfg, target.as_deref().map(|t| (t, v.as_slice()))), _ => None };
        match want {
            Some(v) => { o.inc("calls_printed"); if !e.ok() || e.text() != printed(&v) { return Err(fail(format!("{}: status {:?}, printed {:?}, expected {:?}; {}", e.cmd, e.code, e.text(), printed(&v), e.err))) } }
            None => { o.inc(if cfg.is_none() { "bad_flags_refused" } else if vals.is_none() { "bad_arguments_refused" } else { "failing_calls_reported" }); if e.ok() || !e.out.is_empty() || e.err.is_empty() { return Err(fail(format!("{}: expected a failure, got status {:?} and printed {:?}; {}", e.cmd, e.code, e.text(), e.err))) } }
        }
    }
    Ok(())
}
/// A module that only declares things, inspected: every line in order, as the library describes it and as it was declared.
fn declared(r: &mut Rng, c: &Cli, o: &mut Obs) -> R {
    const TY: [T; 7] = [T::I32, T::I64, T::F32, T::F64, T::V128, T::RefFunc, T::RefExtern];
    let (mut t, mut im, mut ex, mut own) = (String::from("(module\n"), String::new(), String::new(), String::new());
    let thing = |r: &mut Rng, k: usize, import: bool| -> (String, String) { match k {
        0 => { let (p, q): (Vec<&str>, Vec<&str>) = ((0..r.below(5)).map(|_| name(*r.pick(&TY))).collect(), (0..*r.pick(&[0, 0, 1, 1, 2, 4])).map(|_| name(*r.pick(&TY))).collect()); let sig = format!("(param {}) (result {})", p.join(" "), q.join(" ")); (if import { format!("func {sig}") } else { format!("func @ {sig} unreachable") }, format!("func ({}){}", p.join(", "), if q.is_empty() { String::new() } else { format!(" -> ({})", q.join(", ")) })) }
        1 => { let x = *r.pick(&TY); let m = r.chance(1, 2); let ty = if m { format!("(mut {})", name(x)) } else { name(x).to_string() }; let init = match x { T::RefFunc => "(ref.null func)".into(), T::RefExtern => "(ref.null extern)".into(), T::V128 => "(v128.const i64x2 0 0)".into(), x => format!("({}.const 0)", name(x)) }; (if import { format!("global {ty}") } else { format!("global @ {ty} {init}") }, format!("global[{} {}]", if m { "mut" } else { "const" }, name(x))) }
        2 => { let w = r.chance(1, 4); let e = if r.chance(1, 2) { "funcref" } else { "externref" }; let a = *r.pick(&[0u64, 1, 7, 1000, 65536]); let b = match r.below(5) { 0 | 1 => None, 2 => Some(a), 3 => Some(a + 1 + r.u64() % 5000), _ => Some(*r.pick(&[65536u64, 10_000_000, u32::MAX as u64 - 1, u32::MAX as u64, if w { 1 << 32 } else { 70000 }, if w { (1 << 33) + 5 } else { 70001 }, if w { u64::MAX } else { 70002 }])) }; (format!("table {}{} {a} {} {e}", if import { "" } else { "@ " }, if w { "i64" } else { "" }, b.map(|b| b.to_string()).unwrap_or_default()), format!("table[{} {e}] initial={a} max={}", if w { "i64" } else { "i32" }, b.map_or("unbounded".into(), |b| b.to_string()))) }
        _ => { let w = r.chance(1, 4); let ps = r.chance(1, 5); let a = *r.pick(&[0u64, 1, 2, 3, 10, 256]); let b = match r.below(4) { 0 if !w && !ps => None, 1 => Some(a), 2 => Some(a + 1 + r.u64() % 300), _ => Some(65536) }; (format!("memory {}{} {a} {}{}", if import { "" } else { "@ " }, if w { "i64" } else { "" }, b.map(|b| b.to_string()).unwrap_or_default(), if ps { " (pagesize 1)" } else { "" }), format!("memory[{}] initial={a} max={} page_size={}", if w { "i64" } else { "i32" }, b.unwrap_or(65536), if ps { 1 } else { 65536 })) }
    } };
    let words = ["env", "a b", "", "é", "wasi_snapshot_preview1", "x.y", "memory", "1"];
    for j in 0..*r.pick(&[0, 0, 1, 3, 8]) { let (d, l) = { let k = r.below(4); thing(r, k, true) }; let (m, n) = (*r.pick(&words), format!("{}{j}", r.pick(&words))); t += &format!("(import \"{m}\" \"{n}\" ({d}))\n"); im += &format!("  {m}.{n}: {l}\n"); }
    let mut n = [0usize; 4]; let mut list: Vec<(usize, usize, String)> = vec![];
    for _ in 0..*r.pick(&[0, 1, 3, 8, 20]) { let k = r.below(4); let (d, l) = thing(r, k, false); own += &format!("({})\n", d.replacen('@', &format!("$n{k}_{}", n[k]), 1)); list.push((k, n[k], l)); n[k] += 1 }
    let mut e = 0; for (k, j, l) in &list { for _ in 0..*r.pick(&[0, 1, 1, 2]) { let w = format!("{}{e}", r.pick(&words)); e += 1; own += &format!("(export \"{w}\" ({} $n{k}_{j}))\n", ["func", "global", "table", "memory"][*k]); ex += &format!("  {w}: {l}\n"); } }
    t += &own; t += ")\n";
    let wasm = wat::parse_str(&t).unwrap_or_else(|e| panic!("monitor: bad text: {e}\n{t}"));
    if tinywasm::parse_bytes(&wasm).is_err() { o.inc("declarations_refused"); return Ok(()) }
    for s in [&mut im, &mut ex] { if s.is_empty() { *s = "  (none)\n".into() } }
    let want = format!("Imports\n{im}\nExports\n{ex}");
    let which = *r.pick(&["d.wasm", "d.wat", "d.twasm"]);
    std::fs::write(c.p("d.wasm"), &wasm).unwrap(); std::fs::write(c.p("d.wat"), &t).unwrap();
    let f = |e: String| bad(e, &t);
    if which == "d.twasm" { let e = c.run(&["compile", *r.pick(&["d.wasm", "d.wat"])], None).map_err(f)?; if !e.ok() { return Err(bad(format!("{}: status {:?}; {}", e.cmd, e.code, e.err), &t)) } }
    let e = c.run(&["inspect", which], None).map_err(f)?;
    if !e.ok() || e.text() != want { return Err(bad(format!("{}: status {:?}, printed\n{}\nexpected\n{want}", e.cmd, e.code, e.text()), &t)) }
    for n in ["d.wasm", "d.wat", "d.twasm"] { let _ = std::fs::remove_file(c.p(n)); }
    o.inc("declarations_inspected");
    Ok(())
}
/// The tool with little address space: growth beyond it is refused, or a trap if that is asked for.
fn memory_out(r: &mut Rng, c: &Cli, o: &mut Obs) -> R {
    let (w, pages) = (r.chance(1, 3), r.range(55_000, 65_000)); let t = if w { "i64" } else { "i32" };
    let text = format!("(module (memory {} 1) (func (export \"g\") (result {t}) (memory.grow ({t}.const {pages}))))", if w { "i64" } else { "" });
    std::fs::write(c.p("grow.wat"), &text).unwrap();
    let (trap, back) = (r.chance(1, 2), *r.pick(&["", "--memory-backend=vec", "--memory-backend=paged"]));
    let mut cmd = Command::new("sh");
    cmd.arg("-c").arg("ulimit -v 3000000 || exit 77; exec \"$0\" \"$@\"").arg(&c.exe).args(["run", "grow.wat", "--invoke", "g"]);
    if trap { cmd.arg("--trap-on-oom"); } if !back.is_empty() { cmd.arg(back); }
    let e = cmd.current_dir(&c.dir.0).env("RUST_BACKTRACE", "0").env_remove("RUST_LOG").stdin(Stdio::null()).output().unwrap_or_else(|e| panic!("monitor: {e}"));
    let (out, err) = (String::from_utf8_lossy(&e.stdout).into_owned(), String::from_utf8_lossy(&e.stderr).into_owned());
    let all = format!("ulimit -v 3000000; tinywasm run grow.wat --invoke g {} {back}: {:?}, printed {out:?}; {}", if trap { "--trap-on-oom" } else { "" }, e.status, err.chars().take(400).collect::<String>());
    if e.status.code() == Some(77) { o.inc("no_limit_possible"); return Ok(()) }
    // the pages may be provided all the same (that depends on the backend and the system), but they cannot be refused in the wrong way
    let (grown, refused) = (e.status.success() && out == format!("{t}(1)\n"), if trap { !e.status.success() && e.status.code().is_some() && out.is_empty() && err.contains("out of memory") && !err.contains("panicked at") } else { e.status.success() && out == format!("{t}(-1)\n") });
    if !grown && !refused { return Err(bad(all, &text)) }
    o.inc(if grown { "growth_provided" } else if trap { "growth_refused_by_trap" } else { "growth_refused" });
    Ok(())
}
/// Spec scripts: as many true directives as possible, with or without one that does not hold.
fn script(r: &mut Rng, c: &Cli, o: &mut Obs) -> R {
    let mut all_hold = true; let mut text_all = String::new(); let mut total = 0usize; let mut failing = 0usize; let mut groups = String::new(); let mut wrong: Vec<(usize, usize)> = vec![];
    let files = r.range(1, 3);
    for k in 0..files {
        let (t, lines, n) = one_script(r); let lies = lines.len(); let holds = lies == 0; failing += lies;
        groups += &format!("s{k}.wast\n  Tests Passed: {}\n", n - lies); if lies > 0 { groups += &format!("  Tests Failed: {lies}\n") }
        for l in lines { wrong.push((k, l)) }
        std::fs::write(c.p(&format!("s{k}.wast")), &t).unwrap(); text_all += &format!(";; file {k}, holds: {holds}\n{t}\n"); all_hold &= holds; total += n;
    }
    let f = |e: String| bad(e, &text_all);
    if r.chance(1, 4) { std::fs::write(c.p("other.txt"), "(not a script").unwrap(); }
    let paths: Vec<String> = if r.chance(1, 2) { vec![".".into()] } else { (0..files).map(|k| format!("s{k}.wast")).collect() };
    let mut a = vec!["wast"]; a.extend(paths.iter().map(|s| s.as_str()));
    let e = c.run(&a, None).map_err(f)?;
    o.inc(if all_hold { "scripts_that_hold" } else { "scripts_that_do_not_hold" });
    if e.ok() != all_hold { return Err(bad(format!("{}: status {:?}, but {}; {}", e.cmd, e.code, if all_hold { "everything in the scripts holds" } else { "something in the scripts does not hold" }, e.err.chars().take(500).collect::<String>()), &text_all)) }
    let line = e.text().lines().find_map(|l| l.trim().strip_prefix("Total Tests: ").map(|x| x.trim().to_string()));
    if line.as_deref() != Some(total.to_string().as_str()) { return Err(bad(format!("{}: reports {line:?} directives of {total}", e.cmd), &text_all)) }
    let line = e.text().lines().find_map(|l| l.trim().strip_prefix("Total Failed: ").map(|x| x.trim().to_string()));
    if line.as_deref() != Some(failing.to_string().as_str()) { return Err(bad(format!("{}: reports {line:?} directives that do not hold, but there are {failing}", e.cmd), &text_all)) }
    if !e.text().replace("./", "").contains(&groups) { return Err(bad(format!("{}: printed\n{}\nwhich does not contain\n{groups}", e.cmd, e.text()), &text_all)) }
    let mut said: Vec<(usize, usize)> = vec![];
    for l in e.err.lines() { if let Some((p, rest)) = l.split_once(".wast:") { if let Some(k) = p.rsplit('/').next().and_then(|x| x.strip_prefix('s')).and_then(|x| x.parse().ok()) { let mut x = rest.split(|c: char| !c.is_ascii_digit()); if let (Some(Ok(l)), Some("2")) = (x.next().map(|x| x.parse()), x.next()) { said.push((k, l)) } } } }
    said.sort(); wrong.sort();
    if said != wrong { return Err(bad(format!("{}: what does not hold is at (script, line) {wrong:?}, reported: {said:?}; {}", e.cmd, e.err.chars().take(600).collect::<String>()), &text_all)) }
    o.add("directives_judged", total as u64);
    Ok(())
}
/// A script, the lines of the directives that do not hold, and the number of directives.
fn one_script(r: &mut Rng) -> (String, Vec<usize>, usize) {
    let mut t = String::new(); let mut n = 0;
    let konst = r.i32v(); let mut me = 1;
    t += &format!("(module $a (func (export \"me\") (result i32) (i32.const 1)) (global (export \"g\") i32 (i32.const {konst})) (memory 1) (table 3 funcref) (global $n (mut i32) (i32.const 0))
  (func (export \"add\") (param i32 i32) (result i32) (i32.add (local.get 0) (local.get 1))) (func (export \"two\") (param i64 f32) (result f32 i64) (local.get 1) (local.get 0)) (func (export \"inc\") (result i32) (global.set $n (i32.add (global.get $n) (i32.const 1))) (global.get $n))
  (func (export \"v\") (param v128) (result v128) (local.get 0)) (func (export \"nan\") (result f32) (f32.const nan)) (func (export \"nan64\") (result f64) (f64.const nan)) (func (export \"e\") (param externref) (result externref) (local.get 0)) (func (export \"null\") (result funcref) (ref.null func))
  (func (export \"div\") (param i32) (result i32) (i32.div_s (i32.const 1) (local.get 0))) (func (export \"oob\") (drop (i32.load (i32.const -1)))) (func (export \"un\") (unreachable)) (func $rec (export \"rec\") (call $rec)) (func (export \"ci\") (call_indirect (param i32) (i32.const 1) (i32.const 0))) (func (export \"none\")) (func $nop) (elem (table 0) (i32.const 2) func $nop) (func (export \"cit\") (call_indirect (param i32) (i32.const 1) (i32.const 2))) (func (export \"cio\") (call_indirect (param i32) (i32.const 1) (i32.const 3))) (func (export \"trn\") (param f32) (result i32) (i32.trunc_f32_s (local.get 0))) (func (export \"dov\") (result i32) (i32.div_s (i32.const 0x80000000) (i32.const -1))) (func (export \"tob\") (drop (table.get 0 (i32.const 3))))
  (func (export \"idf32\") (param f32) (result f32) (local.get 0)) (func (export \"idf64\") (param f64) (result f64) (local.get 0)) (global (export \"gf\") f32 (f32.const 1.5)) (global (export \"gd\") f64 (f64.const 1.5)))\n"); n += 1;
    let second = r.chance(1, 2);
    if second { t += "(module $b (func (export \"me\") (result i32) (i32.const 2)) (func (export \"who\") (result i32) (i32.const 222)))\n"; n += 1; me = 2; }
    let reg = second && r.chance(1, 2); if reg { t += "(register \"A\" $a)\n"; n += 1 }
    if reg && r.chance(2, 3) { t += "(module $c (import \"A\" \"add\" (func $f (param i32 i32) (result i32))) (func (export \"me\") (result i32) (i32.const 3)) (func (export \"go\") (result i32) (call $f (i32.const 1) (i32.const 2))))\n"; me = 3; n += 1; t += "(assert_return (invoke $c \"go\") (i32.const 3))\n"; n += 1 }
    let many = if r.chance(1, 3) { r.range(1, 9) } else { 0 };
    let last = if second { "$b" } else { "$a" };
    if many > 0 { // modules registered one after another, names taken twice, each told from the others
        let names: Vec<String> = (0..many).map(|k| if k > 0 && r.chance(1, 4) { format!("R{}", r.below(k)) } else if r.chance(1, 3) { format!("r{}", r.below(many)) } else { format!("R{k}") }).collect();
        let mut now: std::collections::BTreeMap<String, usize> = Default::default();
        for k in 0..many { t += &format!("(module $r{k} (func (export \"me\") (result i32) (i32.const 10)) (func (export \"val\") (result i32) (i32.const {})))\n", 100 + k); n += 1; if r.chance(1, 2) { t += &format!("(register \"{}\")\n", names[k]) } else { t += &format!("(register \"{}\" $r{k})\n", names[k]) } n += 1; now.insert(names[k].clone(), k); }
        t += &format!("(module $all {} (func (export \"me\") (result i32) (i32.const 4)) {})\n", now.keys().map(|x| format!("(import \"{x}\" \"val\" (func ${x} (result i32)))")).collect::<String>(), now.keys().map(|x| format!("(func (export \"{x}\") (result i32) (call ${x}))")).collect::<String>()); n += 1;
        me = 4;
        for k in 0..many { if r.chance(1, 2) { t += &format!("(assert_return (invoke $r{k} \"val\") (i32.const {}))\n", 100 + k); n += 1 } }
        for (x, k) in &now { t += &format!("(assert_return (invoke $all \"{x}\") (i32.const {}))\n", 100 + k); n += 1 }
    }
    let _ = last;
    let spec = r.chance(1, 3);
    if spec { me = 5; n += 1; t += "(module $sp (import \"spectest\" \"global_i32\" (global $gi i32)) (import \"spectest\" \"global_i64\" (global $gl i64)) (import \"spectest\" \"global_f32\" (global $gf f32)) (import \"spectest\" \"global_f64\" (global $gd f64)) (import \"spectest\" \"memory\" (memory 1 2)) (import \"spectest\" \"table\" (table $t 10 20 funcref)) (import \"spectest\" \"table64\" (table $u i64 10 20 funcref)) (import \"spectest\" \"print\" (func $p)) (import \"spectest\" \"print_i32\" (func $pi (param i32))) (import \"spectest\" \"print_i64\" (func $pl (param i64))) (import \"spectest\" \"print_f32\" (func $pf (param f32))) (import \"spectest\" \"print_f64\" (func $pd (param f64))) (import \"spectest\" \"print_i32_f32\" (func $pif (param i32 f32))) (import \"spectest\" \"print_f64_f64\" (func $pdd (param f64 f64)))
  (func (export \"gi\") (result i32) (global.get $gi)) (func (export \"gl\") (result i64) (global.get $gl)) (func (export \"gf\") (result f32) (global.get $gf)) (func (export \"gd\") (result f64) (global.get $gd)) (func (export \"ms\") (result i32) (memory.size)) (func (export \"mg\") (result i32) (memory.grow (i32.const 2))) (func (export \"ts\") (result i32) (table.size $t)) (func (export \"us\") (result i64) (table.size $u)) (func (export \"tg\") (result i32) (table.grow $t (ref.null func) (i32.const 11))) (func (export \"ug\") (result i64) (table.grow $u (ref.null func) (i64.const 11))) (func (export \"me\") (result i32) (i32.const 5))
  (func (export \"pr\") (call $p) (call $pi (i32.const 1)) (call $pl (i64.const 1)) (call $pf (f32.const 1)) (call $pd (f64.const 1)) (call $pif (i32.const 1) (f32.const 1)) (call $pdd (f64.const 1) (f64.const 2))))\n" }
    let m = if second || many > 0 || spec { "$a " } else { "" };
    let mut lies = vec![]; let mut inc = 0; let mut lie_left = if r.chance(1, 2) { r.range(1, 3) } else { 0 };
    for _ in 0..r.range(2, 12) {
        let lie = lie_left > 0 && r.chance(1, 4); if lie { lie_left -= 1 }
        n += 1;
        let mut made_false = lie; let line = 1 + t.matches('\n').count();
        match r.below(39) {
            0 => { let (a, b) = (r.i32v(), r.i32v()); let x = a.wrapping_add(b).wrapping_add(lie as i32); t += &format!("(assert_return (invoke {m}\"add\" (i32.const {a}) (i32.const {b})) (i32.const {x}))\n") }
            1 => { let (a, b) = (r.i64v(), r.below(1000)); t += &format!("(assert_return (invoke {m}\"two\" (i64.const {a}) (f32.const {b})) (f32.const {b}) (i64.const {}))\n", a ^ lie as i64) }
            2 => { inc += 1; t += &format!("(assert_return (invoke {m}\"inc\") (i32.const {}))\n", inc + lie as i32) }
            3 => { inc += 1; t += &format!("(invoke {m}\"inc\")\n"); made_false = false }
            4 => { t += &format!("(assert_return (invoke {m}\"v\" (v128.const i32x4 1 2 3 4)) (v128.const i16x8 1 0 2 0 3 0 4 {}))\n", lie as u8) }
            5 => { t += &format!("(assert_return (invoke {m}\"nan\") (f32.const {}))\n", if lie { "1" } else if r.chance(1, 2) { "nan:canonical" } else { "nan:arithmetic" }) }
            6 => { t += &format!("(assert_return (invoke {m}\"e\" (ref.extern 7)) (ref.extern {}))\n", 7 + lie as u8) }
            7 => { t += &format!("(assert_trap (invoke {m}\"div\" (i32.const {})) \"integer divide by zero\")\n", lie as u8) }
            8 if r.chance(1, 2) => { // each trap by its own message
                let all = [("div", " (i32.const 0)", "integer divide by zero"), ("oob", "", "out of bounds memory access"), ("un", "", "unreachable"), ("ci", "", "uninitialized element"), ("cit", "", "indirect call type mismatch"), ("cio", "", "undefined element"), ("trn", " (f32.const nan)", "invalid conversion to integer"), ("trn", " (f32.const 1e30)", "integer overflow"), ("dov", "", "integer overflow"), ("tob", "", "out of bounds table access")];
                let x = r.pick(&all); let msg = if lie { all.iter().filter(|y| y.2 != x.2).nth(r.below(7)).unwrap().2 } else { x.2 };
                t += &format!("(assert_trap (invoke {m}\"{}\"{}) \"{msg}\")\n", x.0, x.1) }
            8 => { t += &format!("(assert_trap (invoke {m}\"oob\") \"{}\")\n", if lie { "unreachable" } else { "out of bounds memory access" }) }
            9 => { t += &format!("(assert_trap (invoke {m}\"{}\") \"unreachable\")\n", if lie { "none" } else { "un" }) }
            10 => { t += &format!("(assert_exhaustion (invoke {m}\"{}\") \"call stack exhausted\")\n", if lie { *r.pick(&["none", "un"]) } else { "rec" }) }
            11 => { t += &format!("(assert_return (get {m}\"g\") (i32.const {}))\n", konst.wrapping_add(lie as i32)) }
            12 => { t += &format!("(assert_return (invoke {m}\"{}\"){})\n", if lie { "un" } else { "none" }, "") }
            13 => { t += &format!("(assert_unlinkable (module (import \"{}\" \"{}\" (func))) \"unknown import\")\n", if lie { "spectest" } else { "nowhere" }, if lie { "print" } else { "x" }) }
            14 => { t += &format!("(assert_invalid (module (func (result i32) {})) \"unknown local\")\n", if lie { "(i32.const 0)" } else { "(local.get 3)" }) }
            15 | 16 => { // vectors of floats: one lane may be a NaN, one is off if it is a lie
                let w = r.chance(1, 2); let k = if w { 4 } else { 2 }; let sh = if w { "f32x4" } else { "f64x2" };
                let v: Vec<&str> = (0..k).map(|_| *r.pick(&["0", "-0", "1.5", "-2.25", "1e30", "nan", "inf", "3", "0.125"])).collect();
                let mut e: Vec<String> = v.iter().map(|x| if *x == "nan" { r.pick(&["nan:canonical", "nan:arithmetic"]).to_string() } else { x.to_string() }).collect();
                if lie { let j = r.below(k); e[j] = match v[j] { "0" => "-0", "-0" => "0", "nan" => "1.5", "1.5" => *r.pick(&["nan:canonical", "1.75"]), "inf" => "-inf", _ => *r.pick(&["inf", "7", "nan:canonical"]) }.into() }
                t += &format!("(assert_return (invoke {m}\"v\" (v128.const {sh} {})) (v128.const {sh} {}))\n", v.join(" "), e.join(" ")) }
            17 | 18 => { let (a, b) = (r.i32v(), r.i32v()); let x = a.wrapping_add(b); let mut alts: Vec<i32> = (0..r.range(1, 4)).map(|k| x.wrapping_add(1 + k as i32)).collect(); if !lie { let j = r.below(alts.len()); alts[j] = x }
                t += &format!("(assert_return (invoke {m}\"add\" (i32.const {a}) (i32.const {b})) (either {}))\n", alts.iter().map(|x| format!("(i32.const {x})")).collect::<Vec<_>>().join(" ")) }
            19 => { let f = r.chance(1, 2); let (x, y, z) = (r.i64v(), *r.pick(&["-0", "0", "nan", "2.5"]), r.i64v() ^ 0x55); let bad = match y { "-0" => "0", "0" => "-0", "nan" => "inf", _ => "nan:canonical" };
                let (fy, iy) = if lie { if f { (bad, x) } else { (y, x ^ 1 << r.below(64)) } } else { (y, x) }; let fy = if fy == "nan" { "nan:canonical" } else { fy };
                if z == iy || r.chance(1, 2) { t += &format!("(assert_return (invoke {m}\"two\" (i64.const {x}) (f32.const {y})) (f32.const {fy}) (i64.const {iy}))\n") } else { t += &format!("(assert_return (invoke {m}\"two\" (i64.const {x}) (f32.const {y})) (f32.const {fy}) (either (i64.const {}) (i64.const {iy})))\n", if z == x { iy } else { z }) } }
            20 => { t += &format!("(assert_return (invoke {m}\"nan64\") (f64.const {}))\n", if lie { *r.pick(&["1", "inf", "-0"]) } else if r.chance(1, 2) { "nan:canonical" } else { "nan:arithmetic" }) }
            21 => { t += &format!("(assert_malformed (module quote \"(func{}\") \"unexpected token\")\n", if lie { ")" } else { " (i32.bogus))" }) }
            22 => { t += &format!("(assert_malformed (module binary \"\\00asm\\0{}\\00\\00\\00\") \"unknown binary version\")\n", if lie { 1 } else { 2 }) }
            23 => { t += &format!("(assert_trap (module (memory 1) (data (i32.const {}) \"ab\")) \"out of bounds memory access\")\n", if lie { 65534 } else { 65535 }) }
            24 => { t += &format!("(assert_return (invoke {m}\"e\" (ref.null extern)) {})\n", if lie { "(ref.extern 0)" } else { "(ref.null extern)" }) }
            25 if lie => { t += &match r.below(5) { 0 => format!("(assert_return (invoke {m}\"none\") (i32.const 0))\n"), 1 => format!("(assert_return (invoke {m}\"null\"))\n"), 2 => format!("(assert_return (invoke {m}\"missing\"))\n"), 3 => format!("(assert_return (invoke {m}\"add\" (i32.const 1) (i64.const 1)) (i32.const 2))\n"), _ => format!("(assert_return (invoke {m}\"two\" (i64.const 1) (f32.const 1)) (f32.const 1))\n") } }
            26 => { t += &format!("(assert_unlinkable (module (import \"spectest\" \"global_i32\" (global {}))) \"incompatible import type\")\n", if lie { "i32" } else { *r.pick(&["i64", "(mut i32)"]) }) }
            27 => { t += &format!("(assert_trap (module (func $f (unreachable)) (start {})) \"unreachable\")\n", if lie { "$g) (func $g" } else { "$f" }) }
            28 | 29 => { // vectors of integers: every bit counts, whatever a float of these bits would be
                let mut v = [0u8; 16]; for c in v.chunks_mut(4) { let x = *r.pick(&[0u32, 1, u32::MAX, 0x7fff_ffff, 0x7fc0_0000, 0x7fc0_0001, 0xffc0_0000, 0x7ff8_0000, 0xfff8_0000, 0x7f80_0001, 0x8000_0000, 0xdead_beef]); c.copy_from_slice(&x.to_le_bytes()) }
                let mut e = v; if lie { match r.below(3) { 0 => e[r.below(16)] ^= 1 << r.below(8), 1 => { let j = r.below(4) * 4; let x = if e[j..j + 4] == [255; 4] { [255, 255, 255, 127] } else { [255; 4] }; e[j..j + 4].copy_from_slice(&x) } _ => { let j = r.below(2) * 8; e[j + 7] ^= 128 } } }
                let sh = |r: &mut Rng, b: &[u8; 16]| match r.below(4) { 0 => format!("i8x16 {}", b.map(|x| if x > 99 { (x as i8).to_string() } else { x.to_string() }).join(" ")), 1 => format!("i16x8 {}", b.chunks(2).map(|c| i16::from_le_bytes(c.try_into().unwrap()).to_string()).collect::<Vec<_>>().join(" ")), 2 => format!("i32x4 {}", b.chunks(4).map(|c| i32::from_le_bytes(c.try_into().unwrap()).to_string()).collect::<Vec<_>>().join(" ")), _ => format!("i64x2 {}", b.chunks(8).map(|c| i64::from_le_bytes(c.try_into().unwrap()).to_string()).collect::<Vec<_>>().join(" ")) };
                t += &format!("(assert_return (invoke {m}\"v\" (v128.const {})) (v128.const {}))\n", sh(r, &v), sh(r, &e)) }
            30 | 31 => { // floats told apart by the bits, NaNs by what they are asked to be
                let w = r.chance(1, 2); let lits: &[(&str, u8)] = if w { &[("0", 0), ("-0", 0), ("1.5", 0), ("inf", 0), ("-inf", 0), ("nan", 2), ("-nan", 2), ("nan:0x200000", 0), ("-nan:0x1", 0), ("nan:0x600000", 1), ("-nan:0x400001", 1)] } else { &[("0", 0), ("-0", 0), ("1.5", 0), ("inf", 0), ("-inf", 0), ("nan", 2), ("-nan", 2), ("nan:0x4000000000000", 0), ("-nan:0x1", 0), ("nan:0xc000000000000", 1), ("-nan:0x8000000000001", 1)] };
                let vec = r.chance(1, 2); let k = if !vec { 1 } else if w { 4 } else { 2 }; let at = r.below(k);
                let v: Vec<(&str, u8)> = (0..k).map(|_| *r.pick(lits)).collect();
                let e: Vec<&str> = v.iter().enumerate().map(|(j, x)| {
                    let mut right = vec![x.0]; let mut wrong: Vec<&str> = lits.iter().map(|y| y.0).filter(|y| *y != x.0).collect();
                    if x.1 == 2 { right.push("nan:canonical") } else { wrong.push("nan:canonical"); wrong.push("nan:canonical") } if x.1 > 0 { right.push("nan:arithmetic") } else { wrong.push("nan:arithmetic"); wrong.push("nan:arithmetic") }
                    if lie && j == at { *r.pick(&wrong) } else { *r.pick(&right) } }).collect();
                if vec { let sh = if w { "f32x4" } else { "f64x2" }; t += &format!("(assert_return (invoke {m}\"v\" (v128.const {sh} {})) (v128.const {sh} {}))\n", v.iter().map(|x| x.0).collect::<Vec<_>>().join(" "), e.join(" ")) }
                else { let f = if w { "f32" } else { "f64" }; t += &format!("(assert_return (invoke {m}\"id{f}\" ({f}.const {})) ({f}.const {}))\n", v[0].0, e[0]) } }
            33 => { t += &format!("(assert_return (invoke \"me\") (i32.const {}))\n", me + lie as i32) }
            34 => { // the message may be shorter, or say more
                let x = *r.pick(&[("div", " (i32.const 0)", "integer divide by zero", "integer overflow"), ("oob", "", "out of bounds memory access", "out of bounds table access"), ("ci", "", "uninitialized element", "undefined element"), ("cit", "", "indirect call type mismatch", "indirect call"), ("cio", "", "undefined element", "uninitialized element"), ("trn", " (f32.const nan)", "invalid conversion to integer", "integer overflow")]);
                let w = if lie && x.0 != "cit" { x.3 } else if lie { "out of bounds" } else { x.2 };
                let w = match r.below(3) { 0 if !lie => { let k = w.match_indices(' ').map(|x| x.0).collect::<Vec<_>>(); w[..*r.pick(&k)].to_string() } 1 => format!("{w} 2"), _ => w.to_string() };
                t += &format!("(assert_trap (invoke {m}\"{}\"{}) \"{w}\")\n", x.0, x.1) }
            35 | 36 if spec => { let (f, good, wrong) = *r.pick(&[("gi", "(i32.const 666)", "(i32.const 667)"), ("gl", "(i64.const 666)", "(i64.const 0)"), ("gf", "(f32.const 666.6)", "(f32.const 666)"), ("gd", "(f64.const 666.6)", "(f64.const 666)"), ("ms", "(i32.const 1)", "(i32.const 2)"), ("mg", "(i32.const -1)", "(i32.const 1)"), ("ts", "(i32.const 10)", "(i32.const 11)"), ("us", "(i64.const 10)", "(i64.const 20)"), ("tg", "(i32.const -1)", "(i32.const 10)"), ("ug", "(i64.const -1)", "(i64.const 10)"), ("pr", "", "(i32.const 0)")]);
                t += &format!("(assert_return (invoke $sp \"{f}\") {})\n", if lie { wrong } else { good }) }
            37 | 38 => { let (i, good, wrong) = *r.pick(&[("print", "(func)", "(func (param i32))"), ("print_i32", "(func (param i32))", "(func (param i64))"), ("print_i64", "(func (param i64))", "(func (param i64) (result i64))"), ("print_f32", "(func (param f32))", "(func)"), ("print_f64", "(func (param f64))", "(global f64)"), ("print_i32_f32", "(func (param i32 f32))", "(func (param f32 i32))"), ("print_i32_f32", "(func (param i32 f32))", "(func (param i32 f64))"), ("print_f64_f64", "(func (param f64 f64))", "(func (param f64))"),
                    ("global_i32", "(global i32)", "(global (mut i32))"), ("global_i64", "(global i64)", "(global (mut i64))"), ("global_f32", "(global f32)", "(global (mut f32))"), ("global_f64", "(global f64)", "(global (mut f64))"), ("global_f64", "(global f64)", "(global f32)"), ("memory", "(memory 1 2)", "(memory 2)"), ("memory", "(memory 0)", "(memory 1 1)"), ("table", "(table 10 funcref)", "(table 11 funcref)"), ("table", "(table 10 20 funcref)", "(table 10 19 funcref)"), ("table", "(table 0 funcref)", "(table 10 externref)"), ("table64", "(table i64 10 funcref)", "(table i64 11 funcref)"), ("table64", "(table i64 10 20 funcref)", "(table 10 20 funcref)"), ("table64", "(table i64 0 20 funcref)", "(table i64 10 19 funcref)")]);
                t += &format!("(assert_unlinkable (module (import \"spectest\" \"{i}\" {})) \"incompatible import type\")\n", if lie { good } else { wrong }) }
            32 => { let w = r.chance(1, 2); let (f, g) = if w { ("gf", "f32") } else { ("gd", "f64") }; t += &format!("(assert_return (get {m}\"{f}\") ({g}.const {}))\n", if lie { *r.pick(&["0", "-1.5", "nan:canonical", "nan:arithmetic"]) } else { "1.5" }) }
            _ => { t += &format!("(assert_return (invoke {m}\"null\") {})\n", if lie { "(ref.null extern)" } else { "(ref.null func)" }) }
        }
        if made_false { lies.push(line) }
    }
    (t, lies, n)
}
