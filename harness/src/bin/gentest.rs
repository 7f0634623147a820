use twverif::{modgen::*, rng::Rng};
fn main() {
    let (mut ok, mut bytes) = (0, 0usize);
    let mut p = Prof::default();
    let n: u64 = std::env::args().nth(1).map(|s| s.parse().unwrap()).unwrap_or(2000);
    let t = std::time::Instant::now();
    for s in 0..n {
        let mut r = Rng::new(s);
        p.float = s % 5 != 0; p.trap = (s % 7) as u32;
        let (b, _) = gen_module(&mut r, &p, &[]);
        match wasmparser::Validator::new_with_features(wasmparser::WasmFeatures::all()).validate_all(&b) { Ok(_) => { ok += 1; bytes += b.len() } Err(e) => { println!("seed {s}: {e}"); std::fs::write("/tmp/bad.wasm", &b).unwrap(); if s > 50 { break } } }
    }
    println!("ok {ok} avg {} {:?}", bytes / ok.max(1), t.elapsed());
}
