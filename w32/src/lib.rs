//! The monitors as a 32-bit library: driven by run.mjs.
use std::cell::RefCell;
use twverif::mon::{unit, Obs, LOC};
thread_local! { static OUT: RefCell<Vec<u8>> = const { RefCell::new(vec![]) }; static OBS: RefCell<Obs> = RefCell::new(Obs::default()); }
fn put(s: String) -> u32 { OUT.with(|o| { let mut o = o.borrow_mut(); *o = s.into_bytes(); o.len() as u32 }) }
fn hex(b: &[u8]) -> String { b.iter().map(|x| format!("{x:02x}")).collect() }
/// the length of the last answer
#[no_mangle] pub extern "C" fn last() -> u32 { OUT.with(|o| o.borrow().len() as u32) }
/// where it is
#[no_mangle] pub extern "C" fn out() -> *const u8 { OUT.with(|o| o.borrow().as_ptr()) }
#[no_mangle] pub extern "C" fn room(n: u32) -> *mut u8 { OUT.with(|o| { let mut o = o.borrow_mut(); *o = vec![0; n as usize]; o.as_mut_ptr() }) }
#[no_mangle] pub extern "C" fn init() {
    // a panic aborts here: what it said is left for the driver
    std::panic::set_hook(Box::new(|i| { let l = i.location().map(|l| l.to_string()).unwrap_or_default(); LOC.with(|x| *x.borrow_mut() = l.clone()); let t = i.payload().downcast_ref::<String>().cloned().or(i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default(); put(format!("{l}\n{t}")); }));
}
/// Runs one unit of the monitor whose name is in the room; the answer is empty or a violation.
#[no_mangle] pub extern "C" fn run(seed: u64) -> u32 {
    let mon = OUT.with(|o| String::from_utf8(o.take()).unwrap());
    let r = OBS.with(|o| unit(&mon, seed, &mut o.borrow_mut()));
    put(match r { Ok(()) => String::new(), Err(b) => serde_json::json!({"seed": seed, "what": format!("[32-bit build] {}", b.what), "files": b.files.iter().map(|(n, c)| serde_json::json!([n, hex(c)])).collect::<Vec<_>>()}).to_string() })
}
/// What was observed since the last time.
#[no_mangle] pub extern "C" fn seen() -> u32 { let o = OBS.with(|o| o.take()); put(serde_json::json!({"n": o.n, "sets": o.sets, "distinct": o.distinct, "samples": o.samples}).to_string()) }
