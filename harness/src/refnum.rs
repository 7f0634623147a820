//! Numeric semantics of the reference interpreter, written from the specification text.
use crate::refi::{ins, Trap, R, V};
use wasmparser::Operator as O;

fn f32_(b: V) -> f32 { f32::from_bits(b as u32) }
fn f64_(b: V) -> f64 { f64::from_bits(b as u64) }

// ---- float helpers from first principles (no use of the target's formulas) ----
macro_rules! fl { ($m:ident, $f:ty, $u:ty, $mant:literal, $bias:literal, $bits:literal) => { pub mod $m {
    pub type F = $f; pub type U = $u;
    pub const SIGN: U = 1 << ($bits - 1);
    pub const CANON: U = (((1 << ($bits - 1 - $mant)) - 1) << $mant) | (1 << ($mant - 1));
    /// integral rounding by manipulating the encoding; mode: 0 trunc, 1 floor, 2 ceil, 3 nearest-even
    pub fn round(x: F, mode: u8) -> F {
        let b = x.to_bits(); let e = ((b & !SIGN) >> $mant) as i32 - $bias; let neg = b & SIGN != 0;
        if x.is_nan() { return F::from_bits(b | (1 << ($mant - 1))) }
        if e >= $mant { return x } // integral or infinite
        if b & !SIGN == 0 { return x }
        if e < 0 { // |x| < 1
            let one: U = ($bias as U) << $mant; let s = b & SIGN;
            let up = match mode { 0 => false, 1 => neg, 2 => !neg, _ => e == -1 && (b & ((1 << $mant) - 1)) != 0 };
            return F::from_bits(if up { s | one } else { s });
        }
        let fb = ($mant - e) as u32; let unit: U = 1 << fb; let frac = b & (unit - 1); let t = b & !(unit - 1);
        if frac == 0 { return x }
        let up = match mode { 0 => false, 1 => neg, 2 => !neg, _ => { let half = unit >> 1;
            let odd = if fb == $mant { true } else { t & unit != 0 }; // implicit leading bit is the unit bit when fb == mant
            frac > half || (frac == half && odd) } };
        F::from_bits(if up { t + unit } else { t })
    }
    pub fn isnan(b: U) -> bool { (b & !SIGN) > (CANON & !(1 << ($mant - 1))) }
    pub fn min(a: F, b: F) -> F { if a.is_nan() || b.is_nan() { return F::from_bits(CANON) } if a == b { return F::from_bits(a.to_bits() | b.to_bits()) } if a < b { a } else { b } }
    pub fn max(a: F, b: F) -> F { if a.is_nan() || b.is_nan() { return F::from_bits(CANON) } if a == b { return F::from_bits(a.to_bits() & b.to_bits()) } if a > b { a } else { b } }
    /// exact integer value of a finite float as (negative, magnitude) truncated towards zero, None if it needs > 127 bits
    pub fn trunc_int(x: F) -> Option<(bool, u128)> {
        let b = x.to_bits(); let neg = b & SIGN != 0; let e = ((b & !SIGN) >> $mant) as i32 - $bias;
        if e < 0 { return Some((neg, 0)) }
        if e > 126 { return None }
        let m = ((b & ((1 << $mant) - 1)) | (1 << $mant)) as u128;
        Some((neg, if e >= $mant { m << (e - $mant) } else { m >> ($mant - e) }))
    }
    /// nearest-even conversion of an integer magnitude
    pub fn from_int(neg: bool, mag: u128) -> F {
        if mag == 0 { return 0.0 }
        let top = 127 - mag.leading_zeros() as i32;
        let mut m; let mut e = top;
        if top <= $mant { m = mag << ($mant - top) } else {
            let sh = top - $mant; m = mag >> sh; let rem = mag & ((1u128 << sh) - 1); let half = 1u128 << (sh - 1);
            if rem > half || (rem == half && m & 1 == 1) { m += 1; if m >> ($mant + 1) != 0 { m >>= 1; e += 1 } }
        }
        let b = (((e + $bias) as U) << $mant) | (m as U & ((1 << $mant) - 1)) | if neg { SIGN } else { 0 };
        F::from_bits(b)
    }
} } }
fl!(s, f32, u32, 23, 127, 32);
fl!(d, f64, u64, 52, 1023, 64);

/// trapping truncation: Err(true) = nan, Err(false) = overflow
fn in_range(v: Option<(bool, u128)>, signed: bool, bits: u32) -> Option<u64> {
    let (neg, m) = v?;
    if signed {
        let lim = 1u128 << (bits - 1);
        if neg { if m > lim { None } else { Some((m as i128).wrapping_neg() as u64) } } else if m >= lim { None } else { Some(m as u64) }
    } else if neg && m > 0 { None } else if m >> bits != 0 { None } else { Some(m as u64) }
}
fn mask(v: u64, bits: u32) -> V { if bits == 32 { v as u32 as V } else { v as V } }
fn trap_trunc(nan: bool, v: Option<(bool, u128)>, signed: bool, bits: u32) -> R<V> {
    if nan { return Err(Trap::BadConv) }
    in_range(v, signed, bits).map(|x| mask(x, bits)).ok_or(Trap::IntOverflow)
}
fn sat_trunc(nan: bool, neg: bool, v: Option<(bool, u128)>, signed: bool, bits: u32) -> V {
    if nan { return 0 }
    match in_range(v, signed, bits) {
        Some(x) => mask(x, bits),
        None => mask(match (signed, neg) { (true, true) => (-1i64 << (bits - 1)) as u64, (true, false) => ((1u128 << (bits - 1)) - 1) as u64, (false, true) => 0, (false, false) => ((1u128 << bits) - 1) as u64 }, bits),
    }
}
fn int_mag(v: i64) -> (bool, u128) { (v < 0, v.unsigned_abs() as u128) }

macro_rules! bin32 { ($st:expr, |$a:ident, $b:ident| $e:expr) => {{ let $b = $st.pop().unwrap() as u32; let $a = $st.pop().unwrap() as u32; let r: u32 = $e; $st.push(r as V) }} }
macro_rules! bin64 { ($st:expr, |$a:ident, $b:ident| $e:expr) => {{ let $b = $st.pop().unwrap() as u64; let $a = $st.pop().unwrap() as u64; let r: u64 = $e; $st.push(r as V) }} }
macro_rules! cmp64 { ($st:expr, |$a:ident, $b:ident| $e:expr) => {{ let $b = $st.pop().unwrap() as u64; let $a = $st.pop().unwrap() as u64; let r: bool = $e; $st.push(r as V) }} }
macro_rules! cmp32 { ($st:expr, |$a:ident, $b:ident| $e:expr) => {{ let $b = $st.pop().unwrap() as u32; let $a = $st.pop().unwrap() as u32; let r: bool = $e; $st.push(r as V) }} }
macro_rules! un { ($st:expr, |$a:ident| $e:expr) => {{ let $a = $st.pop().unwrap(); let r: V = $e; $st.push(r) }} }
macro_rules! fbin { ($st:expr, $nan:expr, $f:ident, |$a:ident, $b:ident| $e:expr) => {{ let $b = $f($st.pop().unwrap()); let $a = $f($st.pop().unwrap()); let r = $e; if r.is_nan() { *$nan = true } $st.push(r.to_bits() as V) }} }
macro_rules! fcmp { ($st:expr, $f:ident, |$a:ident, $b:ident| $e:expr) => {{ let $b = $f($st.pop().unwrap()); let $a = $f($st.pop().unwrap()); let r: bool = $e; $st.push(r as V) }} }
macro_rules! fun { ($st:expr, $nan:expr, $f:ident, |$a:ident| $e:expr) => {{ let $a = $f($st.pop().unwrap()); let r = $e; if r.is_nan() { *$nan = true } $st.push(r.to_bits() as V) }} }

pub fn scalar(o: &O<'static>, st: &mut Vec<V>, nan: &mut bool) -> R<bool> {
    match o {
        O::I32Eqz => un!(st, |a| (a as u32 == 0) as V), O::I64Eqz => un!(st, |a| (a as u64 == 0) as V),
        O::I32Eq => cmp32!(st, |a, b| a == b), O::I32Ne => cmp32!(st, |a, b| a != b),
        O::I32LtS => cmp32!(st, |a, b| (a as i32) < b as i32), O::I32LtU => cmp32!(st, |a, b| a < b),
        O::I32GtS => cmp32!(st, |a, b| a as i32 > b as i32), O::I32GtU => cmp32!(st, |a, b| a > b),
        O::I32LeS => cmp32!(st, |a, b| a as i32 <= b as i32), O::I32LeU => cmp32!(st, |a, b| a <= b),
        O::I32GeS => cmp32!(st, |a, b| a as i32 >= b as i32), O::I32GeU => cmp32!(st, |a, b| a >= b),
        O::I64Eq => cmp64!(st, |a, b| a == b), O::I64Ne => cmp64!(st, |a, b| a != b),
        O::I64LtS => cmp64!(st, |a, b| (a as i64) < b as i64), O::I64LtU => cmp64!(st, |a, b| a < b),
        O::I64GtS => cmp64!(st, |a, b| a as i64 > b as i64), O::I64GtU => cmp64!(st, |a, b| a > b),
        O::I64LeS => cmp64!(st, |a, b| a as i64 <= b as i64), O::I64LeU => cmp64!(st, |a, b| a <= b),
        O::I64GeS => cmp64!(st, |a, b| a as i64 >= b as i64), O::I64GeU => cmp64!(st, |a, b| a >= b),
        O::F32Eq => fcmp!(st, f32_, |a, b| a == b), O::F32Ne => fcmp!(st, f32_, |a, b| a != b), O::F32Lt => fcmp!(st, f32_, |a, b| a < b), O::F32Gt => fcmp!(st, f32_, |a, b| a > b), O::F32Le => fcmp!(st, f32_, |a, b| a <= b), O::F32Ge => fcmp!(st, f32_, |a, b| a >= b),
        O::F64Eq => fcmp!(st, f64_, |a, b| a == b), O::F64Ne => fcmp!(st, f64_, |a, b| a != b), O::F64Lt => fcmp!(st, f64_, |a, b| a < b), O::F64Gt => fcmp!(st, f64_, |a, b| a > b), O::F64Le => fcmp!(st, f64_, |a, b| a <= b), O::F64Ge => fcmp!(st, f64_, |a, b| a >= b),
        O::I32Clz => un!(st, |a| { let mut n = 0; let mut i = 32; while i > 0 { i -= 1; if a >> i & 1 == 1 { break } n += 1 } n }),
        O::I64Clz => un!(st, |a| { let mut n = 0; let mut i = 64; while i > 0 { i -= 1; if a >> i & 1 == 1 { break } n += 1 } n }),
        O::I32Ctz => un!(st, |a| { let mut n = 0; while n < 32 && a >> n & 1 == 0 { n += 1 } n as V }),
        O::I64Ctz => un!(st, |a| { let mut n = 0; while n < 64 && a >> n & 1 == 0 { n += 1 } n as V }),
        O::I32Popcnt | O::I64Popcnt => un!(st, |a| { let mut n = 0; for i in 0..64 { n += a >> i & 1 } n }),
        O::I32Add => bin32!(st, |a, b| a.wrapping_add(b)), O::I32Sub => bin32!(st, |a, b| a.wrapping_sub(b)), O::I32Mul => bin32!(st, |a, b| (a as u64 * b as u64) as u32),
        O::I32DivS => { let (a, b) = (st[st.len() - 2] as u32 as i32, st[st.len() - 1] as u32 as i32); if b == 0 { return Err(Trap::DivZero) } if a == i32::MIN && b == -1 { return Err(Trap::IntOverflow) } bin32!(st, |a, b| ((a as i32) / (b as i32)) as u32) }
        O::I32DivU => { if *st.last().unwrap() as u32 == 0 { return Err(Trap::DivZero) } bin32!(st, |a, b| a / b) }
        O::I32RemS => { if *st.last().unwrap() as u32 == 0 { return Err(Trap::DivZero) } bin32!(st, |a, b| if b == u32::MAX { 0 } else { ((a as i32) % (b as i32)) as u32 }) }
        O::I32RemU => { if *st.last().unwrap() as u32 == 0 { return Err(Trap::DivZero) } bin32!(st, |a, b| a % b) }
        O::I64Add => bin64!(st, |a, b| a.wrapping_add(b)), O::I64Sub => bin64!(st, |a, b| a.wrapping_sub(b)), O::I64Mul => bin64!(st, |a, b| (a as u128).wrapping_mul(b as u128) as u64),
        O::I64DivS => { let (a, b) = (st[st.len() - 2] as u64 as i64, st[st.len() - 1] as u64 as i64); if b == 0 { return Err(Trap::DivZero) } if a == i64::MIN && b == -1 { return Err(Trap::IntOverflow) } bin64!(st, |a, b| ((a as i64) / (b as i64)) as u64) }
        O::I64DivU => { if *st.last().unwrap() as u64 == 0 { return Err(Trap::DivZero) } bin64!(st, |a, b| a / b) }
        O::I64RemS => { if *st.last().unwrap() as u64 == 0 { return Err(Trap::DivZero) } bin64!(st, |a, b| if b == u64::MAX { 0 } else { ((a as i64) % (b as i64)) as u64 }) }
        O::I64RemU => { if *st.last().unwrap() as u64 == 0 { return Err(Trap::DivZero) } bin64!(st, |a, b| a % b) }
        O::I32And | O::I64And => un2(st, |a, b| a & b), O::I32Or | O::I64Or => un2(st, |a, b| a | b), O::I32Xor | O::I64Xor => un2(st, |a, b| a ^ b),
        O::I32Shl => bin32!(st, |a, b| a << (b % 32)), O::I32ShrU => bin32!(st, |a, b| a >> (b % 32)), O::I32ShrS => bin32!(st, |a, b| ((a as i32) >> (b % 32)) as u32),
        O::I32Rotl => bin32!(st, |a, b| { let k = b % 32; if k == 0 { a } else { a << k | a >> (32 - k) } }), O::I32Rotr => bin32!(st, |a, b| { let k = b % 32; if k == 0 { a } else { a >> k | a << (32 - k) } }),
        O::I64Shl => bin64!(st, |a, b| a << (b % 64)), O::I64ShrU => bin64!(st, |a, b| a >> (b % 64)), O::I64ShrS => bin64!(st, |a, b| ((a as i64) >> (b % 64)) as u64),
        O::I64Rotl => bin64!(st, |a, b| { let k = b % 64; if k == 0 { a } else { a << k | a >> (64 - k) } }), O::I64Rotr => bin64!(st, |a, b| { let k = b % 64; if k == 0 { a } else { a >> k | a << (64 - k) } }),
        O::F32Abs => un!(st, |a| a & 0x7fff_ffff), O::F32Neg => un!(st, |a| a ^ 0x8000_0000), O::F64Abs => un!(st, |a| a & (u64::MAX >> 1) as V), O::F64Neg => un!(st, |a| a ^ (1 << 63)),
        O::F32Copysign => un2(st, |a, b| (a & 0x7fff_ffff) | (b & 0x8000_0000)), O::F64Copysign => un2(st, |a, b| (a & (u64::MAX >> 1) as V) | (b & (1 << 63))),
        O::F32Ceil => fun!(st, nan, f32_, |a| s::round(a, 2)), O::F32Floor => fun!(st, nan, f32_, |a| s::round(a, 1)), O::F32Trunc => fun!(st, nan, f32_, |a| s::round(a, 0)), O::F32Nearest => fun!(st, nan, f32_, |a| s::round(a, 3)), O::F32Sqrt => fun!(st, nan, f32_, |a| a.sqrt()),
        O::F64Ceil => fun!(st, nan, f64_, |a| d::round(a, 2)), O::F64Floor => fun!(st, nan, f64_, |a| d::round(a, 1)), O::F64Trunc => fun!(st, nan, f64_, |a| d::round(a, 0)), O::F64Nearest => fun!(st, nan, f64_, |a| d::round(a, 3)), O::F64Sqrt => fun!(st, nan, f64_, |a| a.sqrt()),
        O::F32Add => fbin!(st, nan, f32_, |a, b| a + b), O::F32Sub => fbin!(st, nan, f32_, |a, b| a - b), O::F32Mul => fbin!(st, nan, f32_, |a, b| a * b), O::F32Div => fbin!(st, nan, f32_, |a, b| a / b), O::F32Min => fbin!(st, nan, f32_, |a, b| s::min(a, b)), O::F32Max => fbin!(st, nan, f32_, |a, b| s::max(a, b)),
        O::F64Add => fbin!(st, nan, f64_, |a, b| a + b), O::F64Sub => fbin!(st, nan, f64_, |a, b| a - b), O::F64Mul => fbin!(st, nan, f64_, |a, b| a * b), O::F64Div => fbin!(st, nan, f64_, |a, b| a / b), O::F64Min => fbin!(st, nan, f64_, |a, b| d::min(a, b)), O::F64Max => fbin!(st, nan, f64_, |a, b| d::max(a, b)),
        O::I32WrapI64 => un!(st, |a| a as u32 as V),
        O::I32TruncF32S => { let x = f32_(st.pop().unwrap()); st.push(trap_trunc(x.is_nan(), s::trunc_int(x), true, 32)?) }
        O::I32TruncF32U => { let x = f32_(st.pop().unwrap()); st.push(trap_trunc(x.is_nan(), s::trunc_int(x), false, 32)?) }
        O::I32TruncF64S => { let x = f64_(st.pop().unwrap()); st.push(trap_trunc(x.is_nan(), d::trunc_int(x), true, 32)?) }
        O::I32TruncF64U => { let x = f64_(st.pop().unwrap()); st.push(trap_trunc(x.is_nan(), d::trunc_int(x), false, 32)?) }
        O::I64TruncF32S => { let x = f32_(st.pop().unwrap()); st.push(trap_trunc(x.is_nan(), s::trunc_int(x), true, 64)?) }
        O::I64TruncF32U => { let x = f32_(st.pop().unwrap()); st.push(trap_trunc(x.is_nan(), s::trunc_int(x), false, 64)?) }
        O::I64TruncF64S => { let x = f64_(st.pop().unwrap()); st.push(trap_trunc(x.is_nan(), d::trunc_int(x), true, 64)?) }
        O::I64TruncF64U => { let x = f64_(st.pop().unwrap()); st.push(trap_trunc(x.is_nan(), d::trunc_int(x), false, 64)?) }
        O::I32TruncSatF32S => { let x = f32_(st.pop().unwrap()); st.push(sat32(x, true, 32)) } O::I32TruncSatF32U => { let x = f32_(st.pop().unwrap()); st.push(sat32(x, false, 32)) }
        O::I64TruncSatF32S => { let x = f32_(st.pop().unwrap()); st.push(sat32(x, true, 64)) } O::I64TruncSatF32U => { let x = f32_(st.pop().unwrap()); st.push(sat32(x, false, 64)) }
        O::I32TruncSatF64S => { let x = f64_(st.pop().unwrap()); st.push(sat64(x, true, 32)) } O::I32TruncSatF64U => { let x = f64_(st.pop().unwrap()); st.push(sat64(x, false, 32)) }
        O::I64TruncSatF64S => { let x = f64_(st.pop().unwrap()); st.push(sat64(x, true, 64)) } O::I64TruncSatF64U => { let x = f64_(st.pop().unwrap()); st.push(sat64(x, false, 64)) }
        O::I64ExtendI32S => un!(st, |a| a as u32 as i32 as i64 as u64 as V), O::I64ExtendI32U => un!(st, |a| a as u32 as V),
        O::F32ConvertI32S => un!(st, |a| { let (n, m) = int_mag(a as u32 as i32 as i64); s::from_int(n, m).to_bits() as V }), O::F32ConvertI32U => un!(st, |a| s::from_int(false, a as u32 as u128).to_bits() as V),
        O::F32ConvertI64S => un!(st, |a| { let (n, m) = int_mag(a as u64 as i64); s::from_int(n, m).to_bits() as V }), O::F32ConvertI64U => un!(st, |a| s::from_int(false, a as u64 as u128).to_bits() as V),
        O::F64ConvertI32S => un!(st, |a| { let (n, m) = int_mag(a as u32 as i32 as i64); d::from_int(n, m).to_bits() as V }), O::F64ConvertI32U => un!(st, |a| d::from_int(false, a as u32 as u128).to_bits() as V),
        O::F64ConvertI64S => un!(st, |a| { let (n, m) = int_mag(a as u64 as i64); d::from_int(n, m).to_bits() as V }), O::F64ConvertI64U => un!(st, |a| d::from_int(false, a as u64 as u128).to_bits() as V),
        O::F32DemoteF64 => fun!(st, nan, f64_, |a| a as f32), O::F64PromoteF32 => fun!(st, nan, f32_, |a| a as f64),
        O::I32ReinterpretF32 | O::I64ReinterpretF64 | O::F32ReinterpretI32 | O::F64ReinterpretI64 => {}
        O::I32Extend8S => un!(st, |a| a as u8 as i8 as i32 as u32 as V), O::I32Extend16S => un!(st, |a| a as u16 as i16 as i32 as u32 as V),
        O::I64Extend8S => un!(st, |a| a as u8 as i8 as i64 as u64 as V), O::I64Extend16S => un!(st, |a| a as u16 as i16 as i64 as u64 as V), O::I64Extend32S => un!(st, |a| a as u32 as i32 as i64 as u64 as V),
        O::I64Add128 | O::I64Sub128 => { let bh = st.pop().unwrap(); let bl = st.pop().unwrap(); let ah = st.pop().unwrap(); let al = st.pop().unwrap();
            let (a, b) = (al | ah << 64, bl | bh << 64); let r = if matches!(o, O::I64Add128) { a.wrapping_add(b) } else { a.wrapping_sub(b) }; st.push(r as u64 as V); st.push(r >> 64) }
        O::I64MulWideU => { let b = st.pop().unwrap(); let a = st.pop().unwrap(); let r = a * b; st.push(r as u64 as V); st.push(r >> 64) }
        O::I64MulWideS => { let b = st.pop().unwrap() as u64 as i64 as i128; let a = st.pop().unwrap() as u64 as i64 as i128; let r = (a * b) as u128; st.push(r as u64 as V); st.push(r >> 64) }
        _ => return Ok(false),
    }
    Ok(true)
}
fn sat32(x: f32, sg: bool, bits: u32) -> V { sat_trunc(x.is_nan(), x < 0.0, s::trunc_int(x), sg, bits) }
fn sat64(x: f64, sg: bool, bits: u32) -> V { sat_trunc(x.is_nan(), x < 0.0, d::trunc_int(x), sg, bits) }
fn un2(st: &mut Vec<V>, f: impl Fn(V, V) -> V) { let b = st.pop().unwrap(); let a = st.pop().unwrap(); st.push(f(a, b)) }

// ---------------- SIMD: generic lane machinery over i128 lane values ----------------
fn lane(v: V, w: u32, i: u32) -> u64 { ((v >> (w * i)) as u64) & (u64::MAX >> (64 - w)) }
fn sx(x: u64, w: u32) -> i128 { (((x << (64 - w)) as i64) >> (64 - w)) as i128 }
fn zx(x: u64) -> i128 { x as i128 }
fn pack(w: u32, f: impl Fn(u32) -> i128) -> V { let mut r = 0; for i in 0..128 / w { r |= ((f(i) as u128) & ((1u128 << w) - 1)) << (w * i) } r }
fn sat(x: i128, w: u32, signed: bool) -> i128 { if signed { x.clamp(-(1 << (w - 1)), (1 << (w - 1)) - 1) } else { x.clamp(0, (1 << w) - 1) } }
struct L { w: u32 }
impl L {
    fn s(&self, v: V, i: u32) -> i128 { sx(lane(v, self.w, i), self.w) }
    fn u(&self, v: V, i: u32) -> i128 { zx(lane(v, self.w, i)) }
    fn bin(&self, st: &mut Vec<V>, signed: bool, f: impl Fn(i128, i128) -> i128) { let b = st.pop().unwrap(); let a = st.pop().unwrap(); st.push(pack(self.w, |i| if signed { f(self.s(a, i), self.s(b, i)) } else { f(self.u(a, i), self.u(b, i)) })) }
    fn un(&self, st: &mut Vec<V>, signed: bool, f: impl Fn(i128) -> i128) { let a = st.pop().unwrap(); st.push(pack(self.w, |i| f(if signed { self.s(a, i) } else { self.u(a, i) }))) }
    fn cmp(&self, st: &mut Vec<V>, signed: bool, f: impl Fn(i128, i128) -> bool) { self.bin(st, signed, |a, b| -(f(a, b) as i128)) }
    fn shift(&self, st: &mut Vec<V>, signed: bool, f: impl Fn(i128, u32) -> i128) { let k = st.pop().unwrap() as u32 % self.w; self.un(st, signed, |a| f(a, k)) }
    fn all(&self, st: &mut Vec<V>) { let a = st.pop().unwrap(); st.push((0..128 / self.w).all(|i| self.u(a, i) != 0) as V) }
    fn mask(&self, st: &mut Vec<V>) { let a = st.pop().unwrap(); let mut r = 0; for i in 0..128 / self.w { r |= ((self.s(a, i) < 0) as V) << i } st.push(r) }
    fn get(&self, v: V, i: u32, signed: bool) -> i128 { if signed { self.s(v, i) } else { self.u(v, i) } }
    /// widen: result lanes of 2w from low/high half
    fn extend(&self, st: &mut Vec<V>, high: bool, signed: bool) { let a = st.pop().unwrap(); let h = if high { 64 / self.w } else { 0 }; st.push(pack(self.w * 2, |i| self.get(a, i + h, signed))) }
    fn extmul(&self, st: &mut Vec<V>, high: bool, signed: bool) { let b = st.pop().unwrap(); let a = st.pop().unwrap(); let h = if high { 64 / self.w } else { 0 }; st.push(pack(self.w * 2, |i| self.get(a, i + h, signed) * self.get(b, i + h, signed))) }
    fn pairwise(&self, st: &mut Vec<V>, signed: bool) { let a = st.pop().unwrap(); st.push(pack(self.w * 2, |i| self.get(a, 2 * i, signed) + self.get(a, 2 * i + 1, signed))) }
    fn narrow(&self, st: &mut Vec<V>, signed: bool) { let b = st.pop().unwrap(); let a = st.pop().unwrap(); let n = 128 / self.w; st.push(pack(self.w / 2, |i| sat(if i < n { self.s(a, i) } else { self.s(b, i - n) }, self.w / 2, signed))) }
}
const B: L = L { w: 8 }; const H: L = L { w: 16 }; const W: L = L { w: 32 }; const D: L = L { w: 64 };
fn fz32(st: &mut Vec<V>, nan: &mut bool, f: impl Fn(f32, f32) -> f32) { let b = st.pop().unwrap(); let a = st.pop().unwrap(); let mut r = 0; for i in 0..4 { let x = f(f32::from_bits((a >> (32 * i)) as u32), f32::from_bits((b >> (32 * i)) as u32)); if x.is_nan() { *nan = true } r |= (x.to_bits() as V) << (32 * i) } st.push(r) }
fn fz64(st: &mut Vec<V>, nan: &mut bool, f: impl Fn(f64, f64) -> f64) { let b = st.pop().unwrap(); let a = st.pop().unwrap(); let mut r = 0; for i in 0..2 { let x = f(f64::from_bits((a >> (64 * i)) as u64), f64::from_bits((b >> (64 * i)) as u64)); if x.is_nan() { *nan = true } r |= (x.to_bits() as V) << (64 * i) } st.push(r) }
fn fu32(st: &mut Vec<V>, nan: &mut bool, f: impl Fn(f32) -> f32) { let a = *st.last().unwrap(); st.push(a); fz32(st, nan, |x, _| f(x)) }
fn fu64(st: &mut Vec<V>, nan: &mut bool, f: impl Fn(f64) -> f64) { let a = *st.last().unwrap(); st.push(a); fz64(st, nan, |x, _| f(x)) }
fn fc32(st: &mut Vec<V>, f: impl Fn(f32, f32) -> bool) { let b = st.pop().unwrap(); let a = st.pop().unwrap(); st.push(pack(32, |i| -(f(f32::from_bits(lane(a, 32, i) as u32), f32::from_bits(lane(b, 32, i) as u32)) as i128))) }
fn fc64(st: &mut Vec<V>, f: impl Fn(f64, f64) -> bool) { let b = st.pop().unwrap(); let a = st.pop().unwrap(); st.push(pack(64, |i| -(f(f64::from_bits(lane(a, 64, i)), f64::from_bits(lane(b, 64, i))) as i128))) }
fn fl32(v: V, i: u32) -> f32 { f32::from_bits(lane(v, 32, i) as u32) }
fn fl64(v: V, i: u32) -> f64 { f64::from_bits(lane(v, 64, i)) }

pub fn simd(o: &O<'static>, st: &mut Vec<V>, nan: &mut bool) -> bool {
    match o {
        O::I8x16Shuffle { lanes } => { let b = st.pop().unwrap().to_le_bytes(); let a = st.pop().unwrap().to_le_bytes(); let mut r = [0u8; 16]; for i in 0..16 { let l = lanes[i] as usize; r[i] = if l < 16 { a[l] } else { b[l - 16] } } st.push(V::from_le_bytes(r)) }
        O::I8x16Swizzle => { let b = st.pop().unwrap().to_le_bytes(); let a = st.pop().unwrap().to_le_bytes(); let mut r = [0u8; 16]; for i in 0..16 { r[i] = *a.get(b[i] as usize).unwrap_or(&0) } st.push(V::from_le_bytes(r)) }
        O::I8x16ExtractLaneS { lane: l } => un!(st, |a| B.s(a, *l as u32) as i32 as u32 as V), O::I8x16ExtractLaneU { lane: l } => un!(st, |a| B.u(a, *l as u32) as V),
        O::I16x8ExtractLaneS { lane: l } => un!(st, |a| H.s(a, *l as u32) as i32 as u32 as V), O::I16x8ExtractLaneU { lane: l } => un!(st, |a| H.u(a, *l as u32) as V),
        O::I32x4ExtractLane { lane: l } | O::F32x4ExtractLane { lane: l } => un!(st, |a| W.u(a, *l as u32) as V), O::I64x2ExtractLane { lane: l } | O::F64x2ExtractLane { lane: l } => un!(st, |a| D.u(a, *l as u32) as V),
        O::I8x16ReplaceLane { lane } => un2(st, |a, b| ins(a, 8, *lane, b as u8 as V)), O::I16x8ReplaceLane { lane } => un2(st, |a, b| ins(a, 16, *lane, b as u16 as V)),
        O::I32x4ReplaceLane { lane } | O::F32x4ReplaceLane { lane } => un2(st, |a, b| ins(a, 32, *lane, b as u32 as V)), O::I64x2ReplaceLane { lane } | O::F64x2ReplaceLane { lane } => un2(st, |a, b| ins(a, 64, *lane, b as u64 as V)),
        O::I8x16Splat => un!(st, |a| pack(8, |_| a as i128)), O::I16x8Splat => un!(st, |a| pack(16, |_| a as i128)), O::I32x4Splat | O::F32x4Splat => un!(st, |a| pack(32, |_| a as i128)), O::I64x2Splat | O::F64x2Splat => un!(st, |a| pack(64, |_| a as i128)),
        O::I8x16Eq => B.cmp(st, true, |a, b| a == b), O::I8x16Ne => B.cmp(st, true, |a, b| a != b), O::I8x16LtS => B.cmp(st, true, |a, b| a < b), O::I8x16LtU => B.cmp(st, false, |a, b| a < b), O::I8x16GtS => B.cmp(st, true, |a, b| a > b), O::I8x16GtU => B.cmp(st, false, |a, b| a > b), O::I8x16LeS => B.cmp(st, true, |a, b| a <= b), O::I8x16LeU => B.cmp(st, false, |a, b| a <= b), O::I8x16GeS => B.cmp(st, true, |a, b| a >= b), O::I8x16GeU => B.cmp(st, false, |a, b| a >= b),
        O::I16x8Eq => H.cmp(st, true, |a, b| a == b), O::I16x8Ne => H.cmp(st, true, |a, b| a != b), O::I16x8LtS => H.cmp(st, true, |a, b| a < b), O::I16x8LtU => H.cmp(st, false, |a, b| a < b), O::I16x8GtS => H.cmp(st, true, |a, b| a > b), O::I16x8GtU => H.cmp(st, false, |a, b| a > b), O::I16x8LeS => H.cmp(st, true, |a, b| a <= b), O::I16x8LeU => H.cmp(st, false, |a, b| a <= b), O::I16x8GeS => H.cmp(st, true, |a, b| a >= b), O::I16x8GeU => H.cmp(st, false, |a, b| a >= b),
        O::I32x4Eq => W.cmp(st, true, |a, b| a == b), O::I32x4Ne => W.cmp(st, true, |a, b| a != b), O::I32x4LtS => W.cmp(st, true, |a, b| a < b), O::I32x4LtU => W.cmp(st, false, |a, b| a < b), O::I32x4GtS => W.cmp(st, true, |a, b| a > b), O::I32x4GtU => W.cmp(st, false, |a, b| a > b), O::I32x4LeS => W.cmp(st, true, |a, b| a <= b), O::I32x4LeU => W.cmp(st, false, |a, b| a <= b), O::I32x4GeS => W.cmp(st, true, |a, b| a >= b), O::I32x4GeU => W.cmp(st, false, |a, b| a >= b),
        O::I64x2Eq => D.cmp(st, true, |a, b| a == b), O::I64x2Ne => D.cmp(st, true, |a, b| a != b), O::I64x2LtS => D.cmp(st, true, |a, b| a < b), O::I64x2GtS => D.cmp(st, true, |a, b| a > b), O::I64x2LeS => D.cmp(st, true, |a, b| a <= b), O::I64x2GeS => D.cmp(st, true, |a, b| a >= b),
        O::F32x4Eq => fc32(st, |a, b| a == b), O::F32x4Ne => fc32(st, |a, b| a != b), O::F32x4Lt => fc32(st, |a, b| a < b), O::F32x4Gt => fc32(st, |a, b| a > b), O::F32x4Le => fc32(st, |a, b| a <= b), O::F32x4Ge => fc32(st, |a, b| a >= b),
        O::F64x2Eq => fc64(st, |a, b| a == b), O::F64x2Ne => fc64(st, |a, b| a != b), O::F64x2Lt => fc64(st, |a, b| a < b), O::F64x2Gt => fc64(st, |a, b| a > b), O::F64x2Le => fc64(st, |a, b| a <= b), O::F64x2Ge => fc64(st, |a, b| a >= b),
        O::V128Not => un!(st, |a| !a), O::V128And => un2(st, |a, b| a & b), O::V128AndNot => un2(st, |a, b| a & !b), O::V128Or => un2(st, |a, b| a | b), O::V128Xor => un2(st, |a, b| a ^ b),
        O::V128Bitselect => { let c = st.pop().unwrap(); un2(st, |a, b| (a & c) | (b & !c)) }
        O::V128AnyTrue => un!(st, |a| (a != 0) as V),
        O::I8x16Abs => B.un(st, true, |a| a.abs()), O::I16x8Abs => H.un(st, true, |a| a.abs()), O::I32x4Abs => W.un(st, true, |a| a.abs()), O::I64x2Abs => D.un(st, true, |a| a.abs()),
        O::I8x16Neg => B.un(st, true, |a| -a), O::I16x8Neg => H.un(st, true, |a| -a), O::I32x4Neg => W.un(st, true, |a| -a), O::I64x2Neg => D.un(st, true, |a| -a),
        O::I8x16Popcnt => B.un(st, false, |a| (0..8).map(|i| a >> i & 1).sum()),
        O::I8x16AllTrue => B.all(st), O::I16x8AllTrue => H.all(st), O::I32x4AllTrue => W.all(st), O::I64x2AllTrue => D.all(st),
        O::I8x16Bitmask => B.mask(st), O::I16x8Bitmask => H.mask(st), O::I32x4Bitmask => W.mask(st), O::I64x2Bitmask => D.mask(st),
        O::I8x16NarrowI16x8S => H.narrow(st, true), O::I8x16NarrowI16x8U => H.narrow(st, false), O::I16x8NarrowI32x4S => W.narrow(st, true), O::I16x8NarrowI32x4U => W.narrow(st, false),
        O::I8x16Shl => B.shift(st, false, |a, k| a << k), O::I8x16ShrS => B.shift(st, true, |a, k| a >> k), O::I8x16ShrU => B.shift(st, false, |a, k| a >> k),
        O::I16x8Shl => H.shift(st, false, |a, k| a << k), O::I16x8ShrS => H.shift(st, true, |a, k| a >> k), O::I16x8ShrU => H.shift(st, false, |a, k| a >> k),
        O::I32x4Shl => W.shift(st, false, |a, k| a << k), O::I32x4ShrS => W.shift(st, true, |a, k| a >> k), O::I32x4ShrU => W.shift(st, false, |a, k| a >> k),
        O::I64x2Shl => D.shift(st, false, |a, k| a << k), O::I64x2ShrS => D.shift(st, true, |a, k| a >> k), O::I64x2ShrU => D.shift(st, false, |a, k| a >> k),
        O::I8x16Add => B.bin(st, true, |a, b| a + b), O::I16x8Add => H.bin(st, true, |a, b| a + b), O::I32x4Add => W.bin(st, true, |a, b| a + b), O::I64x2Add => D.bin(st, true, |a, b| a + b),
        O::I8x16Sub => B.bin(st, true, |a, b| a - b), O::I16x8Sub => H.bin(st, true, |a, b| a - b), O::I32x4Sub => W.bin(st, true, |a, b| a - b), O::I64x2Sub => D.bin(st, true, |a, b| a - b),
        O::I8x16AddSatS => B.bin(st, true, |a, b| sat(a + b, 8, true)), O::I8x16AddSatU => B.bin(st, false, |a, b| sat(a + b, 8, false)), O::I8x16SubSatS => B.bin(st, true, |a, b| sat(a - b, 8, true)), O::I8x16SubSatU => B.bin(st, false, |a, b| sat(a - b, 8, false)),
        O::I16x8AddSatS => H.bin(st, true, |a, b| sat(a + b, 16, true)), O::I16x8AddSatU => H.bin(st, false, |a, b| sat(a + b, 16, false)), O::I16x8SubSatS => H.bin(st, true, |a, b| sat(a - b, 16, true)), O::I16x8SubSatU => H.bin(st, false, |a, b| sat(a - b, 16, false)),
        O::I16x8Mul => H.bin(st, true, |a, b| a * b), O::I32x4Mul => W.bin(st, true, |a, b| a * b), O::I64x2Mul => D.bin(st, false, |a, b| (a as u128).wrapping_mul(b as u128) as i128),
        O::I8x16MinS => B.bin(st, true, |a, b| a.min(b)), O::I8x16MinU => B.bin(st, false, |a, b| a.min(b)), O::I8x16MaxS => B.bin(st, true, |a, b| a.max(b)), O::I8x16MaxU => B.bin(st, false, |a, b| a.max(b)),
        O::I16x8MinS => H.bin(st, true, |a, b| a.min(b)), O::I16x8MinU => H.bin(st, false, |a, b| a.min(b)), O::I16x8MaxS => H.bin(st, true, |a, b| a.max(b)), O::I16x8MaxU => H.bin(st, false, |a, b| a.max(b)),
        O::I32x4MinS => W.bin(st, true, |a, b| a.min(b)), O::I32x4MinU => W.bin(st, false, |a, b| a.min(b)), O::I32x4MaxS => W.bin(st, true, |a, b| a.max(b)), O::I32x4MaxU => W.bin(st, false, |a, b| a.max(b)),
        O::I8x16AvgrU => B.bin(st, false, |a, b| (a + b + 1) / 2), O::I16x8AvgrU => H.bin(st, false, |a, b| (a + b + 1) / 2),
        O::I16x8Q15MulrSatS => H.bin(st, true, |a, b| sat((a * b + 0x4000) >> 15, 16, true)),
        O::I16x8ExtAddPairwiseI8x16S => B.pairwise(st, true), O::I16x8ExtAddPairwiseI8x16U => B.pairwise(st, false), O::I32x4ExtAddPairwiseI16x8S => H.pairwise(st, true), O::I32x4ExtAddPairwiseI16x8U => H.pairwise(st, false),
        O::I16x8ExtendLowI8x16S => B.extend(st, false, true), O::I16x8ExtendHighI8x16S => B.extend(st, true, true), O::I16x8ExtendLowI8x16U => B.extend(st, false, false), O::I16x8ExtendHighI8x16U => B.extend(st, true, false),
        O::I32x4ExtendLowI16x8S => H.extend(st, false, true), O::I32x4ExtendHighI16x8S => H.extend(st, true, true), O::I32x4ExtendLowI16x8U => H.extend(st, false, false), O::I32x4ExtendHighI16x8U => H.extend(st, true, false),
        O::I64x2ExtendLowI32x4S => W.extend(st, false, true), O::I64x2ExtendHighI32x4S => W.extend(st, true, true), O::I64x2ExtendLowI32x4U => W.extend(st, false, false), O::I64x2ExtendHighI32x4U => W.extend(st, true, false),
        O::I16x8ExtMulLowI8x16S => B.extmul(st, false, true), O::I16x8ExtMulHighI8x16S => B.extmul(st, true, true), O::I16x8ExtMulLowI8x16U => B.extmul(st, false, false), O::I16x8ExtMulHighI8x16U => B.extmul(st, true, false),
        O::I32x4ExtMulLowI16x8S => H.extmul(st, false, true), O::I32x4ExtMulHighI16x8S => H.extmul(st, true, true), O::I32x4ExtMulLowI16x8U => H.extmul(st, false, false), O::I32x4ExtMulHighI16x8U => H.extmul(st, true, false),
        O::I64x2ExtMulLowI32x4S => W.extmul(st, false, true), O::I64x2ExtMulHighI32x4S => W.extmul(st, true, true), O::I64x2ExtMulLowI32x4U => W.extmul(st, false, false), O::I64x2ExtMulHighI32x4U => W.extmul(st, true, false),
        O::I32x4DotI16x8S => un2(st, |a, b| pack(32, |i| H.s(a, 2 * i) * H.s(b, 2 * i) + H.s(a, 2 * i + 1) * H.s(b, 2 * i + 1))),
        O::F32x4Abs => un!(st, |a| pack(32, |i| (W.u(a, i)) & 0x7fff_ffff)), O::F32x4Neg => un!(st, |a| pack(32, |i| (W.u(a, i)) ^ 0x8000_0000)),
        O::F64x2Abs => un!(st, |a| pack(64, |i| (D.u(a, i)) & (u64::MAX >> 1) as i128)), O::F64x2Neg => un!(st, |a| pack(64, |i| (D.u(a, i)) ^ (1 << 63))),
        O::F32x4Ceil => fu32(st, nan, |a| s::round(a, 2)), O::F32x4Floor => fu32(st, nan, |a| s::round(a, 1)), O::F32x4Trunc => fu32(st, nan, |a| s::round(a, 0)), O::F32x4Nearest => fu32(st, nan, |a| s::round(a, 3)), O::F32x4Sqrt => fu32(st, nan, |a| a.sqrt()),
        O::F64x2Ceil => fu64(st, nan, |a| d::round(a, 2)), O::F64x2Floor => fu64(st, nan, |a| d::round(a, 1)), O::F64x2Trunc => fu64(st, nan, |a| d::round(a, 0)), O::F64x2Nearest => fu64(st, nan, |a| d::round(a, 3)), O::F64x2Sqrt => fu64(st, nan, |a| a.sqrt()),
        O::F32x4Add => fz32(st, nan, |a, b| a + b), O::F32x4Sub => fz32(st, nan, |a, b| a - b), O::F32x4Mul => fz32(st, nan, |a, b| a * b), O::F32x4Div => fz32(st, nan, |a, b| a / b), O::F32x4Min => fz32(st, nan, s::min), O::F32x4Max => fz32(st, nan, s::max), O::F32x4PMin => fz32(st, nan, |a, b| if b < a { b } else { a }), O::F32x4PMax => fz32(st, nan, |a, b| if a < b { b } else { a }),
        O::F64x2Add => fz64(st, nan, |a, b| a + b), O::F64x2Sub => fz64(st, nan, |a, b| a - b), O::F64x2Mul => fz64(st, nan, |a, b| a * b), O::F64x2Div => fz64(st, nan, |a, b| a / b), O::F64x2Min => fz64(st, nan, d::min), O::F64x2Max => fz64(st, nan, d::max), O::F64x2PMin => fz64(st, nan, |a, b| if b < a { b } else { a }), O::F64x2PMax => fz64(st, nan, |a, b| if a < b { b } else { a }),
        O::I32x4TruncSatF32x4S => un!(st, |a| pack(32, |i| sat32(fl32(a, i), true, 32) as i128)), O::I32x4TruncSatF32x4U => un!(st, |a| pack(32, |i| sat32(fl32(a, i), false, 32) as i128)),
        O::I32x4TruncSatF64x2SZero => un!(st, |a| pack(32, |i| if i < 2 { sat64(fl64(a, i), true, 32) as i128 } else { 0 })), O::I32x4TruncSatF64x2UZero => un!(st, |a| pack(32, |i| if i < 2 { sat64(fl64(a, i), false, 32) as i128 } else { 0 })),
        O::F32x4ConvertI32x4S => un!(st, |a| pack(32, |i| { let (n, m) = int_mag(W.s(a, i) as i64); s::from_int(n, m).to_bits() as i128 })), O::F32x4ConvertI32x4U => un!(st, |a| pack(32, |i| s::from_int(false, W.u(a, i) as u128).to_bits() as i128)),
        O::F64x2ConvertLowI32x4S => un!(st, |a| pack(64, |i| { let (n, m) = int_mag(W.s(a, i) as i64); d::from_int(n, m).to_bits() as i128 })), O::F64x2ConvertLowI32x4U => un!(st, |a| pack(64, |i| d::from_int(false, W.u(a, i) as u128).to_bits() as i128)),
        O::F32x4DemoteF64x2Zero => { let a = st.pop().unwrap(); if fl64(a, 0).is_nan() || fl64(a, 1).is_nan() { *nan = true } st.push(pack(32, |i| if i < 2 { (fl64(a, i) as f32).to_bits() as i128 } else { 0 })) }
        O::F64x2PromoteLowF32x4 => { let a = st.pop().unwrap(); if fl32(a, 0).is_nan() || fl32(a, 1).is_nan() { *nan = true } st.push(pack(64, |i| (fl32(a, i) as f64).to_bits() as i128)) }
        _ => return false,
    }
    true
}
