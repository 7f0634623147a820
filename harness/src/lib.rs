#[path = "gen.rs"]
pub mod modgen;
pub mod ops;
pub mod refi;
pub mod refnum;
pub mod rng;
pub mod scen;
pub mod target;
pub mod mem;
pub mod mon;
pub mod m_parse;
pub mod m_api;
pub mod m_link;
pub mod m_num;
pub mod m_peep;
pub mod m_vast;
pub mod m_weave;
pub mod m_big;
pub mod m_lone;
pub mod m_wide;
pub mod m_cli;
pub mod m_exec;
pub mod plan;

pub fn hash_bytes(b: &[u8]) -> u64 {
    let mut h = 0xcbf2_9ce4_8422_2325u64 ^ b.len() as u64;
    let mut c = b.chunks_exact(8);
    for w in &mut c { h = (h ^ u64::from_le_bytes(w.try_into().unwrap())).wrapping_mul(0x9E37_79B9_7F4A_7C15).rotate_left(29); }
    for x in c.remainder() { h = (h ^ *x as u64).wrapping_mul(0x0000_0100_0000_01b3); }
    h
}

/// What went wrong, without the specifics.
pub fn key_of(b: &str) -> String {
    let s = match b.find(" }: ") { Some(i) => &b[i + 4..], None => match b.find("...: ") { Some(i) => &b[i + 5..], None => b } };
    let mut o = String::new();
    let mut prev = false;
    for c in s.chars() { if c.is_ascii_digit() { if !prev { o.push('#') } prev = true } else { prev = false; o.push(c) } }
    o.chars().take(110).collect()
}
