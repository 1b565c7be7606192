use crate::vp::*;
use seshat::unicode::*;

#[inline(never)]
fn word(b: &[u8], k: usize) -> u32 {
    let mut w = 0u32;
    let mut j = 0;
    while j < 4 && 4 * k + j < b.len() { w |= (b[4 * k + j] as u32) << (8 * j); j += 1; }
    w
}
#[inline(never)]
fn name_is(s: &str, x: u32) {
    let b = s.as_bytes();
    check(b.len() as u32 == rf(1000, x), 1);
    let mut k = 0;
    while 4 * k < b.len() { check(word(b, k) == rf(1001 + k as u32, x), 2); k += 1; }
    cover(1);
}
harnesses! {
    fn n_cp() { let x = any_cp(0); match CodePoint::new(x) { Ok(p) => name_is(&p.na(), x), Err(_) => check(false, 99) } }
    fn n_char() { let c = any_char(0); name_is(&c.na(), c as u32) }
    fn c_name() { let x = any_cp(0); if let Ok(p) = CodePoint::new(x) { for b in p.na().bytes() { out(b as u32); } } }
}
