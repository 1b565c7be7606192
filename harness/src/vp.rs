//! Interface to the engine.
extern "C" {
    fn vp_in(i: u32, kind: u32, table: u32) -> u32;
    fn vp_ref(table: u32, i: u32) -> u32;
    fn vp_assert(ok: u32, id: u32);
    fn vp_assume(ok: u32);
    fn vp_cover(id: u32);
    fn vp_out(v: u32);
}
/// any Unicode scalar value
#[inline(always)]
pub fn any_char(i: u32) -> char { unsafe { char::from_u32_unchecked(vp_in(i, 0, 0)) } }
/// any code point (surrogates included)
#[inline(always)]
pub fn any_cp(i: u32) -> u32 { unsafe { vp_in(i, 1, 0) } }
/// any scalar value c with table[c] != 0
#[inline(always)]
pub fn char_in(i: u32, table: u32) -> char { unsafe { char::from_u32_unchecked(vp_in(i, 2, table)) } }
/// any u32
#[inline(always)]
pub fn any_u32(i: u32) -> u32 { unsafe { vp_in(i, 3, 0) } }
#[inline(always)]
pub fn rf(table: u32, i: u32) -> u32 { unsafe { vp_ref(table, i) } }
#[inline(always)]
pub fn check(ok: bool, id: u32) { unsafe { vp_assert(ok as u32, id) } }
#[inline(always)]
pub fn assume(ok: bool) { unsafe { vp_assume(ok as u32) } }
#[inline(always)]
pub fn cover(id: u32) { unsafe { vp_cover(id) } }
#[inline(always)]
pub fn out(v: u32) { unsafe { vp_out(v) } }
