//! Executable statements of the standard, written over the reference tables
//! (Unicode 15.1) and independent of the crate under test.
use crate::gen::*;
use crate::vp::*;

pub const T_CCC: u32 = 1;
pub const T_SEG: u32 = 95;
pub const T_DMLEN: u32 = 100;
pub const T_CANLEN: u32 = 130;
pub const T_COMLEN: u32 = 150;
pub const T_COMPA: u32 = 180;
pub const T_COMPB: u32 = 181;
pub const T_COMP: u32 = 182;

pub const CAP: usize = 384;
pub struct Buf { pub a: [u32; CAP], pub n: usize }
impl Buf {
    #[inline(never)]
    pub fn new() -> Buf { Buf { a: [0; CAP], n: 0 } }
    #[inline(never)]
    pub fn push(&mut self, c: u32) { self.a[self.n] = c; self.n += 1; }
}

/// full decomposition (canonical or compatibility), Hangul by arithmetic
#[inline(never)]
pub fn decompose_one(c: u32, compat: bool, o: &mut Buf) {
    if c >= 0xAC00 && c < 0xAC00 + 11172 {
        let s = c - 0xAC00;
        o.push(0x1100 + s / 588);
        o.push(0x1161 + (s % 588) / 28);
        if s % 28 != 0 { o.push(0x11A7 + s % 28); }
        return;
    }
    let base = if compat { T_COMLEN } else { T_CANLEN };
    let n = rf(base, c);
    if n == 0 { o.push(c); return; }
    let mut i = 0;
    while i < n { o.push(rf(base + 1 + i, c)); i += 1; }
}
/// Canonical Ordering Algorithm: stable insertion of non-starters by class
#[inline(never)]
pub fn reorder(b: &mut Buf) {
    let mut i = 1;
    while i < b.n {
        let c = b.a[i];
        let k = rf(T_CCC, c);
        if k != 0 {
            let mut j = i;
            while j > 0 && rf(T_CCC, b.a[j - 1]) > k { b.a[j] = b.a[j - 1]; j -= 1; }
            b.a[j] = c;
        }
        i += 1;
    }
}
#[inline(never)]
pub fn compose_pair(a: u32, b: u32) -> u32 {
    if a >= 0x1100 && a < 0x1113 {
        if b >= 0x1161 && b < 0x1176 { return 0xAC00 + ((a - 0x1100) * 21 + (b - 0x1161)) * 28; }
        return 0;
    }
    if a >= 0xAC00 && a < 0xD7A4 {
        if (a - 0xAC00) % 28 == 0 && b > 0x11A7 && b < 0x11C3 { return a + (b - 0x11A7); }
        return 0;
    }
    let y = rf(T_COMPB, b);
    if y == 0 { return 0; }
    let x = rf(T_COMPA, a);
    if x == 0 { return 0; }
    rf(T_COMP, x << 8 | y)
}
/// Canonical Composition Algorithm (D117)
#[inline(never)]
pub fn compose(b: &mut Buf) {
    let mut o = Buf::new();
    let mut starter = CAP; // index in o of the last starter
    let mut last = 0;      // class of the last character kept after it
    let mut i = 0;
    while i < b.n {
        let c = b.a[i];
        let k = rf(T_CCC, c);
        let mut done = false;
        if starter != CAP {
            let adjacent = o.n == starter + 1;
            if adjacent || (last != 0 && last < k) {
                let p = compose_pair(o.a[starter], c);
                if p != 0 { o.a[starter] = p; done = true; }
            }
        }
        if !done {
            if k == 0 { starter = o.n; last = 0; } else { last = k; }
            o.push(c);
        }
        i += 1;
    }
    *b = o;
}
/// expected normalization form; form bit 0: compatibility, bit 1: compose
#[inline(never)]
pub fn normalize(s: &[u32], form: u32, b: &mut Buf) {
    for &c in s { decompose_one(c, form & 1 != 0, b); }
    reorder(b);
    if form & 2 != 0 { compose(b); }
}

/// UAX #29, extended grapheme clusters: is there a boundary before s[i] (0 < i < n)?
#[inline(never)]
pub fn grapheme_break(s: &[u32], i: usize) -> bool {
    let (cp, cn) = (rf(T_SEG, s[i - 1]), rf(T_SEG, s[i]));
    let (p, n) = (cp & 31, cn & 31);
    if p == G_CR && n == G_LF { return false; }                                              // GB3
    if p == G_CN || p == G_CR || p == G_LF { return true; }                                  // GB4
    if n == G_CN || n == G_CR || n == G_LF { return true; }                                  // GB5
    if p == G_L && (n == G_L || n == G_V || n == G_LV || n == G_LVT) { return false; }       // GB6
    if (p == G_LV || p == G_V) && (n == G_V || n == G_T) { return false; }                   // GB7
    if (p == G_LVT || p == G_T) && n == G_T { return false; }                                // GB8
    if n == G_EX || n == G_ZWJ { return false; }                                             // GB9
    if n == G_SM { return false; }                                                           // GB9a
    if p == G_PP { return false; }                                                           // GB9b
    if (cn >> 5) & 3 == IC_CONSONANT {                                                       // GB9c
        let mut linker = false;
        let mut j = i;
        while j > 0 {
            let c = (rf(T_SEG, s[j - 1]) >> 5) & 3;
            if c == IC_LINKER { linker = true; }
            else if c == IC_CONSONANT { if linker { return false; } break; }
            else if c != IC_EXTEND { break; }
            j -= 1;
        }
    }
    if cn >> 7 != 0 && p == G_ZWJ {                                                          // GB11
        let mut j = i - 1;
        while j > 0 {
            let c = rf(T_SEG, s[j - 1]);
            if c >> 7 != 0 { return false; }
            if c & 31 != G_EX { break; }
            j -= 1;
        }
    }
    if p == G_RI && n == G_RI {                                                              // GB12, GB13
        let mut k = 0;
        let mut j = i;
        while j > 0 && rf(T_SEG, s[j - 1]) & 31 == G_RI { k += 1; j -= 1; }
        if k % 2 == 1 { return false; }
    }
    true                                                                                     // GB999
}
