use crate::spec::*;
use crate::vp::*;
use seshat::unicode::*;

#[inline(never)]
fn encode(xs: &[char], buf: &mut [u8; 64]) -> usize {
    let mut n = 0;
    for &c in xs { n += c.encode_utf8(&mut buf[n..]).len(); }
    n
}
#[inline(never)]
fn as_text(b: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(b) } }

#[inline(never)]
fn run_form(s: &str, form: u32) -> String {
    match form { 0 => s.to_nfd(), 1 => s.to_nfkd(), 2 => s.to_nfc(), _ => s.to_nfkc() }
}
#[inline(never)]
fn same(r: &str, b: &Buf, id: u32) {
    let mut k = 0;
    for c in r.chars() {
        if k >= b.n { check(false, id); return; }
        check(c as u32 == b.a[k], id);
        k += 1;
    }
    check(k == b.n, id + 1);
}
#[inline(never)]
fn norm(xs: &[char], form: u32) {
    let mut raw = [0u8; 64];
    let n = encode(xs, &mut raw);
    let r = run_form(as_text(&raw[..n]), form);
    let mut cps = [0u32; 16];
    for (i, c) in xs.iter().enumerate() { cps[i] = *c as u32; }
    let mut b = Buf::new();
    normalize(&cps[..xs.len()], form, &mut b);
    same(&r, &b, 10 + form * 2);
    cover(1);
}
#[inline(never)]
fn seg(xs: &[char]) {
    let mut raw = [0u8; 64];
    let n = encode(xs, &mut raw);
    let s = as_text(&raw[..n]);
    let mut cps = [0u32; 16];
    for (i, c) in xs.iter().enumerate() { cps[i] = *c as u32; }
    let cps = &cps[..xs.len()];
    let mut pos = 0;
    for g in s.break_graphemes() {
        let mut first = true;
        for c in g.chars() {
            if pos >= cps.len() { check(false, 1); return; }
            check(c as u32 == cps[pos], 2);
            if pos > 0 {
                let b = grapheme_break(cps, pos);
                check(b == first, 3);
            }
            first = false;
            pos += 1;
        }
        check(!first, 4);
    }
    check(pos == cps.len(), 5);
    cover(1);
}

#[inline(never)]
fn equal(a: &str, b: &str, id: u32) {
    let (x, y) = (a.as_bytes(), b.as_bytes());
    check(x.len() == y.len(), id);
    let mut k = 0;
    while k < x.len() && k < y.len() { check(x[k] == y[k], id); k += 1; }
}
/// laws between the forms that hold for every string
#[inline(never)]
fn laws(xs: &[char], which: u32) {
    let mut raw = [0u8; 64];
    let n = encode(xs, &mut raw);
    law(as_text(&raw[..n]), which);
}
#[inline(never)]
fn laws_long(t: &Text, which: u32) {
    let mut raw = [0u8; 1024];
    let n = t.utf8(&mut raw);
    law(as_text(&raw[..n]), which);
}
#[inline(never)]
fn law(s: &str, which: u32) {
    let (f, g) = (which >> 2, which & 3);
    // g(f(s)) is g(s) if f keeps canonical equivalence or g is a compatibility form
    let a = run_form(s, f);
    let b = run_form(&a, g);
    let c = run_form(s, g);
    equal(&b, &c, 40 + which);
    cover(1);
}
/// normalizing around a line feed is independent on both sides
#[inline(never)]
fn local(a: &[char], b: &[char], form: u32) {
    let mut all = ['\n'; 16];
    for (i, &c) in a.iter().enumerate() { all[i] = c; }
    for (i, &c) in b.iter().enumerate() { all[a.len() + 1 + i] = c; }
    let (mut r1, mut r2, mut r3) = ([0u8; 64], [0u8; 64], [0u8; 64]);
    let n1 = encode(&all[..a.len() + 1 + b.len()], &mut r1);
    let n2 = encode(a, &mut r2);
    let n3 = encode(b, &mut r3);
    joined(as_text(&r1[..n1]), as_text(&r2[..n2]), as_text(&r3[..n3]), form);
}
#[inline(never)]
fn joined(all: &str, a: &str, b: &str, form: u32) {
    let w = run_form(all, form);
    let x = run_form(a, form);
    let y = run_form(b, form);
    let (w, x, y) = (w.as_bytes(), x.as_bytes(), y.as_bytes());
    check(w.len() == x.len() + 1 + y.len(), 60);
    if w.len() == x.len() + 1 + y.len() {
        let mut k = 0;
        while k < x.len() { check(w[k] == x[k], 61); k += 1; }
        check(w[k] == b'\n', 62);
        k += 1;
        let mut j = 0;
        while j < y.len() { check(w[k + j] == y[j], 63); j += 1; }
    }
    cover(1);
}
/// ASCII text is unchanged by every form and breaks after every character but CR before LF
#[inline(never)]
fn ascii(xs: &[char]) {
    let mut raw = [0u8; 64];
    let n = encode(xs, &mut raw);
    ascii_text(as_text(&raw[..n]));
}
#[inline(never)]
fn ascii_text(s: &str) {
    let n = s.len();
    let raw = s.as_bytes();
    let mut f = 0;
    while f < 4 { let r = run_form(s, f); equal(&r, s, 80 + f); f += 1; }
    let mut pos = 0;
    for g in s.break_graphemes() {
        let b = g.as_bytes();
        check(b.len() == 1 || (b.len() == 2 && b[0] == 13 && b[1] == 10), 84);
        if b.len() == 1 && b[0] == 13 { check(pos + 1 == n || raw[pos + 1] != 10, 85); }
        pos += b.len();
    }
    check(pos == n, 86);
    cover(1);
}
/// Hangul: composing undoes decomposing, syllable by syllable
#[inline(never)]
fn hangul(xs: &[char]) {
    let mut raw = [0u8; 64];
    let n = encode(xs, &mut raw);
    let s = as_text(&raw[..n]);
    let d = s.to_nfd();
    let mut k = 0;
    let mut i = 0;
    let db = d.as_bytes();
    while i < xs.len() {
        let c = xs[i] as u32 - 0xAC00;
        let t = c % 28;
        let want = [0x1100 + c / 588, 0x1161 + c / 28 % 21, 0x11A7 + t];
        let m = if t == 0 { 2 } else { 3 };
        let mut j = 0;
        while j < m {
            check(k + 3 <= db.len(), 90);
            let (b0, b1, b2) = (db[k] as u32, db[k + 1] as u32, db[k + 2] as u32);
            check((b0 & 15) << 12 | (b1 & 63) << 6 | b2 & 63 == want[j], 91);
            k += 3;
            j += 1;
        }
        i += 1;
    }
    check(k == db.len(), 92);
    let c = d.to_nfc();
    equal(&c, s, 93);
    cover(1);
}
/// the clusters are the input cut into non-empty pieces; nothing follows the end
#[inline(never)]
fn partition(xs: &[char]) {
    let mut raw = [0u8; 64];
    let n = encode(xs, &mut raw);
    pieces(&raw, n, xs.len());
}
#[inline(never)]
fn part_long(t: &Text) {
    let mut raw = [0u8; 1024];
    let n = t.utf8(&mut raw);
    pieces(&raw, n, t.n);
}
#[inline(never)]
fn pieces(raw: &[u8], n: usize, count: usize) {
    let s = as_text(&raw[..n]);
    let mut it = s.break_graphemes();
    let mut pos = 0;
    let mut k = 0;
    while let Some(g) = it.next() {
        check(g.len() > 0, 20);
        check(k < count, 21);
        check(pos + g.len() <= n, 22);
        let b = g.as_bytes();
        let mut j = 0;
        while j < b.len() { check(b[j] == raw[pos + j], 23); j += 1; }
        check(core::ptr::eq(g.as_ptr(), unsafe { s.as_ptr().add(pos) }), 24);
        pos += b.len();
        // a piece ends between characters
        check(pos == n || raw[pos] & 0xC0 != 0x80, 25);
        k += 1;
    }
    check(pos == n, 26);
    check(it.next().is_none(), 27);
    cover(1);
}
// --- long concrete surroundings with a symbolic window -----------------------
const LONG: usize = 320;
struct Text { a: [char; LONG], n: usize }
impl Text {
    #[inline(never)]
    fn new() -> Text { Text { a: ['a'; LONG], n: 0 } }
    #[inline(never)]
    fn add(&mut self, c: char) { self.a[self.n] = c; self.n += 1; }
    #[inline(never)]
    fn rep(&mut self, cs: &[char], times: usize) { let mut i = 0; while i < times { for &c in cs { self.add(c); } i += 1; } }
    #[inline(never)]
    fn utf8(&self, buf: &mut [u8; 1024]) -> usize {
        let mut n = 0;
        for &c in &self.a[..self.n] { n += c.encode_utf8(&mut buf[n..]).len(); }
        n
    }
    #[inline(never)]
    fn cps(&self) -> [u32; LONG] {
        let mut o = [0; LONG];
        let mut i = 0;
        while i < self.n { o[i] = self.a[i] as u32; i += 1; }
        o
    }
}
#[inline(never)]
fn norm_long(t: &Text, form: u32) {
    let mut raw = [0u8; 1024];
    let n = t.utf8(&mut raw);
    let r = run_form(as_text(&raw[..n]), form);
    let mut b = Buf::new();
    normalize(&t.cps()[..t.n], form, &mut b);
    same(&r, &b, 10 + form * 2);
    cover(1);
}
#[inline(never)]
fn seg_long(t: &Text) {
    let mut raw = [0u8; 1024];
    let n = t.utf8(&mut raw);
    let s = as_text(&raw[..n]);
    let cps = t.cps();
    let cps = &cps[..t.n];
    let mut pos = 0;
    for g in s.break_graphemes() {
        let mut first = true;
        for c in g.chars() {
            if pos >= cps.len() { check(false, 1); return; }
            check(c as u32 == cps[pos], 2);
            if pos > 0 { check(grapheme_break(cps, pos) == first, 3); }
            first = false;
            pos += 1;
        }
        check(!first, 4);
    }
    check(pos == cps.len(), 5);
    cover(1);
}
#[inline(never)]
fn local_long(a: &Text, b: &Text, form: u32) {
    let mut all = Text::new();
    let mut i = 0;
    while i < a.n { all.add(a.a[i]); i += 1; }
    all.add('\n');
    i = 0;
    while i < b.n { all.add(b.a[i]); i += 1; }
    let (mut r1, mut r2, mut r3) = ([0u8; 1024], [0u8; 1024], [0u8; 1024]);
    let (n1, n2, n3) = (all.utf8(&mut r1), a.utf8(&mut r2), b.utf8(&mut r3));
    joined(as_text(&r1[..n1]), as_text(&r2[..n2]), as_text(&r3[..n3]), form);
}
#[inline(never)]
fn ascii_long(t: &Text) {
    let mut raw = [0u8; 1024];
    let n = t.utf8(&mut raw);
    ascii_text(as_text(&raw[..n]));
}
macro_rules! text { ($($m:ident($($x:expr),*)),*) => {{ let mut t = Text::new(); $( t.$m($($x),*); )* t }}; }
/// 20 marks of one class, then any two nonstarters
#[inline(never)]
fn x_end() -> Text { text![add('a'), rep(&['\u{301}', '\u{302}', '\u{308}', '\u{30A}'], 6), add(char_in(0, 205)), add(char_in(1, 204))] }
/// any nonstarter, 24 marks, any nonstarter
#[inline(never)]
fn x_both() -> Text { text![add('e'), add(char_in(0, 204)), rep(&['\u{323}', '\u{331}', '\u{324}'], 8), add(char_in(1, 205)), add('z')] }
/// marks of falling classes around a window
#[inline(never)]
fn x_fall() -> Text { text![add('o'), rep(&['\u{345}', '\u{35D}', '\u{301}'], 3), add(char_in(0, 204)), rep(&['\u{315}', '\u{323}', '\u{327}', '\u{334}'], 3), add(char_in(1, 204))] }
/// any left part of a composite, 20 blocked or blocking marks, any right part
#[inline(never)]
fn x_comp() -> Text { text![add(char_in(0, 207)), rep(&['\u{334}'], 20), add(char_in(1, 204))] }
#[inline(never)]
fn x_comp2() -> Text { text![add('u'), rep(&['\u{334}'], 20), add(char_in(0, 208)), add(char_in(1, 204))] }
/// a left part, more than a hundred marks of class 1, a right part
#[inline(never)]
fn x_comp3() -> Text { text![add(char_in(0, 207)), rep(&['\u{334}'], 120), add(char_in(1, 204)), add('b')] }
#[inline(never)]
fn x_comp4() -> Text { text![add('o'), rep(&['\u{334}'], 100), add(char_in(0, 204)), add(char_in(1, 204))] }
/// a run of marks that do not compose, then one that may
#[inline(never)]
fn x_block() -> Text { text![add(char_in(0, 204)), rep(&['\u{305}', '\u{33F}'], 12), add(char_in(1, 204)), add('c')] }
/// more than 256 marks of one class
#[inline(never)]
fn x_many() -> Text { text![add('a'), rep(&['\u{305}'], 130), add(char_in(0, 204)), rep(&['\u{323}'], 130), add(char_in(1, 204))] }
/// ordinary text, then any two interacting characters
#[inline(never)]
fn x_text() -> Text { text![rep(&['a', '\u{301}', 'b', '\u{AC00}', '\u{11A8}'], 6), add(char_in(0, 200)), add(char_in(1, 200))] }
/// any character in the middle of ordinary text
#[inline(never)]
fn x_mid() -> Text { text![rep(&['x', 'y', '\u{1E9B}', '\u{323}'], 4), add(any_char(0)), rep(&['\u{301}', 'q'], 4)] }
/// syllables and jamo
#[inline(never)]
fn x_hang() -> Text { text![rep(&['\u{1112}', '\u{1161}', '\u{11AB}', '\u{D55C}'], 6), add(char_in(0, 201)), add(char_in(1, 201))] }
/// a very long run of marks
#[inline(never)]
fn x_huge() -> Text { text![add('a'), rep(&['\u{301}', '\u{302}', '\u{308}', '\u{30A}', '\u{323}', '\u{35D}', '\u{334}'], 18), add(char_in(0, 204)), add(char_in(1, 204))] }
/// a very long text of words
#[inline(never)]
fn x_words() -> Text { text![rep(&['w', 'o', '\u{308}', ' ', '\u{AC01}', '\u{3042}', '\u{212B}'], 14), add(char_in(0, 200)), add(char_in(1, 204))] }
#[inline(never)]
fn x_text2() -> Text { text![rep(&['a', '\u{301}', 'b', '\u{AC00}', '\u{11A8}'], 3), add(char_in(0, 200)), rep(&['\u{323}', '\u{301}', '\u{345}', '\u{212B}'], 3)] }
#[inline(never)]
fn x_fall2() -> Text { text![add('o'), rep(&['\u{345}', '\u{35D}', '\u{301}'], 3), add(char_in(1, 204)), rep(&['\u{315}', '\u{323}', '\u{327}', '\u{334}'], 3), add(char_in(2, 204))] }
/// many starters that stay apart
#[inline(never)]
fn x_start() -> Text { text![rep(&['\u{3042}'], 40), add(any_char(0))] }

#[inline(never)]
fn y_huge() -> Text { text![rep(&['\u{1F1E6}'], 35), rep(&['\u{915}', '\u{94D}', '\u{300}'], 12), rep(&['\u{1F468}', '\u{200D}'], 20), rep(&['\u{300}'], 40), add(any_char(0)), add(char_in(1, 202))] }
#[inline(never)]
fn y_words() -> Text { text![rep(&['w', 'o', '\u{308}', ' ', '\u{AC01}', '\r', '\n', '\u{3042}'], 18), add(any_char(0)), add(char_in(1, 202))] }
#[inline(never)]
fn y_ri() -> Text { text![rep(&['\u{1F1E6}'], 21), add(any_char(0)), add(char_in(1, 202))] }
#[inline(never)]
fn y_ri2() -> Text { text![add('a'), rep(&['\u{1F1E6}'], 22), add(char_in(0, 210)), add('\u{1F1E7}'), add(char_in(1, 202))] }
#[inline(never)]
fn y_conj() -> Text { text![rep(&['\u{915}', '\u{94D}'], 12), add(any_char(0)), add(char_in(1, 202))] }
#[inline(never)]
fn y_conj2() -> Text { text![add('\u{915}'), rep(&['\u{300}', '\u{93C}'], 12), add(char_in(0, 210)), add(char_in(1, 210)), add(char_in(2, 202))] }
#[inline(never)]
fn y_zwj() -> Text { text![rep(&['\u{1F468}', '\u{200D}'], 12), add(any_char(0)), add(char_in(1, 202))] }
#[inline(never)]
fn y_zwj2() -> Text { text![add('\u{A9}'), rep(&['\u{300}'], 24), add(char_in(0, 210)), add(char_in(1, 210)), add(char_in(2, 202))] }
#[inline(never)]
fn y_text() -> Text { text![rep(&['a', '\u{301}', '\r', '\n'], 8), add(any_char(0)), add(any_char(1))] }
#[inline(never)]
fn y_hang() -> Text { text![rep(&['\u{1100}'], 12), rep(&['\u{AC00}', '\u{1161}'], 4), rep(&['\u{11A8}'], 8), add(char_in(0, 202)), add(char_in(1, 202))] }
#[inline(never)]
fn y_prep() -> Text { text![rep(&['\u{600}'], 20), add(char_in(0, 202)), rep(&['\u{903}'], 12), add(char_in(1, 202))] }
#[inline(never)]
fn y_after() -> Text { text![add(any_char(0)), add(char_in(1, 202)), rep(&['\u{1F468}', '\u{200D}', '\u{1F1E6}', '\u{915}', '\u{94D}', 'a', '\u{600}'], 4)] }

macro_rules! full { ($($i:expr),*) => { &[$(any_char($i)),*] }; }
macro_rules! alph { ($t:expr; $($i:expr),*) => { &[$(char_in($i, $t)),*] }; }
harnesses! {
    fn t_nfd1() { norm(full![0], 0) }
    fn t_nfkd1() { norm(full![0], 1) }
    fn t_nfc1() { norm(full![0], 2) }
    fn t_nfkc1() { norm(full![0], 3) }
    fn t_nfd2() { norm(full![0, 1], 0) }
    fn t_nfkd2() { norm(full![0, 1], 1) }
    fn t_nfc2() { norm(full![0, 1], 2) }
    fn t_nfkc2() { norm(full![0, 1], 3) }
    fn t_nfd3() { norm(full![0, 1, 2], 0) }
    fn t_nfkd3() { norm(full![0, 1, 2], 1) }
    fn t_nfc3() { norm(full![0, 1, 2], 2) }
    fn t_nfkc3() { norm(full![0, 1, 2], 3) }
    fn ta_nfd2() { norm(alph![200; 0, 1], 0) }
    fn ta_nfkd2() { norm(alph![200; 0, 1], 1) }
    fn ta_nfc2() { norm(alph![200; 0, 1], 2) }
    fn ta_nfkc2() { norm(alph![200; 0, 1], 3) }
    fn ta_nfd3() { norm(alph![200; 0, 1, 2], 0) }
    fn ta_nfkd3() { norm(alph![200; 0, 1, 2], 1) }
    fn ta_nfc3() { norm(alph![200; 0, 1, 2], 2) }
    fn ta_nfkc3() { norm(alph![200; 0, 1, 2], 3) }
    fn ta_nfd4() { norm(alph![200; 0, 1, 2, 3], 0) }
    fn ta_nfkd4() { norm(alph![200; 0, 1, 2, 3], 1) }
    fn ta_nfc4() { norm(alph![200; 0, 1, 2, 3], 2) }
    fn ta_nfkc4() { norm(alph![200; 0, 1, 2, 3], 3) }
    fn tm_nfd3() { norm(alph![204; 0, 1, 2], 0) }
    fn tm_nfkd3() { norm(alph![204; 0, 1, 2], 1) }
    fn tm_nfc3() { norm(alph![204; 0, 1, 2], 2) }
    fn tm_nfkc3() { norm(alph![204; 0, 1, 2], 3) }
    fn tm_nfd4() { norm(alph![204; 0, 1, 2, 3], 0) }
    fn tm_nfkd4() { norm(alph![204; 0, 1, 2, 3], 1) }
    fn tm_nfc4() { norm(alph![204; 0, 1, 2, 3], 2) }
    fn tm_nfkc4() { norm(alph![204; 0, 1, 2, 3], 3) }
    fn tm_nfd5() { norm(alph![204; 0, 1, 2, 3, 4], 0) }
    fn tm_nfkd5() { norm(alph![204; 0, 1, 2, 3, 4], 1) }
    fn tm_nfc5() { norm(alph![204; 0, 1, 2, 3, 4], 2) }
    fn tm_nfkc5() { norm(alph![204; 0, 1, 2, 3, 4], 3) }
    fn tm_nfd6() { norm(alph![204; 0, 1, 2, 3, 4, 5], 0) }
    fn tm_nfkd6() { norm(alph![204; 0, 1, 2, 3, 4, 5], 1) }
    fn tm_nfc6() { norm(alph![204; 0, 1, 2, 3, 4, 5], 2) }
    fn tm_nfkc6() { norm(alph![204; 0, 1, 2, 3, 4, 5], 3) }
    fn th_nfd2() { norm(alph![201; 0, 1], 0) }
    fn th_nfkd2() { norm(alph![201; 0, 1], 1) }
    fn th_nfc2() { norm(alph![201; 0, 1], 2) }
    fn th_nfkc2() { norm(alph![201; 0, 1], 3) }
    fn th_nfd3() { norm(alph![201; 0, 1, 2], 0) }
    fn th_nfkd3() { norm(alph![201; 0, 1, 2], 1) }
    fn th_nfc3() { norm(alph![201; 0, 1, 2], 2) }
    fn th_nfkc3() { norm(alph![201; 0, 1, 2], 3) }
    fn th_nfd4() { norm(alph![201; 0, 1, 2, 3], 0) }
    fn th_nfkd4() { norm(alph![201; 0, 1, 2, 3], 1) }
    fn th_nfc4() { norm(alph![201; 0, 1, 2, 3], 2) }
    fn th_nfkc4() { norm(alph![201; 0, 1, 2, 3], 3) }
    fn tc_nfd2() { norm(&[char_in(0, 207), char_in(1, 208)], 0) }
    fn tc_nfd3() { norm(&[char_in(0, 207), char_in(1, 205), char_in(2, 208)], 0) }
    fn td_nfd2() { norm(&[char_in(0, 206), char_in(1, 205)], 0) }
    fn t_nfd0() { norm(&[], 0) }
    fn tc_nfkd2() { norm(&[char_in(0, 207), char_in(1, 208)], 1) }
    fn tc_nfkd3() { norm(&[char_in(0, 207), char_in(1, 205), char_in(2, 208)], 1) }
    fn td_nfkd2() { norm(&[char_in(0, 206), char_in(1, 205)], 1) }
    fn t_nfkd0() { norm(&[], 1) }
    fn tc_nfc2() { norm(&[char_in(0, 207), char_in(1, 208)], 2) }
    fn tc_nfc3() { norm(&[char_in(0, 207), char_in(1, 205), char_in(2, 208)], 2) }
    fn td_nfc2() { norm(&[char_in(0, 206), char_in(1, 205)], 2) }
    fn t_nfc0() { norm(&[], 2) }
    fn tc_nfkc2() { norm(&[char_in(0, 207), char_in(1, 208)], 3) }
    fn tc_nfkc3() { norm(&[char_in(0, 207), char_in(1, 205), char_in(2, 208)], 3) }
    fn td_nfkc2() { norm(&[char_in(0, 206), char_in(1, 205)], 3) }
    fn t_nfkc0() { norm(&[], 3) }
    fn t_seg1() { seg(full![0]) }
    fn t_seg2() { seg(full![0, 1]) }
    fn t_seg3() { seg(full![0, 1, 2]) }
    fn t_seg4() { seg(full![0, 1, 2, 3]) }
    fn t_seg5() { seg(full![0, 1, 2, 3, 4]) }
    fn t_seg6() { seg(full![0, 1, 2, 3, 4, 5]) }
    fn t_seg7() { seg(full![0, 1, 2, 3, 4, 5, 6]) }
    fn tg_seg4() { seg(alph![202; 0, 1, 2, 3]) }
    fn tg_seg5() { seg(alph![202; 0, 1, 2, 3, 4]) }
    fn tg_seg6() { seg(alph![202; 0, 1, 2, 3, 4, 5]) }
    fn tg_seg7() { seg(alph![202; 0, 1, 2, 3, 4, 5, 6]) }
    fn tg_seg8() { seg(alph![202; 0, 1, 2, 3, 4, 5, 6, 7]) }
    fn tg_seg9() { seg(alph![202; 0, 1, 2, 3, 4, 5, 6, 7, 8]) }
    fn te_seg5() { seg(alph![210; 0, 1, 2, 3, 4]) }
    fn te_seg6() { seg(alph![210; 0, 1, 2, 3, 4, 5]) }
    fn te_seg7() { seg(alph![210; 0, 1, 2, 3, 4, 5, 6]) }
    fn te_seg8() { seg(alph![210; 0, 1, 2, 3, 4, 5, 6, 7]) }
    fn te_seg9() { seg(alph![210; 0, 1, 2, 3, 4, 5, 6, 7, 8]) }
    fn te_seg10() { seg(alph![210; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]) }
    fn te_seg11() { seg(alph![210; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]) }
    fn t_part0() { partition(&[]) }
    fn t_part1() { partition(full![0]) }
    fn t_part2() { partition(full![0, 1]) }
    fn t_part3() { partition(full![0, 1, 2]) }
    fn t_part4() { partition(full![0, 1, 2, 3]) }
    fn t_part5() { partition(full![0, 1, 2, 3, 4]) }
    fn t_part6() { partition(full![0, 1, 2, 3, 4, 5]) }
    fn te_part5() { partition(alph![210; 0, 1, 2, 3, 4]) }
    fn te_part6() { partition(alph![210; 0, 1, 2, 3, 4, 5]) }
    fn te_part7() { partition(alph![210; 0, 1, 2, 3, 4, 5, 6]) }
    fn te_part8() { partition(alph![210; 0, 1, 2, 3, 4, 5, 6, 7]) }
    fn te_part9() { partition(alph![210; 0, 1, 2, 3, 4, 5, 6, 7, 8]) }
    fn te_part10() { partition(alph![210; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9]) }
    fn te_part11() { partition(alph![210; 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10]) }
    fn l1_nfd_nfd() { laws(full![0], 0) }
    fn la2_nfd_nfd() { laws(alph![200; 0, 1], 0) }
    fn lm3_nfd_nfd() { laws(alph![204; 0, 1, 2], 0) }
    fn l1_nfd_nfkd() { laws(full![0], 1) }
    fn la2_nfd_nfkd() { laws(alph![200; 0, 1], 1) }
    fn lm3_nfd_nfkd() { laws(alph![204; 0, 1, 2], 1) }
    fn l1_nfd_nfc() { laws(full![0], 2) }
    fn la2_nfd_nfc() { laws(alph![200; 0, 1], 2) }
    fn lm3_nfd_nfc() { laws(alph![204; 0, 1, 2], 2) }
    fn l1_nfd_nfkc() { laws(full![0], 3) }
    fn la2_nfd_nfkc() { laws(alph![200; 0, 1], 3) }
    fn lm3_nfd_nfkc() { laws(alph![204; 0, 1, 2], 3) }
    fn l1_nfkd_nfkd() { laws(full![0], 5) }
    fn la2_nfkd_nfkd() { laws(alph![200; 0, 1], 5) }
    fn lm3_nfkd_nfkd() { laws(alph![204; 0, 1, 2], 5) }
    fn l1_nfkd_nfkc() { laws(full![0], 7) }
    fn la2_nfkd_nfkc() { laws(alph![200; 0, 1], 7) }
    fn lm3_nfkd_nfkc() { laws(alph![204; 0, 1, 2], 7) }
    fn l1_nfc_nfd() { laws(full![0], 8) }
    fn la2_nfc_nfd() { laws(alph![200; 0, 1], 8) }
    fn lm3_nfc_nfd() { laws(alph![204; 0, 1, 2], 8) }
    fn l1_nfc_nfkd() { laws(full![0], 9) }
    fn la2_nfc_nfkd() { laws(alph![200; 0, 1], 9) }
    fn lm3_nfc_nfkd() { laws(alph![204; 0, 1, 2], 9) }
    fn l1_nfc_nfc() { laws(full![0], 10) }
    fn la2_nfc_nfc() { laws(alph![200; 0, 1], 10) }
    fn lm3_nfc_nfc() { laws(alph![204; 0, 1, 2], 10) }
    fn l1_nfc_nfkc() { laws(full![0], 11) }
    fn la2_nfc_nfkc() { laws(alph![200; 0, 1], 11) }
    fn lm3_nfc_nfkc() { laws(alph![204; 0, 1, 2], 11) }
    fn l1_nfkc_nfkd() { laws(full![0], 13) }
    fn la2_nfkc_nfkd() { laws(alph![200; 0, 1], 13) }
    fn lm3_nfkc_nfkd() { laws(alph![204; 0, 1, 2], 13) }
    fn l1_nfkc_nfkc() { laws(full![0], 15) }
    fn la2_nfkc_nfkc() { laws(alph![200; 0, 1], 15) }
    fn lm3_nfkc_nfkc() { laws(alph![204; 0, 1, 2], 15) }
    fn o1_nfd() { local(full![0], full![1], 0) }
    fn om_nfd() { local(alph![200; 0], alph![200; 1], 0) }
    fn om_nfkd() { local(alph![200; 0], alph![200; 1], 1) }
    fn om_nfc() { local(alph![200; 0], alph![200; 1], 2) }
    fn om_nfkc() { local(alph![200; 0], alph![200; 1], 3) }
    fn oa2_nfd() { local(alph![200; 0, 1], alph![200; 2], 0) }
    fn o1_nfkd() { local(full![0], full![1], 1) }
    fn oa2_nfkd() { local(alph![200; 0, 1], alph![200; 2], 1) }
    fn o1_nfc() { local(full![0], full![1], 2) }
    fn oa2_nfc() { local(alph![200; 0, 1], alph![200; 2], 2) }
    fn o1_nfkc() { local(full![0], full![1], 3) }
    fn oa2_nfkc() { local(alph![200; 0, 1], alph![200; 2], 3) }
    fn s_ascii1() { ascii(alph![203; 0]) }
    fn s_ascii2() { ascii(alph![203; 0, 1]) }
    fn s_ascii3() { ascii(alph![203; 0, 1, 2]) }
    fn s_ascii4() { ascii(alph![203; 0, 1, 2, 3]) }
    fn s_ascii6() { ascii(alph![203; 0, 1, 2, 3, 4, 5]) }
    fn s_ascii8() { ascii(alph![203; 0, 1, 2, 3, 4, 5, 6, 7]) }
    fn h_round1() { hangul(alph![211; 0]) }
    fn h_round2() { hangul(alph![211; 0, 1]) }
    fn h_round3() { hangul(alph![211; 0, 1, 2]) }
    fn x_huge_nfd() { norm_long(&x_huge(), 0) }
    fn x_huge_nfkd() { norm_long(&x_huge(), 1) }
    fn x_huge_nfc() { norm_long(&x_huge(), 2) }
    fn x_huge_nfkc() { norm_long(&x_huge(), 3) }
    fn x_words_nfd() { norm_long(&x_words(), 0) }
    fn x_words_nfkd() { norm_long(&x_words(), 1) }
    fn x_words_nfc() { norm_long(&x_words(), 2) }
    fn x_words_nfkc() { norm_long(&x_words(), 3) }
    fn x_end_nfd() { norm_long(&x_end(), 0) }
    fn x_end_nfkd() { norm_long(&x_end(), 1) }
    fn x_end_nfc() { norm_long(&x_end(), 2) }
    fn x_end_nfkc() { norm_long(&x_end(), 3) }
    fn x_both_nfd() { norm_long(&x_both(), 0) }
    fn x_both_nfkd() { norm_long(&x_both(), 1) }
    fn x_both_nfc() { norm_long(&x_both(), 2) }
    fn x_both_nfkc() { norm_long(&x_both(), 3) }
    fn x_fall_nfd() { norm_long(&x_fall(), 0) }
    fn x_fall_nfkd() { norm_long(&x_fall(), 1) }
    fn x_fall_nfc() { norm_long(&x_fall(), 2) }
    fn x_fall_nfkc() { norm_long(&x_fall(), 3) }
    fn x_comp_nfd() { norm_long(&x_comp(), 0) }
    fn x_comp_nfkd() { norm_long(&x_comp(), 1) }
    fn x_comp_nfc() { norm_long(&x_comp(), 2) }
    fn x_comp_nfkc() { norm_long(&x_comp(), 3) }
    fn x_comp2_nfd() { norm_long(&x_comp2(), 0) }
    fn x_comp2_nfkd() { norm_long(&x_comp2(), 1) }
    fn x_comp2_nfc() { norm_long(&x_comp2(), 2) }
    fn x_comp2_nfkc() { norm_long(&x_comp2(), 3) }
    fn x_text_nfd() { norm_long(&x_text(), 0) }
    fn x_text_nfkd() { norm_long(&x_text(), 1) }
    fn x_text_nfc() { norm_long(&x_text(), 2) }
    fn x_text_nfkc() { norm_long(&x_text(), 3) }
    fn x_mid_nfd() { norm_long(&x_mid(), 0) }
    fn x_mid_nfkd() { norm_long(&x_mid(), 1) }
    fn x_mid_nfc() { norm_long(&x_mid(), 2) }
    fn x_mid_nfkc() { norm_long(&x_mid(), 3) }
    fn x_hang_nfd() { norm_long(&x_hang(), 0) }
    fn x_hang_nfkd() { norm_long(&x_hang(), 1) }
    fn x_hang_nfc() { norm_long(&x_hang(), 2) }
    fn x_hang_nfkc() { norm_long(&x_hang(), 3) }
    fn x_start_nfd() { norm_long(&x_start(), 0) }
    fn x_start_nfkd() { norm_long(&x_start(), 1) }
    fn x_start_nfc() { norm_long(&x_start(), 2) }
    fn x_start_nfkc() { norm_long(&x_start(), 3) }
    fn g_huge() { seg_long(&y_huge()) }
    fn gp_huge() { part_long(&y_huge()) }
    fn g_words() { seg_long(&y_words()) }
    fn gp_words() { part_long(&y_words()) }
    fn g_ri() { seg_long(&y_ri()) }
    fn gp_ri() { part_long(&y_ri()) }
    fn g_ri2() { seg_long(&y_ri2()) }
    fn gp_ri2() { part_long(&y_ri2()) }
    fn g_conj() { seg_long(&y_conj()) }
    fn gp_conj() { part_long(&y_conj()) }
    fn g_conj2() { seg_long(&y_conj2()) }
    fn gp_conj2() { part_long(&y_conj2()) }
    fn g_zwj() { seg_long(&y_zwj()) }
    fn gp_zwj() { part_long(&y_zwj()) }
    fn g_zwj2() { seg_long(&y_zwj2()) }
    fn gp_zwj2() { part_long(&y_zwj2()) }
    fn g_text() { seg_long(&y_text()) }
    fn gp_text() { part_long(&y_text()) }
    fn g_hang() { seg_long(&y_hang()) }
    fn gp_hang() { part_long(&y_hang()) }
    fn g_prep() { seg_long(&y_prep()) }
    fn gp_prep() { part_long(&y_prep()) }
    fn g_after() { seg_long(&y_after()) }
    fn gp_after() { part_long(&y_after()) }
    fn lx_fall_nfd_nfd() { laws_long(&x_fall(), 0) }
    fn lx_hang_nfd_nfd() { laws_long(&x_hang(), 0) }
    fn lx_text2_nfd_nfd() { laws_long(&x_text2(), 0) }
    fn lx_fall_nfd_nfkd() { laws_long(&x_fall(), 1) }
    fn lx_hang_nfd_nfkd() { laws_long(&x_hang(), 1) }
    fn lx_text2_nfd_nfkd() { laws_long(&x_text2(), 1) }
    fn lx_fall_nfd_nfc() { laws_long(&x_fall(), 2) }
    fn lx_hang_nfd_nfc() { laws_long(&x_hang(), 2) }
    fn lx_text2_nfd_nfc() { laws_long(&x_text2(), 2) }
    fn lx_fall_nfd_nfkc() { laws_long(&x_fall(), 3) }
    fn lx_hang_nfd_nfkc() { laws_long(&x_hang(), 3) }
    fn lx_text2_nfd_nfkc() { laws_long(&x_text2(), 3) }
    fn lx_fall_nfkd_nfkd() { laws_long(&x_fall(), 5) }
    fn lx_hang_nfkd_nfkd() { laws_long(&x_hang(), 5) }
    fn lx_text2_nfkd_nfkd() { laws_long(&x_text2(), 5) }
    fn lx_fall_nfkd_nfkc() { laws_long(&x_fall(), 7) }
    fn lx_hang_nfkd_nfkc() { laws_long(&x_hang(), 7) }
    fn lx_text2_nfkd_nfkc() { laws_long(&x_text2(), 7) }
    fn lx_fall_nfc_nfd() { laws_long(&x_fall(), 8) }
    fn lx_hang_nfc_nfd() { laws_long(&x_hang(), 8) }
    fn lx_text2_nfc_nfd() { laws_long(&x_text2(), 8) }
    fn lx_fall_nfc_nfkd() { laws_long(&x_fall(), 9) }
    fn lx_hang_nfc_nfkd() { laws_long(&x_hang(), 9) }
    fn lx_text2_nfc_nfkd() { laws_long(&x_text2(), 9) }
    fn lx_fall_nfc_nfc() { laws_long(&x_fall(), 10) }
    fn lx_hang_nfc_nfc() { laws_long(&x_hang(), 10) }
    fn lx_text2_nfc_nfc() { laws_long(&x_text2(), 10) }
    fn lx_fall_nfc_nfkc() { laws_long(&x_fall(), 11) }
    fn lx_hang_nfc_nfkc() { laws_long(&x_hang(), 11) }
    fn lx_text2_nfc_nfkc() { laws_long(&x_text2(), 11) }
    fn lx_fall_nfkc_nfkd() { laws_long(&x_fall(), 13) }
    fn lx_hang_nfkc_nfkd() { laws_long(&x_hang(), 13) }
    fn lx_text2_nfkc_nfkd() { laws_long(&x_text2(), 13) }
    fn lx_fall_nfkc_nfkc() { laws_long(&x_fall(), 15) }
    fn lx_hang_nfkc_nfkc() { laws_long(&x_hang(), 15) }
    fn lx_text2_nfkc_nfkc() { laws_long(&x_text2(), 15) }
    fn ox_nfd() { local_long(&x_text2(), &x_fall2(), 0) }
    fn ox2_nfd() { local_long(&x_comp(), &x_start(), 0) }
    fn ox_nfkd() { local_long(&x_text2(), &x_fall2(), 1) }
    fn ox2_nfkd() { local_long(&x_comp(), &x_start(), 1) }
    fn ox_nfc() { local_long(&x_text2(), &x_fall2(), 2) }
    fn ox2_nfc() { local_long(&x_comp(), &x_start(), 2) }
    fn ox_nfkc() { local_long(&x_text2(), &x_fall2(), 3) }
    fn ox2_nfkc() { local_long(&x_comp(), &x_start(), 3) }
    fn sx_words() { ascii_long(&text![rep(&['a', 'Z', ' ', '\r', '\n', '~', '9', '\t'], 16), add(char_in(0, 203)), add(char_in(1, 203))]) }
    fn sx_crlf() { ascii_long(&text![rep(&['\r', '\n'], 16), add(char_in(0, 203)), add(char_in(1, 203)), rep(&['\n', '\r', '\0'], 10), add(char_in(2, 203))]) }
    fn sx_odd() { ascii_long(&text![add(char_in(0, 203)), rep(&['q'], 61), add(char_in(1, 203)), add('\r'), add(char_in(2, 203))]) }
    fn x_comp3_nfd() { norm_long(&x_comp3(), 0) }
    fn x_block_nfd() { norm_long(&x_block(), 0) }
    fn x_many_nfd() { norm_long(&x_many(), 0) }
    fn tk_nfd2() { norm(&[char_in(0, 217), char_in(1, 218)], 0) }
    fn tk_nfd3() { norm(&[char_in(0, 217), char_in(1, 204), char_in(2, 218)], 0) }
    fn tj_nfd2() { norm(&[char_in(0, 215), char_in(1, 216)], 0) }
    fn tj_nfd3() { norm(&[char_in(0, 215), char_in(1, 204), char_in(2, 216)], 0) }
    fn td_nfd3() { norm(&[char_in(0, 206), char_in(1, 205), char_in(2, 204)], 0) }
    fn x_comp3_nfkd() { norm_long(&x_comp3(), 1) }
    fn x_block_nfkd() { norm_long(&x_block(), 1) }
    fn x_many_nfkd() { norm_long(&x_many(), 1) }
    fn tk_nfkd2() { norm(&[char_in(0, 217), char_in(1, 218)], 1) }
    fn tk_nfkd3() { norm(&[char_in(0, 217), char_in(1, 204), char_in(2, 218)], 1) }
    fn tj_nfkd2() { norm(&[char_in(0, 215), char_in(1, 216)], 1) }
    fn tj_nfkd3() { norm(&[char_in(0, 215), char_in(1, 204), char_in(2, 216)], 1) }
    fn td_nfkd3() { norm(&[char_in(0, 206), char_in(1, 205), char_in(2, 204)], 1) }
    fn x_comp3_nfc() { norm_long(&x_comp3(), 2) }
    fn x_block_nfc() { norm_long(&x_block(), 2) }
    fn x_many_nfc() { norm_long(&x_many(), 2) }
    fn tk_nfc2() { norm(&[char_in(0, 217), char_in(1, 218)], 2) }
    fn tk_nfc3() { norm(&[char_in(0, 217), char_in(1, 204), char_in(2, 218)], 2) }
    fn tj_nfc2() { norm(&[char_in(0, 215), char_in(1, 216)], 2) }
    fn tj_nfc3() { norm(&[char_in(0, 215), char_in(1, 204), char_in(2, 216)], 2) }
    fn td_nfc3() { norm(&[char_in(0, 206), char_in(1, 205), char_in(2, 204)], 2) }
    fn x_comp3_nfkc() { norm_long(&x_comp3(), 3) }
    fn x_block_nfkc() { norm_long(&x_block(), 3) }
    fn x_many_nfkc() { norm_long(&x_many(), 3) }
    fn tk_nfkc2() { norm(&[char_in(0, 217), char_in(1, 218)], 3) }
    fn tk_nfkc3() { norm(&[char_in(0, 217), char_in(1, 204), char_in(2, 218)], 3) }
    fn tj_nfkc2() { norm(&[char_in(0, 215), char_in(1, 216)], 3) }
    fn tj_nfkc3() { norm(&[char_in(0, 215), char_in(1, 204), char_in(2, 216)], 3) }
    fn td_nfkc3() { norm(&[char_in(0, 206), char_in(1, 205), char_in(2, 204)], 3) }
    fn lx_block_nfd_nfd() { laws_long(&x_block(), 0) }
    fn lx_comp3_nfd_nfd() { laws_long(&x_comp4(), 0) }
    fn lk2_nfd_nfd() { laws(&[char_in(0, 217), char_in(1, 218)], 0) }
    fn lj2_nfd_nfd() { laws(&[char_in(0, 207), char_in(1, 208)], 0) }
    fn lx_block_nfd_nfkd() { laws_long(&x_block(), 1) }
    fn lx_comp3_nfd_nfkd() { laws_long(&x_comp4(), 1) }
    fn lk2_nfd_nfkd() { laws(&[char_in(0, 217), char_in(1, 218)], 1) }
    fn lj2_nfd_nfkd() { laws(&[char_in(0, 207), char_in(1, 208)], 1) }
    fn lx_block_nfd_nfc() { laws_long(&x_block(), 2) }
    fn lx_comp3_nfd_nfc() { laws_long(&x_comp4(), 2) }
    fn lk2_nfd_nfc() { laws(&[char_in(0, 217), char_in(1, 218)], 2) }
    fn lj2_nfd_nfc() { laws(&[char_in(0, 207), char_in(1, 208)], 2) }
    fn lx_block_nfd_nfkc() { laws_long(&x_block(), 3) }
    fn lx_comp3_nfd_nfkc() { laws_long(&x_comp4(), 3) }
    fn lk2_nfd_nfkc() { laws(&[char_in(0, 217), char_in(1, 218)], 3) }
    fn lj2_nfd_nfkc() { laws(&[char_in(0, 207), char_in(1, 208)], 3) }
    fn lx_block_nfkd_nfkd() { laws_long(&x_block(), 5) }
    fn lx_comp3_nfkd_nfkd() { laws_long(&x_comp4(), 5) }
    fn lk2_nfkd_nfkd() { laws(&[char_in(0, 217), char_in(1, 218)], 5) }
    fn lj2_nfkd_nfkd() { laws(&[char_in(0, 207), char_in(1, 208)], 5) }
    fn lx_block_nfkd_nfkc() { laws_long(&x_block(), 7) }
    fn lx_comp3_nfkd_nfkc() { laws_long(&x_comp4(), 7) }
    fn lk2_nfkd_nfkc() { laws(&[char_in(0, 217), char_in(1, 218)], 7) }
    fn lj2_nfkd_nfkc() { laws(&[char_in(0, 207), char_in(1, 208)], 7) }
    fn lx_block_nfc_nfd() { laws_long(&x_block(), 8) }
    fn lx_comp3_nfc_nfd() { laws_long(&x_comp4(), 8) }
    fn lk2_nfc_nfd() { laws(&[char_in(0, 217), char_in(1, 218)], 8) }
    fn lj2_nfc_nfd() { laws(&[char_in(0, 207), char_in(1, 208)], 8) }
    fn lx_block_nfc_nfkd() { laws_long(&x_block(), 9) }
    fn lx_comp3_nfc_nfkd() { laws_long(&x_comp4(), 9) }
    fn lk2_nfc_nfkd() { laws(&[char_in(0, 217), char_in(1, 218)], 9) }
    fn lj2_nfc_nfkd() { laws(&[char_in(0, 207), char_in(1, 208)], 9) }
    fn lx_block_nfc_nfc() { laws_long(&x_block(), 10) }
    fn lx_comp3_nfc_nfc() { laws_long(&x_comp4(), 10) }
    fn lk2_nfc_nfc() { laws(&[char_in(0, 217), char_in(1, 218)], 10) }
    fn lj2_nfc_nfc() { laws(&[char_in(0, 207), char_in(1, 208)], 10) }
    fn lx_block_nfc_nfkc() { laws_long(&x_block(), 11) }
    fn lx_comp3_nfc_nfkc() { laws_long(&x_comp4(), 11) }
    fn lk2_nfc_nfkc() { laws(&[char_in(0, 217), char_in(1, 218)], 11) }
    fn lj2_nfc_nfkc() { laws(&[char_in(0, 207), char_in(1, 208)], 11) }
    fn lx_block_nfkc_nfkd() { laws_long(&x_block(), 13) }
    fn lx_comp3_nfkc_nfkd() { laws_long(&x_comp4(), 13) }
    fn lk2_nfkc_nfkd() { laws(&[char_in(0, 217), char_in(1, 218)], 13) }
    fn lj2_nfkc_nfkd() { laws(&[char_in(0, 207), char_in(1, 208)], 13) }
    fn lx_block_nfkc_nfkc() { laws_long(&x_block(), 15) }
    fn lx_comp3_nfkc_nfkc() { laws_long(&x_comp4(), 15) }
    fn lk2_nfkc_nfkc() { laws(&[char_in(0, 217), char_in(1, 218)], 15) }
    fn lj2_nfkc_nfkc() { laws(&[char_in(0, 207), char_in(1, 208)], 15) }
    fn ok_nfd() { local(&[char_in(0, 217)], &[char_in(1, 218)], 0) }
    fn oc_nfd() { local(&[any_char(0)], &[char_in(1, 208)], 0) }
    fn od_nfd() { local(&[char_in(0, 207)], &[any_char(1)], 0) }
    fn ok_nfkd() { local(&[char_in(0, 217)], &[char_in(1, 218)], 1) }
    fn oc_nfkd() { local(&[any_char(0)], &[char_in(1, 208)], 1) }
    fn od_nfkd() { local(&[char_in(0, 207)], &[any_char(1)], 1) }
    fn ok_nfc() { local(&[char_in(0, 217)], &[char_in(1, 218)], 2) }
    fn oc_nfc() { local(&[any_char(0)], &[char_in(1, 208)], 2) }
    fn od_nfc() { local(&[char_in(0, 207)], &[any_char(1)], 2) }
    fn ok_nfkc() { local(&[char_in(0, 217)], &[char_in(1, 218)], 3) }
    fn oc_nfkc() { local(&[any_char(0)], &[char_in(1, 208)], 3) }
    fn od_nfkc() { local(&[char_in(0, 207)], &[any_char(1)], 3) }
    fn c_text() {
        let (what, n) = (any_u32(0), any_u32(1) as usize);
        let mut xs = ['a'; 12];
        let mut i = 0;
        while i < n { xs[i] = any_char(2 + i as u32); i += 1; }
        let mut raw = [0u8; 64];
        let m = encode(&xs[..n], &mut raw);
        let s = as_text(&raw[..m]);
        if what < 4 { for c in run_form(s, what).chars() { out(c as u32); } }
        else { for g in s.break_graphemes() { out(g.len() as u32); } }
    }
}
