use crate::gen::*;
use crate::vp::*;
use seshat::unicode::props::*;
use seshat::unicode::*;

macro_rules! on {
    ($x:ident, $p:ident => $e:expr) => {{
        match CodePoint::new($x) { Ok($p) => { $e; cover(1); } Err(_) => check(false, 99) }
        if let Some($p) = char::from_u32($x) { $e; cover(2); }
    }};
}

#[inline(never)]
fn index(i: u32, table: u32) -> u32 { char_in(i, table) as u32 }
#[inline(never)]
fn word(b: &[u8], k: usize) -> u32 {
    let mut w = 0u32;
    let mut j = 0;
    while j < 4 && 4 * k + j < b.len() { w |= (b[4 * k + j] as u32) << (8 * j); j += 1; }
    w
}
#[inline(never)]
fn text_is(s: &str, table: u32, i: u32, id: u32) {
    let b = s.as_bytes();
    check(b.len() as u32 == rf(table, i), id);
    let mut k = 0;
    while 4 * k < b.len() { check(word(b, k) == rf(table + 1 + k as u32, i), id + 1); k += 1; }
}
#[inline(never)]
fn value_is(n: PropertyName, table: u32, i: u32) {
    text_is(n.abbr, table, i, 1);
    text_is(n.full, table + 50, i, 3);
    cover(1);
}
#[inline(never)]
fn mapping_is(s: &str, x: u32) {
    let mut k = 0;
    for c in s.chars() {
        check(c as u32 == rf(101 + k, x), 1);
        k += 1;
    }
    check(k == rf(100, x), 2);
}
/// decimal number x at b[k..], without leading zeros; position after it
#[inline(never)]
fn number(b: &[u8], k: usize, x: u32) -> usize {
    let n = if x < 10 { 1 } else if x < 100 { 2 } else { 3 };
    let mut d = [0u32; 3];
    let mut y = x;
    let mut j = n;
    while j > 0 { j -= 1; d[j] = y % 10; y /= 10; }
    j = 0;
    while j < n { check(k + j < b.len() && b[k + j] as u32 == 48 + d[j], 9); j += 1; }
    k + n
}
macro_rules! outs { ($p:expr) => {{ let p = $p;
    out(gc_id(p.gc()));
    out(bc_id(p.bc()));
    out(age_id(p.age()));
    out(blk_id(p.blk()));
    out(sc_id(p.sc()));
    out(gcb_id(p.gcb()));
    out(wb_id(p.wb()));
    out(hst_id(p.hst()));
    out(insc_id(p.insc()));
    out(dt_id(p.dt()));
    out(incb_id(p.incb()));
    out(p.ccc() as u8 as u32);
    out(p.wspace() as u32);
    out(p.bidi_c() as u32);
    out(p.join_c() as u32);
    out(p.dash() as u32);
    out(p.hyphen() as u32);
    out(p.qmark() as u32);
    out(p.term() as u32);
    out(p.omath() as u32);
    out(p.hex() as u32);
    out(p.ahex() as u32);
    out(p.oalpha() as u32);
    out(p.ideo() as u32);
    out(p.dia() as u32);
    out(p.ext() as u32);
    out(p.olower() as u32);
    out(p.oupper() as u32);
    out(p.nchar() as u32);
    out(p.ogr_ext() as u32);
    out(p.idsb() as u32);
    out(p.idst() as u32);
    out(p.radical() as u32);
    out(p.uideo() as u32);
    out(p.odi() as u32);
    out(p.dep() as u32);
    out(p.sd() as u32);
    out(p.loe() as u32);
    out(p.oids() as u32);
    out(p.oidc() as u32);
    out(p.sterm() as u32);
    out(p.vs() as u32);
    out(p.pat_ws() as u32);
    out(p.pat_syn() as u32);
    out(p.pcm() as u32);
    out(p.ri() as u32);
    out(p.emoji() as u32);
    out(p.epres() as u32);
    out(p.emod() as u32);
    out(p.ebase() as u32);
    out(p.ecomp() as u32);
    out(p.ext_pict() as u32);
    out(p.math() as u32);
    out(p.alpha() as u32);
    out(p.lower() as u32);
    out(p.upper() as u32);
    out(p.cased() as u32);
    out(p.ci() as u32);
    out(p.di() as u32);
    out(p.gr_ext() as u32);
    out(p.ids() as u32);
    out(p.idc() as u32);
    out(p.xids() as u32);
    out(p.xidc() as u32);
    out(p.ce() as u32);
    out(p.comp_ex() as u32);
    for c in p.dm().chars() { out(c as u32); }
}}; }
harnesses! {
    fn p_gc() { let x = any_cp(0); on!(x, p => check(gc_id(p.gc()) == rf(0, x), 1)) }
    fn p_ccc() { let x = any_cp(0); on!(x, p => check(p.ccc() as u8 as u32 == rf(1, x), 1)) }
    fn p_bc() { let x = any_cp(0); on!(x, p => check(bc_id(p.bc()) == rf(2, x), 1)) }
    fn p_age() { let x = any_cp(0); on!(x, p => check(age_id(p.age()) == rf(3, x), 1)) }
    fn p_blk() { let x = any_cp(0); on!(x, p => check(blk_id(p.blk()) == rf(4, x), 1)) }
    fn p_sc() { let x = any_cp(0); on!(x, p => check(sc_id(p.sc()) == rf(5, x), 1)) }
    fn p_gcb() { let x = any_cp(0); on!(x, p => check(gcb_id(p.gcb()) == rf(6, x), 1)) }
    fn p_wb() { let x = any_cp(0); on!(x, p => check(wb_id(p.wb()) == rf(7, x), 1)) }
    fn p_hst() { let x = any_cp(0); on!(x, p => check(hst_id(p.hst()) == rf(8, x), 1)) }
    fn p_insc() { let x = any_cp(0); on!(x, p => check(insc_id(p.insc()) == rf(9, x), 1)) }
    fn p_dt() { let x = any_cp(0); on!(x, p => check(dt_id(p.dt()) == rf(10, x), 1)) }
    fn p_incb() { let x = any_cp(0); on!(x, p => check(incb_id(p.incb()) == rf(11, x), 1)) }
    // binary properties
    fn b_wspace() { let x = any_cp(0); on!(x, p => check(p.wspace() as u32 == rf(20, x), 1)) }
    fn b_bidi_c() { let x = any_cp(0); on!(x, p => check(p.bidi_c() as u32 == rf(21, x), 1)) }
    fn b_join_c() { let x = any_cp(0); on!(x, p => check(p.join_c() as u32 == rf(22, x), 1)) }
    fn b_dash() { let x = any_cp(0); on!(x, p => check(p.dash() as u32 == rf(23, x), 1)) }
    fn b_hyphen() { let x = any_cp(0); on!(x, p => check(p.hyphen() as u32 == rf(24, x), 1)) }
    fn b_qmark() { let x = any_cp(0); on!(x, p => check(p.qmark() as u32 == rf(25, x), 1)) }
    fn b_term() { let x = any_cp(0); on!(x, p => check(p.term() as u32 == rf(26, x), 1)) }
    fn b_omath() { let x = any_cp(0); on!(x, p => check(p.omath() as u32 == rf(27, x), 1)) }
    fn b_hex() { let x = any_cp(0); on!(x, p => check(p.hex() as u32 == rf(28, x), 1)) }
    fn b_ahex() { let x = any_cp(0); on!(x, p => check(p.ahex() as u32 == rf(29, x), 1)) }
    fn b_oalpha() { let x = any_cp(0); on!(x, p => check(p.oalpha() as u32 == rf(30, x), 1)) }
    fn b_ideo() { let x = any_cp(0); on!(x, p => check(p.ideo() as u32 == rf(31, x), 1)) }
    fn b_dia() { let x = any_cp(0); on!(x, p => check(p.dia() as u32 == rf(32, x), 1)) }
    fn b_ext() { let x = any_cp(0); on!(x, p => check(p.ext() as u32 == rf(33, x), 1)) }
    fn b_olower() { let x = any_cp(0); on!(x, p => check(p.olower() as u32 == rf(34, x), 1)) }
    fn b_oupper() { let x = any_cp(0); on!(x, p => check(p.oupper() as u32 == rf(35, x), 1)) }
    fn b_nchar() { let x = any_cp(0); on!(x, p => check(p.nchar() as u32 == rf(36, x), 1)) }
    fn b_ogr_ext() { let x = any_cp(0); on!(x, p => check(p.ogr_ext() as u32 == rf(37, x), 1)) }
    fn b_idsb() { let x = any_cp(0); on!(x, p => check(p.idsb() as u32 == rf(38, x), 1)) }
    fn b_idst() { let x = any_cp(0); on!(x, p => check(p.idst() as u32 == rf(39, x), 1)) }
    fn b_radical() { let x = any_cp(0); on!(x, p => check(p.radical() as u32 == rf(40, x), 1)) }
    fn b_uideo() { let x = any_cp(0); on!(x, p => check(p.uideo() as u32 == rf(41, x), 1)) }
    fn b_odi() { let x = any_cp(0); on!(x, p => check(p.odi() as u32 == rf(42, x), 1)) }
    fn b_dep() { let x = any_cp(0); on!(x, p => check(p.dep() as u32 == rf(43, x), 1)) }
    fn b_sd() { let x = any_cp(0); on!(x, p => check(p.sd() as u32 == rf(44, x), 1)) }
    fn b_loe() { let x = any_cp(0); on!(x, p => check(p.loe() as u32 == rf(45, x), 1)) }
    fn b_oids() { let x = any_cp(0); on!(x, p => check(p.oids() as u32 == rf(46, x), 1)) }
    fn b_oidc() { let x = any_cp(0); on!(x, p => check(p.oidc() as u32 == rf(47, x), 1)) }
    fn b_sterm() { let x = any_cp(0); on!(x, p => check(p.sterm() as u32 == rf(48, x), 1)) }
    fn b_vs() { let x = any_cp(0); on!(x, p => check(p.vs() as u32 == rf(49, x), 1)) }
    fn b_pat_ws() { let x = any_cp(0); on!(x, p => check(p.pat_ws() as u32 == rf(50, x), 1)) }
    fn b_pat_syn() { let x = any_cp(0); on!(x, p => check(p.pat_syn() as u32 == rf(51, x), 1)) }
    fn b_pcm() { let x = any_cp(0); on!(x, p => check(p.pcm() as u32 == rf(52, x), 1)) }
    fn b_ri() { let x = any_cp(0); on!(x, p => check(p.ri() as u32 == rf(53, x), 1)) }
    fn b_emoji() { let x = any_cp(0); on!(x, p => check(p.emoji() as u32 == rf(60, x), 1)) }
    fn b_epres() { let x = any_cp(0); on!(x, p => check(p.epres() as u32 == rf(61, x), 1)) }
    fn b_emod() { let x = any_cp(0); on!(x, p => check(p.emod() as u32 == rf(62, x), 1)) }
    fn b_ebase() { let x = any_cp(0); on!(x, p => check(p.ebase() as u32 == rf(63, x), 1)) }
    fn b_ecomp() { let x = any_cp(0); on!(x, p => check(p.ecomp() as u32 == rf(64, x), 1)) }
    fn b_ext_pict() { let x = any_cp(0); on!(x, p => check(p.ext_pict() as u32 == rf(65, x), 1)) }
    fn b_math() { let x = any_cp(0); on!(x, p => check(p.math() as u32 == rf(70, x), 1)) }
    fn b_alpha() { let x = any_cp(0); on!(x, p => check(p.alpha() as u32 == rf(71, x), 1)) }
    fn b_lower() { let x = any_cp(0); on!(x, p => check(p.lower() as u32 == rf(72, x), 1)) }
    fn b_upper() { let x = any_cp(0); on!(x, p => check(p.upper() as u32 == rf(73, x), 1)) }
    fn b_cased() { let x = any_cp(0); on!(x, p => check(p.cased() as u32 == rf(74, x), 1)) }
    fn b_ci() { let x = any_cp(0); on!(x, p => check(p.ci() as u32 == rf(75, x), 1)) }
    fn b_di() { let x = any_cp(0); on!(x, p => check(p.di() as u32 == rf(76, x), 1)) }
    fn b_gr_ext() { let x = any_cp(0); on!(x, p => check(p.gr_ext() as u32 == rf(77, x), 1)) }
    fn b_ids() { let x = any_cp(0); on!(x, p => check(p.ids() as u32 == rf(78, x), 1)) }
    fn b_idc() { let x = any_cp(0); on!(x, p => check(p.idc() as u32 == rf(79, x), 1)) }
    fn b_xids() { let x = any_cp(0); on!(x, p => check(p.xids() as u32 == rf(80, x), 1)) }
    fn b_xidc() { let x = any_cp(0); on!(x, p => check(p.xidc() as u32 == rf(81, x), 1)) }
    fn b_ce() { let x = any_cp(0); on!(x, p => check(p.ce() as u32 == rf(90, x), 1)) }
    fn b_comp_ex() { let x = any_cp(0); on!(x, p => check(p.comp_ex() as u32 == rf(91, x), 1)) }
    // decomposition mapping, as a string
    fn p_dm() { let x = any_cp(0); on!(x, p => mapping_is(&p.dm(), x)) }
    // names of property values
    fn v_gc() { let i = index(0, 2000); value_is(GC_ALL[i as usize].property_value_name(), 2000, i) }
    fn v_bc() { let i = index(0, 2100); value_is(BC_ALL[i as usize].property_value_name(), 2100, i) }
    fn v_age() { let i = index(0, 2200); value_is(AGE_ALL[i as usize].property_value_name(), 2200, i) }
    fn v_blk() { let i = index(0, 2300); value_is(BLK_ALL[i as usize].property_value_name(), 2300, i) }
    fn v_sc() { let i = index(0, 2400); value_is(SC_ALL[i as usize].property_value_name(), 2400, i) }
    fn v_gcb() { let i = index(0, 2500); value_is(GCB_ALL[i as usize].property_value_name(), 2500, i) }
    fn v_wb() { let i = index(0, 2600); value_is(WB_ALL[i as usize].property_value_name(), 2600, i) }
    fn v_hst() { let i = index(0, 2700); value_is(HST_ALL[i as usize].property_value_name(), 2700, i) }
    fn v_insc() { let i = index(0, 2800); value_is(INSC_ALL[i as usize].property_value_name(), 2800, i) }
    fn v_dt() { let i = index(0, 2900); value_is(DT_ALL[i as usize].property_value_name(), 2900, i) }
    fn v_incb() { let i = index(0, 3000); value_is(INCB_ALL[i as usize].property_value_name(), 3000, i) }
    fn v_ccc() { let i = index(0, 3100); value_is(CCC_ALL[i as usize].property_value_name(), 3100, i) }
    fn v_binary() {
        let x = any_u32(0);
        assume(x < 2);
        let n = BinaryProperty::from(x == 1).property_value_name();
        if x == 1 { check(n.full == "Yes" && n.abbr == "Y", 1) } else { check(n.full == "No" && n.abbr == "N", 2) }
        cover(1);
    }
    // the code point type itself
    fn a_new() {
        let x = any_u32(0);
        match CodePoint::new(x) {
            Ok(p) => { check(x <= 0x10FFFF, 1); check(p.to_u32() == x, 2); let q = p; check(q.to_u32() == x && p.to_u32() == x, 3); cover(1); }
            Err(e) => { check(x > 0x10FFFF, 4); check(e.len() > 0, 5); cover(2); }
        }
    }
    fn a_char() {
        let c = any_char(0);
        check(c.to_code_point().to_u32() == c as u32, 1);
        cover(1);
    }
    fn a_display() {
        let x = any_cp(0);
        if let Ok(p) = CodePoint::new(x) {
            let s = p.to_string();
            let b = s.as_bytes();
            let n = if x > 0xFFFFF { 6 } else if x > 0xFFFF { 5 } else { 4 };
            check(b.len() == n + 2, 1);
            check(b[0] == b'U' && b[1] == b'+', 2);
            let mut k = 0;
            while k < n {
                let d = (x >> (4 * (n - 1 - k) as u32)) & 15;
                check(b[2 + k] as u32 == d + if d < 10 { 48 } else { 55 }, 3);
                k += 1;
            }
            cover(1);
        } else { check(false, 99) }
    }
    fn a_version() {
        check(UNICODE_VERSION.major == 15 && UNICODE_VERSION.minor == 1 && UNICODE_VERSION.update == 0, 1);
        let (a, b, c) = (any_u32(0), any_u32(1), any_u32(2));
        assume(a < 1000 && b < 1000 && c < 1000);
        let s = UnicodeVersion { major: a, minor: b, update: c }.to_string();
        let b1 = s.as_bytes();
        let mut k = number(b1, 0, a);
        check(k < b1.len() && b1[k] == b'.', 2);
        k = number(b1, k + 1, b);
        check(k < b1.len() && b1[k] == b'.', 3);
        k = number(b1, k + 1, c);
        check(k == b1.len(), 4);
        cover(1);
    }
    // traces for the encoder's validation
    fn c_props() {
        let x = any_cp(0);
        if let Ok(p) = CodePoint::new(x) { outs!(p); for c in p.to_string().chars() { out(c as u32); } }
    }
    fn c_chars() { let c = any_char(0); outs!(c); }
    fn c_value() {
        let (k, i) = (any_u32(0), any_u32(1) as usize);
        let n = match k {
            0 => GC_ALL[i].property_value_name(),
            1 => BC_ALL[i].property_value_name(),
            2 => AGE_ALL[i].property_value_name(),
            3 => BLK_ALL[i].property_value_name(),
            4 => SC_ALL[i].property_value_name(),
            5 => GCB_ALL[i].property_value_name(),
            6 => WB_ALL[i].property_value_name(),
            7 => HST_ALL[i].property_value_name(),
            8 => INSC_ALL[i].property_value_name(),
            9 => DT_ALL[i].property_value_name(),
            10 => INCB_ALL[i].property_value_name(),
            _ => CCC_ALL[i].property_value_name(),
        };
        for b in n.abbr.bytes() { out(b as u32); }
        for b in n.full.bytes() { out(b as u32); }
    }
}
