//! Properties stated without reference data: laws between properties, the
//! agreement of the two implementations, the two-stage table.
use crate::vp::*;
use seshat::collections::TwoStageTable;
use seshat::unicode::props::*;
use seshat::unicode::*;

macro_rules! both {
    ($p:ident, $q:ident => $e:expr) => {{
        let c = any_char(0);
        match CodePoint::new(c as u32) { Ok($q) => { let $p = c; $e; cover(1); } Err(_) => check(false, 99) }
    }};
}
/// for any code point, through the code point type
macro_rules! law {
    ($p:ident => $e:expr) => {{ let x = any_cp(0); match CodePoint::new(x) { Ok($p) => { check($e, 1); cover(1); } Err(_) => check(false, 99) } }};
}
#[inline(never)]
fn same_text(a: &str, b: &str) {
    let (x, y) = (a.as_bytes(), b.as_bytes());
    check(x.len() == y.len(), 2);
    let mut k = 0;
    while k < x.len() && k < y.len() { check(x[k] == y[k], 3); k += 1; }
}
const BLOCKS: usize = 16;
static BIG: [[u32; 256]; BLOCKS] = {
    let mut t = [[0u32; 256]; BLOCKS];
    let mut b = 0;
    while b < BLOCKS { let mut o = 0; while o < 256 { t[b][o] = (b * 1000 + o) as u32; o += 1; } b += 1; }
    t
};
static BIG2: [&[u32]; BLOCKS] = [&BIG[0], &BIG[1], &BIG[2], &BIG[3], &BIG[4], &BIG[5], &BIG[6], &BIG[7], &BIG[8], &BIG[9], &BIG[10], &BIG[11], &BIG[12], &BIG[13], &BIG[14], &BIG[15]];
macro_rules! stage1 { ($n:ident, $t:ty, $len:expr) => { static $n: [$t; $len] = { let mut t = [0; $len]; let mut i = 0; while i < $len { t[i] = ((i * 7 + i / 16) % BLOCKS) as $t; i += 1; } t }; }; }
stage1!(S_U8, u8, 0x1100);
stage1!(S_U16, u16, 0x1100);
stage1!(S_USIZE, usize, 0x1100);
stage1!(S_128, u32, 0x2200);
#[inline(never)]
fn wide(v: u32, x: u32, s: u32) {
    let k = x >> s;
    check(v == ((k * 7 + k / 16) % 16) * 1000 + (x & ((1 << s) - 1)), 1);
    cover(1);
}
/// arbitrary contents: stage one picks one of three blocks of b cells each
fn small(b: u32) {
    let pick = [char_in(1, 212) as u32 as u8, char_in(2, 212) as u32 as u8, char_in(3, 212) as u32 as u8];
    let cells: [u32; 12] = [any_u32(4), any_u32(5), any_u32(6), any_u32(7), any_u32(8), any_u32(9), any_u32(10), any_u32(11), any_u32(12), any_u32(13), any_u32(14), any_u32(15)];
    let n = b as usize;
    let two: [&[u32]; 3] = [&cells[0..n], &cells[n..2 * n], &cells[2 * n..3 * n]];
    let cp = char_in(0, 213) as u32;
    assume(cp < 3 * b);
    let t = TwoStageTable::new(&pick, &two, n);
    let mut k = 0;
    let mut r = cp;
    while r >= b { r -= b; k += 1; }
    check(t.at(cp) == cells[pick[k] as usize * n + r as usize], 1);
    cover(1);
}
harnesses! {
    fn e_wspace() { both!(c, q => check(c.wspace() == q.wspace(), 1)) }
    fn e_bidi_c() { both!(c, q => check(c.bidi_c() == q.bidi_c(), 1)) }
    fn e_join_c() { both!(c, q => check(c.join_c() == q.join_c(), 1)) }
    fn e_dash() { both!(c, q => check(c.dash() == q.dash(), 1)) }
    fn e_hyphen() { both!(c, q => check(c.hyphen() == q.hyphen(), 1)) }
    fn e_qmark() { both!(c, q => check(c.qmark() == q.qmark(), 1)) }
    fn e_term() { both!(c, q => check(c.term() == q.term(), 1)) }
    fn e_omath() { both!(c, q => check(c.omath() == q.omath(), 1)) }
    fn e_hex() { both!(c, q => check(c.hex() == q.hex(), 1)) }
    fn e_ahex() { both!(c, q => check(c.ahex() == q.ahex(), 1)) }
    fn e_oalpha() { both!(c, q => check(c.oalpha() == q.oalpha(), 1)) }
    fn e_ideo() { both!(c, q => check(c.ideo() == q.ideo(), 1)) }
    fn e_dia() { both!(c, q => check(c.dia() == q.dia(), 1)) }
    fn e_ext() { both!(c, q => check(c.ext() == q.ext(), 1)) }
    fn e_olower() { both!(c, q => check(c.olower() == q.olower(), 1)) }
    fn e_oupper() { both!(c, q => check(c.oupper() == q.oupper(), 1)) }
    fn e_nchar() { both!(c, q => check(c.nchar() == q.nchar(), 1)) }
    fn e_ogr_ext() { both!(c, q => check(c.ogr_ext() == q.ogr_ext(), 1)) }
    fn e_idsb() { both!(c, q => check(c.idsb() == q.idsb(), 1)) }
    fn e_idst() { both!(c, q => check(c.idst() == q.idst(), 1)) }
    fn e_radical() { both!(c, q => check(c.radical() == q.radical(), 1)) }
    fn e_uideo() { both!(c, q => check(c.uideo() == q.uideo(), 1)) }
    fn e_odi() { both!(c, q => check(c.odi() == q.odi(), 1)) }
    fn e_dep() { both!(c, q => check(c.dep() == q.dep(), 1)) }
    fn e_sd() { both!(c, q => check(c.sd() == q.sd(), 1)) }
    fn e_loe() { both!(c, q => check(c.loe() == q.loe(), 1)) }
    fn e_oids() { both!(c, q => check(c.oids() == q.oids(), 1)) }
    fn e_oidc() { both!(c, q => check(c.oidc() == q.oidc(), 1)) }
    fn e_sterm() { both!(c, q => check(c.sterm() == q.sterm(), 1)) }
    fn e_vs() { both!(c, q => check(c.vs() == q.vs(), 1)) }
    fn e_pat_ws() { both!(c, q => check(c.pat_ws() == q.pat_ws(), 1)) }
    fn e_pat_syn() { both!(c, q => check(c.pat_syn() == q.pat_syn(), 1)) }
    fn e_pcm() { both!(c, q => check(c.pcm() == q.pcm(), 1)) }
    fn e_ri() { both!(c, q => check(c.ri() == q.ri(), 1)) }
    fn e_emoji() { both!(c, q => check(c.emoji() == q.emoji(), 1)) }
    fn e_epres() { both!(c, q => check(c.epres() == q.epres(), 1)) }
    fn e_emod() { both!(c, q => check(c.emod() == q.emod(), 1)) }
    fn e_ebase() { both!(c, q => check(c.ebase() == q.ebase(), 1)) }
    fn e_ecomp() { both!(c, q => check(c.ecomp() == q.ecomp(), 1)) }
    fn e_ext_pict() { both!(c, q => check(c.ext_pict() == q.ext_pict(), 1)) }
    fn e_math() { both!(c, q => check(c.math() == q.math(), 1)) }
    fn e_alpha() { both!(c, q => check(c.alpha() == q.alpha(), 1)) }
    fn e_lower() { both!(c, q => check(c.lower() == q.lower(), 1)) }
    fn e_upper() { both!(c, q => check(c.upper() == q.upper(), 1)) }
    fn e_cased() { both!(c, q => check(c.cased() == q.cased(), 1)) }
    fn e_ci() { both!(c, q => check(c.ci() == q.ci(), 1)) }
    fn e_di() { both!(c, q => check(c.di() == q.di(), 1)) }
    fn e_gr_ext() { both!(c, q => check(c.gr_ext() == q.gr_ext(), 1)) }
    fn e_ids() { both!(c, q => check(c.ids() == q.ids(), 1)) }
    fn e_idc() { both!(c, q => check(c.idc() == q.idc(), 1)) }
    fn e_xids() { both!(c, q => check(c.xids() == q.xids(), 1)) }
    fn e_xidc() { both!(c, q => check(c.xidc() == q.xidc(), 1)) }
    fn e_ce() { both!(c, q => check(c.ce() == q.ce(), 1)) }
    fn e_comp_ex() { both!(c, q => check(c.comp_ex() == q.comp_ex(), 1)) }
    fn e_gc() { both!(c, q => check(c.gc() == q.gc(), 1)) }
    fn e_bc() { both!(c, q => check(c.bc() == q.bc(), 1)) }
    fn e_age() { both!(c, q => check(c.age() == q.age(), 1)) }
    fn e_blk() { both!(c, q => check(c.blk() == q.blk(), 1)) }
    fn e_sc() { both!(c, q => check(c.sc() == q.sc(), 1)) }
    fn e_gcb() { both!(c, q => check(c.gcb() == q.gcb(), 1)) }
    fn e_wb() { both!(c, q => check(c.wb() == q.wb(), 1)) }
    fn e_hst() { both!(c, q => check(c.hst() == q.hst(), 1)) }
    fn e_insc() { both!(c, q => check(c.insc() == q.insc(), 1)) }
    fn e_dt() { both!(c, q => check(c.dt() == q.dt(), 1)) }
    fn e_incb() { both!(c, q => check(c.incb() == q.incb(), 1)) }
    fn e_ccc() { both!(c, q => check(c.ccc() == q.ccc(), 1)) }
    fn e_dm() { both!(c, q => same_text(&c.dm(), &q.dm())) }
    fn r_alpha() { law!(q => q.alpha() == (matches!(q.gc(), Gc::Lu | Gc::Ll | Gc::Lt | Gc::Lm | Gc::Lo | Gc::Nl) || q.oalpha())) }
    fn r_lower() { law!(q => q.lower() == (q.gc() == Gc::Ll || q.olower())) }
    fn r_upper() { law!(q => q.upper() == (q.gc() == Gc::Lu || q.oupper())) }
    fn r_cased() { law!(q => q.cased() == (q.lower() || q.upper() || q.gc() == Gc::Lt)) }
    fn r_math() { law!(q => q.math() == (q.gc() == Gc::Sm || q.omath())) }
    fn r_gr_ext() { law!(q => q.gr_ext() == (matches!(q.gc(), Gc::Me | Gc::Mn) || q.ogr_ext())) }
    fn r_ids() { law!(q => q.ids() == ((matches!(q.gc(), Gc::Lu | Gc::Ll | Gc::Lt | Gc::Lm | Gc::Lo | Gc::Nl) || q.oids()) && !q.pat_syn() && !q.pat_ws())) }
    fn r_idc() { law!(q => q.idc() == ((q.ids() || matches!(q.gc(), Gc::Mn | Gc::Mc | Gc::Nd | Gc::Pc) || q.oidc()) && !q.pat_syn() && !q.pat_ws())) }
    fn r_xids() { law!(q => !q.xids() || q.ids()) }
    fn r_xidc() { law!(q => (!q.xidc() || q.idc()) && (!q.xids() || q.xidc())) }
    fn r_ci() { law!(q => q.ci() == (matches!(q.gc(), Gc::Mn | Gc::Me | Gc::Cf | Gc::Lm | Gc::Sk) || matches!(q.wb(), Wb::ML | Wb::MB | Wb::SQ))) }
    fn r_di() { law!(q => q.di() == ((q.odi() || q.gc() == Gc::Cf || q.vs()) && !q.wspace() && !q.pcm() && !(0xFFF9..=0xFFFB).contains(&q.to_u32()) && !(0x13430..=0x1343F).contains(&q.to_u32())) || (q.gc() == Gc::Cn && q.odi())) }
    fn r_cn() { law!(q => (q.gc() == Gc::Cn) == (q.age() == Age::NA || q.nchar())) }
    fn r_cs() { law!(q => (q.gc() == Gc::Cs) == (0xD800..=0xDFFF).contains(&q.to_u32())) }
    fn r_ccc() { law!(q => (q.ccc() as u8 == 0) || matches!(q.gc(), Gc::Mn | Gc::Mc)) }
    fn r_hst() { law!(q => (q.hst() == Hst::LV) == (q.gcb() == Gcb::LV) && (q.hst() == Hst::LVT) == (q.gcb() == Gcb::LVT) && (q.hst() == Hst::L) == (q.gcb() == Gcb::L) && (q.hst() == Hst::V) == (q.gcb() == Gcb::V) && (q.hst() == Hst::T) == (q.gcb() == Gcb::T)) }
    fn r_ri() { law!(q => q.ri() == (q.gcb() == Gcb::RI) && q.ri() == (q.wb() == Wb::RI)) }
    fn r_gcbex() { law!(q => (q.gcb() == Gcb::EX) == (q.gr_ext() || q.emod()) && (q.gcb() == Gcb::ZWJ) == (q.to_u32() == 0x200D)) }
    fn r_incb() { law!(q => (q.incb() != Incb::Linker && q.incb() != Incb::Extend) || q.gcb() == Gcb::EX || q.gcb() == Gcb::ZWJ) }
    fn r_dt() { law!(q => (q.dt() == Dt::None) == (q.dm().len() == 0)) }
    fn r_ce() { law!(q => !q.ce() || (q.comp_ex() && q.dt() == Dt::Can)) }
    fn r_compex() { law!(q => !q.comp_ex() || q.dt() == Dt::Can) }
    fn r_hex() { law!(q => !q.ahex() || q.hex()) }
    fn r_uideo() { law!(q => !q.uideo() || q.ideo()) }
    fn r_joinc() { law!(q => !q.join_c() || q.gc() == Gc::Cf) }
    fn r_emoji() { law!(q => (!q.epres() || q.emoji()) && (!q.emod() || q.emoji()) && (!q.ebase() || q.emoji())) }
    fn r_patws() { law!(q => !q.pat_ws() || !q.pat_syn()) }
    fn w_small1() { small(1) }
    fn w_small2() { small(2) }
    fn w_small3() { small(3) }
    fn w_small4() { small(4) }
    fn w_u8() { let x = any_cp(0); wide(TwoStageTable::new(&S_U8, &BIG2, 256).at(x), x, 8) }
    fn w_u16() { let x = any_cp(0); wide(TwoStageTable::new(&S_U16, &BIG2, 256).at(x), x, 8) }
    fn w_usize() { let x = any_cp(0); wide(TwoStageTable::new(&S_USIZE, &BIG2, 256).at(x), x, 8) }
    fn w_128() { let x = any_cp(0); wide(TwoStageTable::new(&S_128, &BIG2, 128).at(x), x, 7) }
    fn wq_u8() { let x = char_in(0, 214) as u32; wide(TwoStageTable::new(&S_U8, &BIG2, 256).at(x), x, 8) }
    fn wq_u16() { let x = char_in(0, 214) as u32; wide(TwoStageTable::new(&S_U16, &BIG2, 256).at(x), x, 8) }
    fn wq_usize() { let x = char_in(0, 214) as u32; wide(TwoStageTable::new(&S_USIZE, &BIG2, 256).at(x), x, 8) }
    fn wq_128() { let x = char_in(0, 214) as u32; wide(TwoStageTable::new(&S_128, &BIG2, 128).at(x), x, 7) }
    fn c_table() {
        let x = any_cp(0);
        out(TwoStageTable::new(&S_U8, &BIG2, 256).at(x));
        out(TwoStageTable::new(&S_U16, &BIG2, 256).at(x));
        out(TwoStageTable::new(&S_USIZE, &BIG2, 256).at(x));
        out(TwoStageTable::new(&S_128, &BIG2, 128).at(x));
    }
}
