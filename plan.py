"""What each check runs: jobs are HARNESS[:PARTS[:INPUT]] (the domain of INPUT
is cut into PARTS pieces explored in parallel), per harness module."""
PL = "wspace bidi_c join_c dash hyphen qmark term omath hex ahex oalpha ideo dia ext olower oupper nchar ogr_ext idsb idst radical uideo odi dep sd loe oids oidc sterm vs pat_ws pat_syn pcm ri".split()
EM = "emoji epres emod ebase ecomp ext_pict".split()
DC = "math alpha lower upper cased ci di gr_ext ids idc xids xidc".split()
ENUM = "gc ccc bc age blk sc gcb wb hst insc dt incb".split()
FORMS = "nfd nfkd nfc nfkc".split()
PAIRS = "nfd_nfd nfd_nfkd nfd_nfc nfd_nfkc nfkd_nfkd nfkd_nfkc nfc_nfd nfc_nfkd nfc_nfc nfc_nfkc nfkc_nfkd nfkc_nfkc".split()
EVERY = 'every code point 0..10FFFF through the code point type and every scalar value through char (no bound on the input; loops run to their ends)'

def props(names, bounds=EVERY, **k):
    return dict(quick=[('props', n) for n in names], traces=[('props', 'c_props'), ('props', 'c_chars')], bounds=bounds, **k)
def text(quick, thorough, bounds, what, seconds=None, **k):
    return dict(quick=[('text', n) for n in quick], thorough=[('text', n) for n in thorough], traces=[('text', 'c_text')], bounds=bounds, what=what, **k)

LONGS = 'ri ri2 conj conj2 zwj zwj2 text hang prep after huge words'.split()
ALPH = {
    'full': 'all 1,112,064 scalar values', 'mix': '~90 characters that interact (one of each kind the algorithms distinguish)', 'marks': 'ten bases and combining marks of different classes',
    'hangul': 'all Jamo blocks and all 11,172 syllables', 'conj': 'eleven characters covering conjuncts, emoji, prepend, marks, flags',
}
LONGB = 'fixed text with symbolic characters in it (every scalar value at each, unless said otherwise): '
def norm(f, i):
    c = f in ('nfc', 'nfkc')
    q = ['t_%s0' % f, 't_%s1' % f, 'td_%s2' % f, 'ta_%s2' % f, 'tm_%s3' % f, 'tm_%s4' % f, 'th_%s2' % f, 'ta_%s3' % f]
    if not c: q.insert(2, 't_%s2' % f)
    else: q += ['tc_%s2' % f, 'tc_%s3' % f, 'tk_%s2' % f]
    q += ['x_%s_%s' % (k, f) for k in ('comp', 'comp2', 'comp3', 'block', 'many', 'text', 'mid', 'start', 'words')]
    th = ['th_%s3' % f, 'td_%s3' % f, 'tk_%s2' % f, 'tk_%s3' % f, 'tm_%s5' % f, 'tm_%s6' % f, 'ta_%s4' % f]
    b = ('strings of length 0 and 1 over ' + ALPH['full'] + ('' if c else '; length 2 over all pairs of scalar values') + '; length 2: every canonically decomposable character followed by every non-starter'
        + ('; every first with every second character of a primary composite, also with any non-starter between; every character whose (compatibility) decomposition ends so that it can compose with every one that begins so (about 4000 by 1000)' if c else '') + '; lengths 2 and 3 over ' + ALPH['mix'] + '; lengths 3 and 4 over ' + ALPH['marks'] + '; length 2 over ' + ALPH['hangul']
        + ' (thorough: a third mark after the decomposable-and-non-starter pairs, one of the marks between the composing pairs, length 4 of the mix, 5 and 6 marks, 3 hangul). Long strings: ' + LONGB
        + 'after the first half of any composite and 20 or 120 blocking marks, or 24 marks that never compose, one of the marks; inside and after 260 marks;  in the middle of 24 characters of composing text; after 30 characters of text (two of the mix); after 98 characters of words (one of the mix and a mark); after 40 starters. Other long strings are outside.')
    return text(q, th, b, [i], cross=['tm_%s4' % f, 't_%s1' % f])

PLAN = {
    'C01': props(['p_gc', 'p_ccc', 'p_bc']),
    'C02': props(['p_age', 'p_blk', 'p_sc']),
    'C03': props(['p_gcb', 'p_wb', 'p_hst', 'p_insc', 'p_incb']),
    'C04': props(['p_dt', 'p_dm']),
    'C05': props(['b_' + n for n in PL]),
    'C06': props(['b_' + n for n in EM]),
    'C07': props(['b_' + n for n in DC]),
    'C08': props(['b_ce', 'b_comp_ex']),
    'C09': dict(quick=[('names', 'n_cp'), ('names', 'n_char')], traces=[('names', 'c_name')], bounds=EVERY),
    'C10': dict(quick=[('props', 'v_' + n) for n in ENUM + ['binary']], traces=[('props', 'c_value')], bounds='every value of the twelve enumerated property types and both values of the binary type'),
    'C11': props(['a_new', 'a_char', 'a_display', 'a_version'], bounds='a_new: every u32; a_char: every scalar value; a_display: every code point; a_version: every triple of numbers below 1000'),
    'C12': dict(quick=[('laws', n) for n in 'w_small1 w_small2 w_small3 w_small4 wq_u8 wq_u16 wq_usize wq_128'.split()], thorough=[('laws', n) for n in 'w_u8 w_u16 w_usize w_128'.split()], traces=[('laws', 'c_table')],
        bounds='arbitrary contents: three stage-one entries naming any of three blocks of 1..4 arbitrary u32 cells, every in-range index; fixed contents of 16 blocks, index types u8/u16/usize/u32, block sizes 256 and 128: every index below 0x8000 (thorough: every code point). Other cell types, block sizes and stage lengths are outside.'),
    'C13': text(['t_part%d' % n for n in range(5)] + ['te_part5', 'te_part6'] + ['gp_' + k for k in LONGS], ['t_part5', 'te_part7', 'te_part8'], 'lengths 0..4 (thorough 5) over ' + ALPH['full'] + '; lengths 5 and 6 (thorough 8) over ' + ALPH['conj'] + '; two or three symbolic characters after (or before) twelve long fixed contexts: flags, conjuncts, emoji sequences, marks, Hangul, prepend, words, up to 150 characters. Other strings are outside.', [4]),
    'C14': text(['t_seg1', 't_seg2', 't_seg3', 't_seg4', 'te_seg5', 'te_seg6'] + ['g_' + k for k in LONGS], ['tg_seg5', 't_seg5', 'te_seg7', 'te_seg8'], 'lengths 1..4 (thorough 5) over ' + ALPH['full'] + '; lengths 5 and 6 (thorough 8) over ' + ALPH['conj'] + '; two or three symbolic characters after (or before) twelve long fixed contexts: flags, conjuncts, emoji sequences, marks, Hangul, prepend, words, up to 150 characters. Other strings are outside.', [4], cross=['t_seg3']),
    'C15': norm('nfd', 0), 'C17': norm('nfkd', 1), 'C16': norm('nfc', 2), 'C18': norm('nfkc', 3),
    'C19': text(['l1_' + p for p in PAIRS] + ['lm3_' + p for p in PAIRS] + ['lx_%s_%s' % (k, p) for p in PAIRS for k in ('fall', 'text2', 'block', 'comp3')] + ['lj2_' + p for p in PAIRS], ['lk2_' + p for p in PAIRS] + ['la2_' + p for p in PAIRS] + ['lx_hang_' + p for p in PAIRS],
        'twelve compositions of two forms; strings of length 1 over ' + ALPH['full'] + '; length 3 over ' + ALPH['marks'] + '; every first with every second half of a primary composite; two of the marks inside runs of 21, 24 and after 100 marks, one character of the mix between 15 and 12 characters of composing text (thorough: length 2 over ' + ALPH['mix'] + ' and over all pairs that can join through a decomposition; two Hangul characters after 24). Other strings are outside.', [0, 1, 2, 3]),
    'C20': text(['h_round1', 'h_round2'] + ['th_%s2' % f for f in FORMS] + ['th_nfd3', 'th_nfc3'] + ['x_hang_' + f for f in FORMS], ['h_round3', 'th_nfkd3', 'th_nfkc3', 'th_nfc4'], 'one and two syllables (thorough three) out of all 11,172; strings of length 2 and 3 over ' + ALPH['hangul'] + '; two such characters after 24 Jamo and syllables. Other strings are outside.', [0, 2]),
    'C21': text(['s_ascii1', 's_ascii2', 's_ascii3', 's_ascii4', 'sx_words', 'sx_crlf', 'sx_odd'], ['s_ascii6', 's_ascii8'], 'all ASCII strings of length 1..4 (thorough 6 and 8); two or three arbitrary ASCII characters inside three fixed texts of 60 to 130 characters', [0, 1, 2, 3, 4]),
    'C22': text(['o1_nfd', 'o1_nfkd'] + ['om_' + f for f in FORMS] + ['ok_nfc', 'ok_nfkc'] + ['ox2_nfd', 'ox2_nfkd', 'ox_nfd', 'ox_nfkd'], ['o1_nfc', 'o1_nfkc'] + ['oa2_' + f for f in FORMS] + ['ox_nfc', 'ox_nfkc', 'ox2_nfc', 'ox2_nfkc'], 'one arbitrary scalar value on each side of the line feed (composed forms: quick tier over ' + ALPH['mix'] + ' and over all characters that can join something through their decomposition); longer texts of 20 to 40 characters with one or two symbolic characters on each side (composed forms: thorough only); thorough: two and one of ' + ALPH['mix'], [0, 1, 2, 3]),
    'C23': text(['tm_%s5' % f for f in FORMS] + ['x_%s_%s' % (k, f) for f in FORMS for k in ('end', 'both', 'fall', 'huge', 'many', 'comp3', 'block')], ['tm_%s6' % f for f in FORMS], 'length 5 (thorough 6) over ' + ALPH['marks'] + '; runs of 22 to 262 marks with two symbolic marks in them: inside and after 260 marks of two classes, after 120 marks that block, after 24 that do not compose, at the end of 24 marks of one class, around 24 marks below, inside a run of falling classes, at the end of 126 mixed marks', [0, 1, 2, 3]),
    'C24': dict(quick=[('laws', 'r_' + n) for n in 'alpha lower upper cased math gr_ext ids idc xids xidc ci di cn cs ccc hst ri gcbex incb dt ce compex hex uideo joinc emoji patws'.split()], traces=[('props', 'c_props')], bounds=EVERY.replace(' and every scalar value through char', '')),
    'C25': dict(quick=[('laws', 'e_' + n) for n in PL + EM + DC + ENUM + ['ce', 'comp_ex', 'dm']], traces=[('props', 'c_chars')], bounds='every scalar value'),
}
