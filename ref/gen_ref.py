#!/usr/bin/env python3
"""Builds ref/ucd.txt, ref/names.txt and harness/src/gen.rs from the UCD 15.1.0
data files (JSON transcriptions kept in tools/ucd-tool/data/15.1.0).

Development-time tool: its outputs are committed, so the oracle does not move
when /repo moves.  Everything derived (core properties, full decompositions,
primary composites) follows UAX #44, UAX #15 and the core spec, ch. 3.
"""
import json, os, re, sys
D = sys.argv[1] if len(sys.argv) > 1 else '/repo/tools/ucd-tool/data/15.1.0'
HERE = os.path.dirname(os.path.abspath(__file__))
MAX = 0x110000

def load(n): return json.load(open(os.path.join(D, n + '.json')))
def rng(k):
    a, _, b = k.partition('..')
    return int(a, 16), int(b or a, 16)
def fill(d, default, conv=lambda x: x, base=None):
    t = base or [default] * MAX
    for k, v in d.items():
        lo, hi = rng(k); v = conv(v)
        for c in range(lo, hi + 1): t[c] = v
    return t
def bset(l):
    t = [0] * MAX
    for k in l:
        lo, hi = rng(k)
        for c in range(lo, hi + 1): t[c] = 1
    return t

pva = load('PropertyValueAliases')
def values(p): return list(pva[p].keys())
def index(p):
    """abbr, full name and known loose spelling -> value id"""
    m = {}
    for i, (a, f) in enumerate(pva[p].items()):
        m[a] = i; m[f] = i
    return m
def loose(s): return re.sub(r'[\s_\-]', '', s).lower()

ud_raw = load('UnicodeData')
ud = {}
first = None
for k, v in ud_raw.items():
    c = int(k, 16)
    if v['na'].endswith(', First>'): first = c
    elif v['na'].endswith(', Last>'):
        for x in range(first, c + 1): ud[x] = v
    else: ud[c] = v

tables = []      # (id, name, values list)
def T(id, name, t): tables.append((id, name, t))

# --- enumerated -----------------------------------------------------------
ENUMS = {}
gcv = [a for a in values('gc') if len(a) == 2 and a != 'LC']
ENUMS['Gc'] = [(a, pva['gc'][a]) for a in gcv]
gi = {a: i for i, a in enumerate(gcv)}
gc = fill(load('extracted/DerivedGeneralCategory'), gi['Cn'], lambda v: gi[v])
for c in range(MAX):
    assert gcv[gc[c]] == (ud[c]['gc'] if c in ud else 'Cn'), hex(c)
T(0, 'gc', gc)
ccc = fill(load('extracted/DerivedCombiningClass'), 0, int)
for c in range(MAX): assert ccc[c] == (int(ud[c]['ccc']) if c in ud else 0)
T(1, 'ccc', ccc)
def enum(name, prop, tid, data, default, base=None, conv=None):
    ENUMS[name] = list(pva[prop].items())
    ix = index(prop)
    lx = {loose(k): v for k, v in ix.items()}
    t = fill(data, lx[loose(default)], lambda v: lx[loose(v)], base)
    T(tid, prop, t)
    return t
bix = {loose(k): v for k, v in index('bc').items()}
miss = fill(load('extracted/DerivedBidiClass.missing'), bix['l'], lambda v: bix[loose(v)])
bc = enum('Bc', 'bc', 2, load('extracted/DerivedBidiClass'), 'L', base=list(miss))
for c in ud: assert values('bc')[bc[c]] == ud[c]['bc'], hex(c)
enum('Age', 'age', 3, load('DerivedAge'), 'NA')
enum('Blk', 'blk', 4, load('Blocks'), 'No_Block')
sc = enum('Sc', 'sc', 5, load('Scripts'), 'Zzzz')
gcb = enum('Gcb', 'GCB', 6, load('auxiliary/GraphemeBreakProperty'), 'Other')
wb = enum('Wb', 'WB', 7, load('auxiliary/WordBreakProperty'), 'Other')
hst = enum('Hst', 'hst', 8, load('HangulSyllableType'), 'NA')
insc = enum('Insc', 'InSC', 9, load('IndicSyllabicCategory'), 'Other')
dtd = enum('Dt', 'dt', 10, load('extracted/DerivedDecompositionType'), 'None')
ENUMS['Incb'] = list(pva['InCB'].items())
ENUMS['Ccc'] = [(f, None) for f in pva['ccc'].values()]
G = {a: i for i, a in enumerate(values('GCB'))}
IN = {a: i for i, a in enumerate(values('InSC'))}
IC = {a: i for i, a in enumerate(values('InCB'))}
S = {a: i for i, a in enumerate(values('sc'))}
scs = {S[x] for x in ('Beng', 'Deva', 'Gujr', 'Mlym', 'Orya', 'Telu')}
incb = [IC['None']] * MAX
for c in range(MAX):
    if sc[c] in scs and insc[c] == IN['Virama']: incb[c] = IC['Linker']
    elif sc[c] in scs and insc[c] == IN['Consonant']: incb[c] = IC['Consonant']
    # UAX #44 15.1: Extend = (GCB=Extend and ccc!=0) or ZWJ, not Linker/Consonant
    elif (gcb[c] == G['EX'] and ccc[c] != 0 or gcb[c] == G['ZWJ']) \
            and insc[c] not in (IN['Virama'], IN['Consonant']): incb[c] = IC['Extend']
T(11, 'InCB', incb)

# --- binary ---------------------------------------------------------------
PL = load('PropList'); EM = load('emoji/emoji-data')
B = {}
short = dict(wspace='White_Space', bidi_c='Bidi_Control', join_c='Join_Control', dash='Dash',
  hyphen='Hyphen', qmark='Quotation_Mark', term='Terminal_Punctuation', omath='Other_Math',
  hex='Hex_Digit', ahex='ASCII_Hex_Digit', oalpha='Other_Alphabetic', ideo='Ideographic',
  dia='Diacritic', ext='Extender', olower='Other_Lowercase', oupper='Other_Uppercase',
  nchar='Noncharacter_Code_Point', ogr_ext='Other_Grapheme_Extend', idsb='IDS_Binary_Operator',
  idst='IDS_Trinary_Operator', radical='Radical', uideo='Unified_Ideograph',
  odi='Other_Default_Ignorable_Code_Point', dep='Deprecated', sd='Soft_Dotted',
  loe='Logical_Order_Exception', oids='Other_ID_Start', oidc='Other_ID_Continue',
  sterm='Sentence_Terminal', vs='Variation_Selector', pat_ws='Pattern_White_Space',
  pat_syn='Pattern_Syntax', pcm='Prepended_Concatenation_Mark', ri='Regional_Indicator')
proplist = list(short)
for i, (k, v) in enumerate(short.items()):
    B[k] = bset(PL[v]); T(20 + i, k, B[k])
emo = dict(emoji='Emoji', epres='Emoji_Presentation', emod='Emoji_Modifier',
  ebase='Emoji_Modifier_Base', ecomp='Emoji_Component', ext_pict='Extended_Pictographic')
for i, (k, v) in enumerate(emo.items()):
    B[k] = bset(EM[v]); T(60 + i, k, B[k])
def g(*names):
    s = {gi[n] for n in names}
    return [int(x in s) for x in gc]
def OR(*ts): return [int(any(x)) for x in zip(*ts)]
def AND(*ts): return [int(all(x)) for x in zip(*ts)]
def NOT(t): return [1 - x for x in t]
W = {a: i for i, a in enumerate(values('WB'))}
cps = list(range(MAX))
lower = OR(g('Ll'), B['olower']); upper = OR(g('Lu'), B['oupper'])
ids = AND(OR(g('Lu', 'Ll', 'Lt', 'Lm', 'Lo', 'Nl'), B['oids']), NOT(B['pat_syn']), NOT(B['pat_ws']))
idc = AND(OR(ids, g('Mn', 'Mc', 'Nd', 'Pc'), B['oidc']), NOT(B['pat_syn']), NOT(B['pat_ws']))

# --- decompositions -------------------------------------------------------
SB, LB, VB, TB, LC, VC, TC = 0xAC00, 0x1100, 0x1161, 0x11A7, 19, 21, 28
raw = {}; canon = set()
for c, v in ud.items():
    if v['dm']:
        p = v['dm'].split()
        if p[0].startswith('<'): p = p[1:]
        else: canon.add(c)
        raw[c] = [int(x, 16) for x in p]
dtn = {a: i for i, a in enumerate(values('dt'))}
for c in range(LC * VC * TC):
    s = SB + c
    if c % TC: raw[s] = [SB + c // TC * TC, TB + c % TC]
    else: raw[s] = [LB + c // (VC * TC), VB + c // TC % VC]
    canon.add(s)
for c in range(MAX):
    assert (dtd[c] == dtn['Can']) == (c in canon), hex(c)
    assert (dtd[c] != dtn['None']) == (c in raw), hex(c)
def full(c, compat):
    if c in raw and (compat or c in canon):
        return [y for x in raw[c] for y in full(x, compat)]
    return [c]
def order(l):
    l = list(l)
    for _ in l:
        for i in range(len(l) - 1):
            if ccc[l[i]] > ccc[l[i + 1]] > 0: l[i], l[i + 1] = l[i + 1], l[i]
    return l
def surr(c): return 0xD800 <= c < 0xE000
ndm = max(map(len, raw.values()))
T(100, 'dmlen', [len(raw.get(c, ())) for c in cps])
for i in range(ndm):
    T(101 + i, 'dm%d' % i, [raw[c][i] if c in raw and i < len(raw[c]) else 0 for c in cps])
for base, nm, compat in ((130, 'can', False), (150, 'com', True)):
    seq = [order(full(c, compat)) if c in raw else [c] for c in cps]
    for c in raw: assert order(full(c, compat)) == full(c, compat)
    seq = [[] if s == [c] else s for c, s in enumerate(seq)]  # length 0: maps to itself
    T(base, nm + 'len', [len(s) for s in seq])
    for i in range(max(map(len, seq))):
        T(base + 1 + i, nm + str(i), [s[i] if i < len(s) else 0 for s in seq])
ce = bset(load('CompositionExclusions'))
def non_starter_decomp(c):
    if c not in canon: return False
    return ccc[c] != 0 or ccc[raw[c][0]] != 0
compex = [int(bool(ce[c] or (c in canon and len(raw[c]) == 1) or non_starter_decomp(c))) for c in cps]
dnp = load('DerivedNormalizationProps')
assert compex == bset(dnp['Full_Composition_Exclusion'])
pairs = {tuple(raw[c]): c for c in canon if not compex[c] and not (SB <= c < SB + LC*VC*TC)}
assert all(len(p) == 2 for p in pairs)
fa = sorted({p[0] for p in pairs}); fb = sorted({p[1] for p in pairs})
assert len(fb) < 256
ia = {a: i + 1 for i, a in enumerate(fa)}; ib = {b: i + 1 for i, b in enumerate(fb)}
T(180, 'compa', [ia.get(c, 0) for c in cps])
T(181, 'compb', [ib.get(c, 0) for c in cps])
flat = [0] * MAX
for (a, b), c in pairs.items(): flat[ia[a] << 8 | ib[b]] = c
T(182, 'comp', flat)
T(183, 'hasdm', [int(c in raw) for c in cps])

# --- derived core ---------------------------------------------------------
# XID closure (UAX #31, NFKC modifications): computed by definition below.
def compose(l):
    l = list(l); last = -1; i = 0; out = []
    for ch in l:
        if last >= 0:
            blocked = len(out) - 1 > last and (ccc[out[-1]] == 0 or ccc[out[-1]] >= ccc[ch])
            s = out[last]; p = None
            if LB <= s < LB+LC and VB <= ch < VB+VC: p = SB + ((s-LB)*VC + ch-VB)*TC
            elif SB <= s < SB+LC*VC*TC and (s-SB) % TC == 0 and TB < ch < TB+TC: p = s + ch - TB
            else: p = pairs.get((s, ch))
            if p is not None and not blocked:
                out[last] = p; continue
        out.append(ch)
        if ccc[ch] == 0: last = len(out) - 1
    return out
def nfkc(l): return compose(order([y for x in l for y in full(x, True)]))
xidc = list(idc); xids = list(ids)
for c in cps:
    if idc[c] and c in raw:
        n = nfkc([c])
        if not all(idc[x] for x in n): xidc[c] = 0
for c in cps:
    if ids[c]:
        n = nfkc([c]) if c in raw else [c]
        if not (ids[n[0]] and all(idc[x] for x in n[1:])): xids[c] = 0
# U+0E33, U+0EB3 decompose to a mark + vowel; FF9E/FF9F to marks: covered by the rule
core = dict(
  math=OR(g('Sm'), B['omath']), alpha=OR(lower, upper, g('Lt', 'Lm', 'Lo', 'Nl'), B['oalpha']),
  lower=lower, upper=upper, cased=OR(lower, upper, g('Lt')),
  ci=OR([int(x in (W['ML'], W['MB'], W['SQ'])) for x in wb], g('Mn', 'Me', 'Cf', 'Lm', 'Sk')),
  di=AND(OR(B['odi'], g('Cf'), B['vs']), NOT(B['wspace']),
         [int(not (0xFFF9 <= c <= 0xFFFB or 0x13430 <= c <= 0x13440)) for c in cps], NOT(B['pcm'])),
  gr_ext=OR(g('Me', 'Mn'), B['ogr_ext']), ids=ids, idc=idc, xids=xids, xidc=xidc)
for i, (k, t) in enumerate(core.items()): T(70 + i, k, t); B[k] = t
T(90, 'ce', ce); T(91, 'comp_ex', compex)
# NFKD_QC etc. as independent cross-checks of the expansion
assert bset(dnp['NFD_QC']) == [int(c in canon) for c in cps]
assert bset(dnp['NFKD_QC']) == [int(c in raw) for c in cps]
# combined class used by the segmentation reference: one lookup per character
# bits 0-4 gcb, 5-6 incb, 7 ext_pict
T(95, 'segclass', [gcb[c] | incb[c] << 5 | B['ext_pict'][c] << 7 for c in cps])

# --- value names ----------------------------------------------------------
names = {}
pat = []
for k, v in load('extracted/DerivedName').items():
    lo, hi = rng(k)
    if v.endswith('*'): pat.append((lo, hi, v[:-1]))
    else:
        assert lo == hi; names[lo] = v
with open(os.path.join(HERE, 'names.txt'), 'w') as f:
    for c in sorted(names): f.write('%04X %s\n' % (c, names[c]))
    for lo, hi, p in sorted(pat): f.write('*%04X %04X %s\n' % (lo, hi, p))

with open(os.path.join(HERE, 'ucd.txt'), 'w') as f:
    for id, name, t in tables:
        f.write('T %d %s\n' % (id, name))
        i = 0
        while i < MAX:
            j = i
            while j + 1 < MAX and t[j + 1] == t[i]: j += 1
            if t[i]: f.write('%X %X %X\n' % (i, j, t[i]))
            i = j + 1
# value names: "V <prop> <id> <abbr> <full>"
with open(os.path.join(HERE, 'values.txt'), 'w') as f:
    order_ = ['Gc','Bc','Age','Blk','Sc','Gcb','Wb','Hst','Insc','Dt','Incb','Ccc']
    for n in order_:
        if n == 'Ccc':
            full = dict(NR='Not_Reordered', OV='Overlay', HANR='Han_Reading', NK='Nukta', KV='Kana_Voicing', VR='Virama', CCC133='RESERVED',
                ATBL='Attached_Below_Left', ATB='Attached_Below', ATA='Attached_Above', ATAR='Attached_Above_Right', BL='Below_Left', B='Below',
                BR='Below_Right', L='Left', R='Right', AL='Above_Left', A='Above', AR='Above_Right', DB='Double_Below', DA='Double_Above', IS='Iota_Subscript')
            for i, (num, nm) in enumerate(pva['ccc'].items()): f.write('%s %d %s %s\n' % (n, i, nm, full.get(nm, nm)))
        else:
            for i, (a, fl) in enumerate(ENUMS[n]): f.write('%s %d %s %s\n' % (n, i, a, fl))

# --- harness glue ---------------------------------------------------------
src = open('/repo/src/unicode/props.rs').read()
out = ['// Generated by ref/gen_ref.py: public enum variants <-> reference value ids.',
       'use seshat::unicode::props::*;']
for m in re.finditer(r'pub enum (\w+) \{(.*?)\n\}', src, re.S):
    n = m.group(1)
    if n not in ENUMS: continue
    vs = re.findall(r'^\s*(\w+)\s*(?:=\s*\w+)?\s*,', re.sub(r'//.*', '', m.group(2)), re.M)
    key = {}
    for i, (a, fl) in enumerate(ENUMS[n]):
        key[loose(a)] = i
        if n == 'Age' : key[loose(fl)] = i
    ids_ = {}
    for v in vs: ids_[v] = key[loose(v)]
    assert len(set(ids_.values())) == len(ENUMS[n]) == len(vs), n
    inv = {i: v for v, i in ids_.items()}
    if n != 'Ccc':
        out.append('#[allow(unreachable_patterns)]\n#[inline(never)]\npub fn %s_id(x: %s) -> u32 { match x {' % (n.lower(), n))
        for i in range(len(vs)): out.append('    %s::%s => %d,' % (n, inv[i], i))
        out.append('    _ => 0xFFFF,\n} }')
    out.append('pub const %s_ALL: [%s; %d] = [%s];' % (n.upper(), n, len(vs),
        ', '.join('%s::%s' % (n, inv[i]) for i in range(len(vs)))))
    if n == 'Ccc':
        out.append('pub const CCC_NUM: [u32; %d] = [%s];' % (len(vs), ', '.join(pva['ccc'].keys())))
out.append('pub const G_%s: u32 = 0;' % 'DUMMY')
for a, i in G.items(): out.append('pub const G_%s: u32 = %d;' % (a, i))
for a, i in IC.items(): out.append('pub const IC_%s: u32 = %d;' % (a.upper(), i))
out.append('pub const DT_CAN: u32 = %d;' % dtn['Can'])
open(os.path.join(HERE, '..', 'harness', 'src', 'gen.rs'), 'w').write('\n'.join(out) + '\n')
print('tables', len(tables), 'names', len(names), 'pairs', len(pairs), len(fa), len(fb))
