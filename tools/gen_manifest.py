import json
U='src/unicode.rs'; D='src/unicode/ucd/'
def P(id,title,st,q,why,files,mech,over=('inputs',),state=None,obs=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if state: a['state']=state
    if obs: a['observe_at']=obs
    a['hook_needed']=None
    return {'id':id,'title':title,'statement':st,'quantifier':{'over':list(over),'text':q},'why_tests_cant':why,'anchors':a}
ALLCP='every code point U+0000..U+10FFFF (surrogates, noncharacters and unassigned included), through the code point type and through char'
L=[]
L.append(P('C01','General category, combining class and bidi class match the UCD',
 'For every code point the reported general category, canonical combining class and bidirectional class are exactly the Unicode 15.1.0 values, including the defaults of unassigned, private-use, surrogate and noncharacter code points.',
 ALLCP,'The tests compare a flattened UCD file that is not shipped, so here they sample nothing; 1.1 million code points times several lookups must all be right.',
 [U,D+'gc.rs',D+'ccc.rs',D+'bc.rs'],[('two-stage lookup tables',D+'gc.rs, '+D+'ccc.rs, '+D+'bc.rs'),('trait methods on both types',U)]))
L.append(P('C02','Age, block and script match the UCD',
 'For every code point the reported age, block and script are exactly the Unicode 15.1.0 values; code points outside every block, script or version get the standard defaults (No_Block, Unknown, Unassigned).',
 ALLCP,'Range ends and gaps between ranges are where such tables break; no shipped test visits them.',[U,D+'age.rs',D+'blk.rs',D+'sc.rs'],[('two-stage lookup tables',D+'age.rs, '+D+'blk.rs, '+D+'sc.rs')]))
L.append(P('C03','Break, Hangul and Indic classes match the UCD',
 'For every code point the reported grapheme cluster break, word break, Hangul syllable type, Indic syllabic category and Indic conjunct break are exactly the Unicode 15.1.0 values.',
 ALLCP,'The segmentation tests reach only the few characters of the standard test file.',[U,D+'gcb.rs',D+'wb.rs',D+'hst.rs',D+'insc.rs',D+'derived_props.rs'],[('two-stage lookup tables and derivations',D+'gcb.rs, '+D+'wb.rs, '+D+'hst.rs, '+D+'insc.rs, '+D+'derived_props.rs')]))
L.append(P('C04','Decomposition type and mapping match the UCD',
 'For every code point the reported decomposition type and the decomposition mapping string are exactly those of Unicode 15.1.0; characters without a decomposition report type none and the standard default mapping this library defines for them (an empty string), and Hangul syllables report the arithmetic mapping of the standard (leading and vowel part, or LV syllable and trailing part).',
 ALLCP,'The existing normalization tests use a few characters; a wrong mapping elsewhere is silent.',[U,D+'dm.rs',D+'dm/dm_map.rs',D+'dt.rs','src/unicode/hangul.rs'],[('mapping table search',D+'dm.rs, '+D+'dm/dm_map.rs'),('Hangul arithmetic','src/unicode/hangul.rs')]))
L.append(P('C05','The 34 contributory and simple binary properties match the UCD',
 'For every code point each binary property of the property list (White_Space, Dash, Hex_Digit, Ideographic, Diacritic, Variation_Selector, Pattern_Syntax, Regional_Indicator and the rest) is true exactly where Unicode 15.1.0 says so.',
 ALLCP+', for each of the 34 properties','No shipped test looks at them beyond single characters.',[U,D+'binary_props.rs'],[('range tests or lookup tables',D+'binary_props.rs')]))
L.append(P('C06','The emoji properties match the emoji data',
 'For every code point Emoji, Emoji_Presentation, Emoji_Modifier, Emoji_Modifier_Base, Emoji_Component and Extended_Pictographic are true exactly where the Unicode 15.1.0 emoji data says so.',
 ALLCP+', for each of the six properties','Extended_Pictographic covers many unassigned ranges that no sample visits.',[U,D+'emoji_props.rs'],[('range tests or lookup tables',D+'emoji_props.rs')]))
L.append(P('C07','The derived core properties match their definitions',
 'For every code point Alphabetic, Lowercase, Uppercase, Cased, Case_Ignorable, Math, Default_Ignorable_Code_Point, Grapheme_Extend, ID_Start, ID_Continue, XID_Start and XID_Continue are true exactly where Unicode 15.1.0 defines them so.',
 ALLCP+', for each of the twelve properties','They are computed from other properties; a slip in one input shows only at some of its code points.',[U,D+'derived_props.rs'],[('derivation from other properties',D+'derived_props.rs')]))
L.append(P('C08','Composition exclusions match the UCD and are total',
 'For every code point, surrogates included, Composition_Exclusion and Full_Composition_Exclusion can be asked without a panic and are true exactly where Unicode 15.1.0 says so.',
 ALLCP,'Full exclusion is computed through the decompositions, so it can fail at single unvisited code points.',[U,D+'ce.rs',D+'normalization_props.rs'],[('derivation through mappings',D+'normalization_props.rs'),('exclusion list',D+'ce.rs')]))
L.append(P('C09','Character names match the UCD',
 'For every code point the reported name is exactly the Unicode 15.1.0 Name property: listed names, names derived by rule for CJK ideographs, Tangut, Nushu, Khitan and compatibility ideographs, composed names for Hangul syllables, and the empty name for everything without one.',
 ALLCP,'34,000 listed and 100,000 derived names; tests name a handful.',[U,D+'na.rs',D+'na/na_table.rs',D+'jsn.rs','src/unicode/hangul.rs'],[('name table search',D+'na/na_table.rs'),('derived names',D+'na.rs'),('Jamo short names',D+'jsn.rs')]))
L.append(P('C10','Property value names match the aliases of the standard',
 'Every value of every enumerated property, and both values of a binary property, report exactly the short and long names that the property value aliases of Unicode 15.1.0 give.',
 'every value of the twelve enumerated property types and of the binary type','About 750 value-to-name pairs written out by hand-like generated code; tests look at very few.',['src/unicode/props.rs',D+'property_names.rs'],[('value to names',D+'property_names.rs'),('property trait','src/unicode/props.rs')]))
L.append(P('C11','Code points are validated, preserved and printed in the standard form',
 'A code point is accepted exactly if it is at most 10FFFF, gives back the number it was made from (also when made from a char), and prints as U+ followed by at least four uppercase hexadecimal digits without further leading zeros. The reported Unicode version is 15.1.0 and a version prints as its three numbers separated by dots.',
 'every 32-bit number, every char, every code point, every version with components below 1000','Tests check two or three numbers.',[U],[('constructor and conversions',U),('Display',U)]))
L.append(P('C12','A two-stage table returns the addressed cell',
 'For any stage-one index list, any blocks and any block size, looking up a code point within the table returns the cell at its offset in the block that stage one names for it, whatever the index type, and never panics.',
 'every table content and index within the bounds of the check','Tests build no table beyond one fixed use.',['src/collections.rs'],[('division and remainder by block size','src/collections.rs')]))
L.append(P('C13','Grapheme clusters partition the text',
 'For every string, iterating grapheme clusters yields non-empty pieces that end on character boundaries, are consecutive slices of the input and together are the whole input; the iterator then ends and stays ended, and never panics.',
 'every string within the bounds','The tests iterate the fixed standard test file only.',[U],[('iterator that cuts its remaining slice',U)],state=[{'name':'remaining slice','meaning':'text not yet yielded','where':U}]))
L.append(P('C14','Grapheme cluster boundaries follow UAX #29',
 'For every string, a boundary is reported between two characters exactly if the extended grapheme cluster rules GB3 to GB999 of Unicode 15.1.0 (with conjunct rule GB9c) place one there.',
 'every string within the bounds','The rules depend on unbounded left context (emoji sequences, conjuncts, flags); the standard test file samples few contexts.',[U,'src/unicode/seg.rs',D+'gcb.rs',D+'derived_props.rs',D+'emoji_props.rs'],[('rule cascade with running state',U),('pair rules','src/unicode/seg.rs')],state=[{'name':'emoji, conjunct and flag state','meaning':'left context of the current position','where':U}]))
N=['src/unicode/normalization.rs',U,'src/unicode/hangul.rs',D+'dm.rs',D+'ccc.rs']
def nf(id,f,long,steps): L.append(P(id,'%s is the form the standard defines'%f,'For every string the %s conversion returns exactly Normalization Form %s of Unicode 15.1.0: %s.'%(f,long,steps),'every string within the bounds','The tests use the listed lines of the standard test file, mostly single characters; interactions of reordering, blocking, Hangul and exclusions are combinations of characters.',N+([D+'normalization_props.rs'] if 'C' in f else []),[('decomposition and canonical ordering','src/unicode/normalization.rs')]+([('composition','src/unicode/normalization.rs')] if 'C' in f else [])+[('Hangul arithmetic','src/unicode/hangul.rs')]))
nf('C15','NFD','D','full canonical decomposition (Hangul algorithmically), then canonical ordering of combining marks')
nf('C16','NFC','C','canonical decomposition and ordering, then canonical composition with blocking, Hangul and composition exclusions')
nf('C17','NFKD','KD','full compatibility decomposition (Hangul algorithmically), then canonical ordering of combining marks')
nf('C18','NFKC','KC','compatibility decomposition and ordering, then canonical composition with blocking, Hangul and composition exclusions')
L.append(P('C19','The normalization forms are idempotent and absorb each other',
 'For every string, normalizing twice to the same form changes nothing more, normalizing to a canonical form first never changes the result of any later form, and normalizing to a compatibility form first never changes the result of a later compatibility form.',
 'every string within the bounds, all twelve lawful pairs of forms','Laws between outputs over all strings; tests check table lines only.',N,[('shared decomposition, ordering and composition','src/unicode/normalization.rs')]))
L.append(P('C20','Hangul syllables decompose and recompose by the standard arithmetic',
 'Every precomposed Hangul syllable decomposes into its leading consonant, vowel and optional trailing consonant, text of syllables survives decomposition and composition unchanged, and sequences of Jamo and syllables normalize as the standard requires, whatever precedes or follows them.',
 'all 11,172 syllables, and all strings of Jamo and syllables within the bounds','11,172 syllables and half a million Jamo pairs; samples miss the ends of the ranges.',['src/unicode/hangul.rs','src/unicode/normalization.rs'],[('Hangul arithmetic','src/unicode/hangul.rs'),('Hangul composition','src/unicode/normalization.rs')]))
L.append(P('C21','ASCII text passes unchanged and breaks at every character but CRLF',
 'For every ASCII string all four normalization forms return the string unchanged, and grapheme clusters are the single characters, except that a carriage return and a directly following line feed stay together.',
 'every ASCII string within the bounds','Control characters and their neighbours are not sampled.',[U,'src/unicode/normalization.rs','src/unicode/seg.rs'],[('normalization','src/unicode/normalization.rs'),('control rules','src/unicode/seg.rs')]))
L.append(P('C22','A line feed separates normalization',
 'For every two strings, normalizing their concatenation around a line feed gives the same as normalizing each part on its own and putting the line feed between the results, for all four forms.',
 'every pair of strings within the bounds','A carried-over state (last starter, mark run) shows only for particular pairs.',N,[('per-run processing in composition and ordering','src/unicode/normalization.rs')]))
L.append(P('C23','Long runs of combining marks are ordered, blocked and composed correctly',
 'For every run of combining marks after (or before) a base character, canonical ordering is stable, sorts by combining class, and never moves a mark across a base; composition takes the first unblocked mark each time and leaves blocked marks alone.',
 'runs within the bounds, all orders and repetitions of the chosen marks, all four forms','Orders and repetitions of marks grow exponentially with the run; tests have runs of up to a few marks in fixed orders.',N,[('canonical ordering','src/unicode/normalization.rs'),('blocking in composition','src/unicode/normalization.rs')],over=('inputs','histories')))
L.append(P('C24','Derived properties agree with the properties they are derived from',
 'For every code point the relations the standard fixes between properties hold among the reported values: for instance Alphabetic, Lowercase, Uppercase, Cased, Math, Grapheme_Extend, Case_Ignorable, Default_Ignorable, ID_Start and ID_Continue follow from category and contributory properties, Hangul types agree with break classes, excluded characters have a canonical mapping, and nonstarters are marks.',
 'every code point, each of the 27 relations','Relations over all code points; no test states any.',[U,D+'derived_props.rs'],[('derivation from other properties',D+'derived_props.rs')]))
L.append(P('C25','A character and its code point report the same properties',
 'For every Unicode scalar value each property method reports the same on the character as on the code point made from it.',
 'every scalar value, all 67 property methods','The two implementations are written out separately, method by method; tests call few of them.',[U],[('two implementations of the property trait',U)]))
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in L))
import jsonschema
sc=json.load(open('/root/.vp/PROPERTIES.schema.json'))
for x in L: jsonschema.validate(x,sc)
T={'C12':'array theory'}
checks=[]
import sys; sys.path.insert(0,'/verif')
from plan import PLAN
for x in L:
    i=x['id']
    checks.append({'property':i,'quick_cmd':'python3 check.py %s quick'%i,'thorough_cmd':'python3 check.py %s thorough'%i,'evidence_file':'evidence/%s.json'%i,
     'technique':'symbolic execution of the LLVM IR compiled from /repo, obligations decided by z3 (bit-vectors, tables as arrays), counterexamples replayed natively','level':'model_checking','level_note':('Bounds: '+PLAN[i]['bounds'])})
m={'version':1,'setup_cmd':'python3 setup.py','checks':checks,'not_applicable':[],'notes':'All checks share one engine (engine/), one harness crate (harness/) and the reference tables (ref/); see DESIGN.md.'}
json.dump(m,open('/verif/MANIFEST.json','w'),indent=1)
jsonschema.validate(m,json.load(open('/root/.vp/MANIFEST.schema.json')))
