#!/usr/bin/env python3
# Restricted alphabets for the bounds with longer strings. Reads ucd.txt
# (this directory), writes alph.txt in the same format.
import os
HERE = os.path.dirname(os.path.abspath(__file__))
T = {}
cur = None
for l in open(os.path.join(HERE, 'ucd.txt')):
    f = l.split()
    if f[0] == 'T': cur = T.setdefault(int(f[1]), {}); continue
    for c in range(int(f[0], 16), int(f[1], 16) + 1): cur[c] = int(f[2], 16)
def scalar(c): return not 0xD800 <= c < 0xE000
out = []
def put(i, name, cs):
    cs = sorted(set(c for c in cs if scalar(c)))
    out.append('T %d %s\n' % (i, name))
    k = 0
    while k < len(cs):
        j = k
        while j + 1 < len(cs) and cs[j + 1] == cs[j] + 1: j += 1
        out.append('%X %X 1\n' % (cs[k], cs[j]))
        k = j + 1
# 200: characters that interact in normalization
a = [ord(c) for c in 'Aao<'] + [0x41 + 3, 0xC5, 0xE4, 0x1EA1, 0x1E69, 0x1E63, 0x73, 0x1EAD, 0x1FC, 0x212B, 0x2126, 0x0340, 0x0344, 0x0374, 0x1F71,
    0x300, 0x301, 0x302, 0x307, 0x308, 0x30A, 0x323, 0x331, 0x327, 0x31B, 0x345, 0x334, 0x338, 0x35C, 0x35D, 0x315, 0x5B4, 0x5D9, 0xFB1D,
    0x915, 0x93C, 0x94D, 0x958, 0x929, 0x9C7, 0x9BE, 0x9D7, 0xCC6, 0xCC2, 0xCD5, 0xCCB, 0xDD9, 0xDCA, 0xDDE, 0xF71, 0xF72, 0xF73, 0xF74, 0x3099, 0x304B, 0x304C, 0x302A, 0x302E,
    0x1100, 0x1112, 0x1113, 0x115F, 0x1161, 0x1175, 0x1176, 0x11A7, 0x11A8, 0x11C2, 0x11C3, 0xAC00, 0xAC01, 0xAC1C, 0xD788, 0xD7A3,
    0x110A5, 0x110BA, 0x1109B, 0x1D157, 0x1D165, 0x1D15F, 0x1D16E, 0x2F800, 0xFB01, 0xFDFA, 0xFF21, 0x1E9B, 0x10FFFF, 0xFDD0, 0x1025, 0x102E]
put(200, 'alphabet of interacting characters', a)
# 201: everything the Hangul algorithms look at
put(201, 'hangul', list(range(0x1100, 0x1200)) + list(range(0xA960, 0xA980)) + list(range(0xAC00, 0xD7B0)) + list(range(0xD7B0, 0xD800)))
# 202: one or two representatives of every segmentation class
reps = {}
for c in range(0x110000):
    if scalar(c):
        l = reps.setdefault(T[95].get(c, 0), [])
        if len(l) < 1 or (len(l) < 2 and c > 0xFFFF): l.append(c)
put(211, 'hangul syllables', range(0xAC00, 0xAC00 + 11172))
put(212, 'block numbers', range(3))
put(213, 'small indices', range(12))
put(214, 'first code points', range(0x8000))
put(202, 'segmentation class representatives', [c for l in reps.values() for c in l])
put(203, 'ascii', range(0x80))
# 204: a few combining marks and bases, for long runs of marks
put(204, 'marks', [0x61, 0x300, 0x301, 0x308, 0x323, 0x327, 0x334, 0x345, 0x35D, 0x30A])
# 205: all nonstarters; 206: all characters with a canonical decomposition; 207: all that take part in composition
put(205, 'nonstarters', [c for c in T[1]])
put(206, 'canonically decomposable', [c for c in T[130]] + list(range(0xAC00, 0xAC00 + 11172)))
put(207, 'compose left', [c for c in T[180]])
put(208, 'compose right', [c for c in T[181]])
put(209, 'single bit', [0, 1])
# 210: graphemes: characters relevant to conjuncts and emoji, for long strings
put(210, 'conjuncts and emoji', [0x61, 0xA9, 0x1F600, 0x200D, 0x300, 0x93C, 0x915, 0x94D, 0x903, 0x600, 0x1F1E6])
def full(c, lens, first):
    if 0xAC00 <= c < 0xD7A4:
        s = c - 0xAC00
        return [0x1100 + s // 588, 0x1161 + s % 588 // 28] + ([0x11A7 + s % 28] if s % 28 else [])
    n = T[lens].get(c, 0)
    return [T[first + i].get(c, 0) for i in range(n)] if n else [c]
def joins(kind):
    # left: the last starter is the first half of a composite; right: begins with a nonstarter or a second half
    L, R = [], []
    V, Tt = range(0x1161, 0x1176), range(0x11A8, 0x11C3)
    for c in range(0x110000):
        if not scalar(c): continue
        d = full(c, *kind)
        st = [x for x in d if T[1].get(x, 0) == 0]
        if st and (st[-1] in T[180] or 0x1100 <= st[-1] <= 0x1112 or st[-1] in V): L.append(c)
        if d[0] in T[181] or T[1].get(d[0], 0) or d[0] in V or d[0] in Tt: R.append(c)
    return L, R
CL, CR = joins((130, 131))
KL, KR = joins((150, 151))
put(215, 'can join something to its right, canonical', CL)
put(216, 'can join something to its left, canonical', CR)
put(217, 'can join something to its right, compatible', KL)
put(218, 'can join something to its left, compatible', KR)
put(219, 'joins only through a compatibility mapping', sorted((set(KL) | set(KR)) - set(CL) - set(CR)))
open(os.path.join(HERE, 'alph.txt'), 'w').writelines(out)
