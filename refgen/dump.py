#!/usr/bin/env python3
"""Writes refs/*.tab: the reference property tables (Unicode 10.0.0, IDNA/emoji data of the same release).

Source: the .rsv data of the pinned commit (argument 1: a checkout of it). The result is committed and is NOT
regenerated by the checks. refgen/validate.pl compares it with an independent Unicode database."""
import re, sys, os
R = sys.argv[1]; OUT = sys.argv[2]
def src(p): return open(os.path.join(R, "unic", p)).read()
def rng(p):
    """[(lo, hi, value text)] of a Range or Direct table"""
    out = []
    for l in src(p).splitlines():
        m = re.match(r"\s+\(chars!\('\\u\{(\w+)\}'\.\.='\\u\{(\w+)\}'\), (.*)\),$", l)
        if m: out.append((int(m[1], 16), int(m[2], 16), m[3])); continue
        m = re.match(r"\s+\('\\u\{(\w+)\}', (.*)\),$", l)
        if m: out.append((int(m[1], 16), int(m[1], 16), m[2])); continue
        if l.strip() and not l.startswith(("//", "CharDataTable", "])")): raise SystemExit("%s: %r" % (p, l))
    return out
def full(items, default):
    """complete partition value -> ranges of 0..10FFFF"""
    items = sorted(items); d = {}; at = 0
    for lo, hi, v in items:
        assert lo >= at, (hex(lo), hex(at))
        if lo > at: d.setdefault(default, []).append((at, lo - 1))
        d.setdefault(v, []).append((lo, hi)); at = hi + 1
    if at <= 0x10FFFF: d.setdefault(default, []).append((at, 0x10FFFF))
    for v in d:
        m = []
        for lo, hi in sorted(d[v]):
            if m and m[-1][1] == lo - 1: m[-1] = (m[-1][0], hi)
            else: m.append((lo, hi))
        d[v] = m
    return d
def emit(f, tid, name, d, width=32):
    f.write("T %d %d %s\n" % (tid, width, name))
    for v in sorted(d): f.write("%d:%s\n" % (v, "".join(" %X-%X" % x if x[0] != x[1] else " %X" % x[0] for x in d[v])))
GC = "Lu Ll Lt Lm Lo Mn Mc Me Nd Nl No Pc Pd Ps Pe Pi Pf Po Sm Sc Sk So Zs Zl Zp Cc Cf Cs Co Cn".split()
GCB = "Other CR LF Control Extend ZWJ RegionalIndicator Prepend SpacingMark L V T LV LVT EBase EModifier GlueAfterZwj EBaseGAZ".split()
WB = "Other CR LF Newline Extend ZWJ RegionalIndicator Format Katakana HebrewLetter ALetter SingleQuote DoubleQuote MidNumLet MidLetter MidNum Numeric ExtendNumLet EBase EModifier GlueAfterZwj EBaseGAZ".split()
SB = "Other CR LF Extend Sep Format Sp Lower Upper OLetter Numeric ATerm SContinue STerm Close".split()
BC = "L R AL EN ES ET AN CS NSM BN B S WS ON LRE LRO RLE RLO PDF LRI RLI FSI PDI".split()
long2 = {"Regional_Indicator": "RegionalIndicator", "Glue_After_Zwj": "GlueAfterZwj", "E_Base": "EBase", "E_Modifier": "EModifier", "E_Base_GAZ": "EBaseGAZ", "Hebrew_Letter": "HebrewLetter", "Single_Quote": "SingleQuote", "Double_Quote": "DoubleQuote"}
def enum(p, names, default):
    it = []
    for lo, hi, v in rng(p):
        v = v.split("::")[-1]; v = long2.get(v, v)
        if v not in names: v = v.replace("_", "")
        it.append((lo, hi, names.index(v)))
    return full(it, names.index(default))
def boolt(p): return full([(lo, hi, 1) for lo, hi, v in rng(p)], 0)
def chs(s): return [int(x, 16) for x in re.findall(r"\\u\{(\w+)\}", s)]

with open(OUT + "/ucd.tab", "w") as f:
    f.write("# Unicode 10.0.0 reference data. See refgen/.\n")
    emit(f, 1, "gc", enum("ucd/category/tables/general_category.rsv", GC, "Cn"))
    emit(f, 2, "gcb", enum("ucd/segment/tables/grapheme_cluster_break.rsv", GCB, "Other"))
    emit(f, 3, "wb", enum("ucd/segment/tables/word_break.rsv", WB, "Other"))
    emit(f, 4, "sb", enum("ucd/segment/tables/sentence_break.rsv", SB, "Other"))
    emit(f, 5, "bc", enum("ucd/bidi/tables/bidi_class.rsv", BC, "L"))
    emit(f, 6, "bidi_m", boolt("ucd/bidi/tables/bidi_mirrored.rsv"))
    emit(f, 7, "bidi_c", boolt("ucd/bidi/tables/bidi_control.rsv"))
    age = []
    for lo, hi, v in rng("ucd/age/tables/age_values.rsv"):
        m = re.search(r"major: (\d+), minor: (\d+), micro: (\d+)", v); age.append((lo, hi, int(m[1]) << 8 | int(m[2]))); assert m[3] == "0"
    emit(f, 8, "age", full(age, 0))
    blocks = rng("ucd/block/tables/blocks.rsv")
    emit(f, 9, "blk", full([(lo, hi, i + 1) for i, (lo, hi, v) in enumerate(blocks)], 0))
    open(OUT + "/blocks.txt", "w").write("".join(v.strip('"') + "\n" for lo, hi, v in blocks))
    emit(f, 10, "ccc", full([(lo, hi, int(re.search(r"\d+", v)[0])) for lo, hi, v in rng("ucd/normal/tables/canonical_combining_class_values.rsv")], 0))
    t = 11
    for p in ("cased case_ignorable changes_when_casefolded changes_when_casemapped changes_when_lowercased changes_when_titlecased changes_when_uppercased lowercase uppercase".split()):
        emit(f, t, p, boolt("ucd/case/tables/%s.rsv" % p)); t += 1
    for p in ("id_continue id_start pattern_syntax pattern_white_space xid_continue xid_start".split()):
        emit(f, t, p, boolt("ucd/ident/tables/%s.rsv" % p)); t += 1
    for p in ("alphabetic alphanumeric control numeric white_space".split()):
        emit(f, t, p, boolt("ucd/common/tables/%s.rsv" % p)); t += 1
    for p in ("emoji emoji_component emoji_modifier emoji_modifier_base emoji_presentation".split()):
        emit(f, t, p, boolt("emoji/char/tables/%s.rsv" % p)); t += 1
    emit(f, t, "gc_mark", boolt("ucd/normal/tables/general_category_mark.rsv")); t += 1
    sys.stderr.write("last table id %d\n" % (t - 1))
DT = "Canonical Compat Circle Final Font Fraction Initial Isolated Medial Narrow Nobreak None Small Square Sub Super Vertical Wide".split()
can = {lo: chs(v) for lo, hi, v in rng("ucd/normal/tables/canonical_decomposition_mapping.rsv")}
kom = {lo: (v.split(",")[0].strip("("), chs(v)) for lo, hi, v in rng("ucd/normal/tables/compatibility_decomposition_mapping.rsv")}
assert not set(can) & set(kom)
def seqtab(f, t0, name, maps):
    n = max(len(v) for v in maps.values())
    emit(f, t0, name + ".len", full([(c, c, len(v)) for c, v in maps.items()], 0))
    for k in range(n): emit(f, t0 + 1 + k, "%s.%d" % (name, k), full([(c, c, v[k]) for c, v in maps.items() if len(v) > k], 0))
    sys.stderr.write("%s: tables %d..%d\n" % (name, t0, t0 + n))
comp = rng("ucd/normal/tables/canonical_composition_mapping.rsv")
pairs = {}
for lo, hi, v in comp:
    for a, b in re.findall(r"\('\\u\{(\w+)\}','\\u\{(\w+)\}'\)", v): pairs[(lo, int(a, 16))] = int(b, 16)
with open(OUT + "/norm.tab", "w") as f:
    f.write("# Unicode 10.0.0 reference data. See refgen/.\n")
    f.write("".join(x for x in re.split(r"(?m)^(?=T )", open(OUT + "/ucd.tab").read())[1:] if x.split()[1] in ("1", "10", "36")))
    seqtab(f, 100, "dmc", can)      # single-step canonical mapping
    seqtab(f, 110, "dmk", {k: v[1] for k, v in kom.items()})
    emit(f, 130, "dt", full([(c, c, DT.index("Canonical")) for c in can] + [(c, c, DT.index(v[0])) for c, v in kom.items()] + [(0xAC00, 0xD7A3, DT.index("Canonical"))], DT.index("None")))
    def dec(c, k):
        if 0xAC00 <= c <= 0xD7A3:
            s = c - 0xAC00; r = [0x1100 + s // 588, 0x1161 + s % 588 // 28]
            return r + ([0x11A7 + s % 28] if s % 28 else [])
        m = can.get(c) or (k and c in kom and kom[c][1]) or None
        return [c] if m is None else [y for x in m for y in dec(x, k)]
    seqtab(f, 140, "nfd", {c: dec(c, False) for c in can})          # full canonical decomposition, no Hangul
    seqtab(f, 150, "nfkd", {c: dec(c, True) for c in list(can) + list(kom)})
    # Composition is the inverse of the canonical pairs; excluded are singletons and Full_Composition_Exclusion.
    emit(f, 170, "fce", full([(c, c, 1) for c in can if len(can[c]) == 1 or pairs.get(tuple(can[c])) != c], 0))
    # composition: class of first (index), class of second (index); table for the pair is in pairs.txt
    A = sorted({a for a, b in pairs}); B = sorted({b for a, b in pairs})
    emit(f, 171, "pair1", full([(a, a, i + 1) for i, a in enumerate(A)], 0))
    emit(f, 172, "pair2", full([(b, b, i + 1) for i, b in enumerate(B)], 0))
    for i, a in enumerate(A): emit(f, 1001 + i, "with %X" % a, full([(y, y, r) for (x, y), r in pairs.items() if x == a], 0))
assert all(can.get(c) == list(p) for p, c in pairs.items())
open(OUT + "/pairs.txt", "w").write("".join("%X %X %X\n" % (a, b, c) for (a, b), c in sorted(pairs.items())))
sys.stderr.write("%d pairs, %d firsts, %d seconds\n" % (len(pairs), len(A), len(B)))
ID = "Valid Ignored Mapped Deviation Disallowed DisallowedStd3Valid DisallowedStd3Mapped".split()
it = []; mp = []
for lo, hi, v in rng("idna/mapping/tables/idna_mapping.rsv"):
    k = v.split("(")[0]; s = re.search(r'"(.*)"', v); 
    it.append((lo, hi, ID.index(k)))
    if s: mp.append((lo, hi, [int(x, 16) for x in re.findall(r"\\u\{(\w+)\}", s[1])] if "\\u" in s[1] or not s[1] else [ord(x) for x in s[1]]))
from itertools import groupby
with open(OUT + "/idna.tab", "w") as f:
    f.write("# UTS #46 10.0.0 mapping table. See refgen/.\n")
    emit(f, 200, "status", full(it, ID.index("Disallowed")))
    n = max(len(m) for _, _, m in mp)
    emit(f, 201, "map.len", full([(lo, hi, len(m)) for lo, hi, m in mp], 0))
    for k in range(n): emit(f, 202 + k, "map.%d" % k, full([(lo, hi, m[k]) for lo, hi, m in mp if len(m) > k], 0))
    sys.stderr.write("idna map up to %d chars\n" % n)
