#!/usr/bin/env python3
"""Writes refs/names.tab: FNV-1a hashes of the Unicode 10.0 character names, from Python's unicodedata (an independent
database; names never change, characters are restricted to those with Age <= 10 by refs/ucd.tab), and of the name
aliases, from the pinned commit's .rsv data (compared by refgen/validate.pl with Perl's Name_Alias property).
usage: names.py REPO REFS"""
import sys, re, os, unicodedata
R, OUT = sys.argv[1:3]
def fnv(b):
    h = 0x811C9DC5
    for x in b: h = (h ^ x) * 0x01000193 & 0xFFFFFFFF
    return h
def emit(f, tid, name, d):
    f.write("T %d 32 %s\n" % (tid, name))
    inv = {}
    for c, v in d.items(): inv.setdefault(v, []).append(c)
    rest = []
    at = 0
    for c in sorted(d):
        if c > at: rest.append((at, c - 1))
        at = c + 1
    if at <= 0x10FFFF: rest.append((at, 0x10FFFF))
    assert 0 not in inv
    f.write("0:%s\n" % "".join(" %X-%X" % x for x in rest))
    for v in sorted(inv):
        m = []
        for c in sorted(inv[v]):
            if m and m[-1][1] == c - 1: m[-1][1] = c
            else: m.append([c, c])
        f.write("%d:%s\n" % (v, "".join(" %X-%X" % tuple(x) if x[0] != x[1] else " %X" % x[0] for x in m)))
age = {}; on = False
for l in open(OUT + "/ucd.tab"):
    if l.startswith("T "): on = l.split()[1] == "8"; continue
    if on and not l.startswith("0:"):
        for q in l.split(":")[1].split():
            a, _, b = q.partition("-")
            for c in range(int(a, 16), int(b or a, 16) + 1): age[c] = 1
PRE = ["CJK UNIFIED IDEOGRAPH-", "TANGUT IDEOGRAPH-", "NUSHU CHARACTER-", "CJK COMPATIBILITY IDEOGRAPH-"]
kind = {}; hashes = {}; lens = {}
for c in age:
    n = unicodedata.name(chr(c), None) if not 0xD800 <= c <= 0xDFFF else None
    if 0x17000 <= c <= 0x187EC: n = PRE[1] + "%X" % c  # UnicodeData.txt range; Python has no Tangut names
    if n is None: continue
    for i, p in enumerate(PRE):
        if n == p + "%X" % c: kind[c] = i + 2
    if c not in kind:
        kind[c] = 1; hashes[c] = fnv(n.encode()) or 1; lens[c] = len(n)
assert len(set(hashes.values())) > len(hashes) - 3
with open(OUT + "/names.tab", "w") as f:
    f.write("# Unicode 10.0.0 names and aliases. See refgen/names.py.\n")
    emit(f, 300, "name kind", kind); emit(f, 301, "name hash", hashes); emit(f, 302, "name length", lens)
    for t, p in enumerate(("corrections", "controls", "alternates", "figments", "abbreviations")):
        d = {}
        for l in open(os.path.join(R, "unic/ucd/name_aliases/tables/%s.rsv" % p)):
            m = re.match(r"\s+\('\\u\{(\w+)\}', &\[(.*)\]\),$", l)
            if m: d[int(m[1], 16)] = fnv("".join(x + ";" for x in re.findall(r'"([^"]*)"', m[2])).encode()) or 1
        assert d
        emit(f, 310 + t, "alias " + p, d)
print(len(kind), len(hashes))
