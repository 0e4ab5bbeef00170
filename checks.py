"""What each check runs: harness group, entry points per tier, bounds, reference tables."""
DEFAULT_SUMMARY = ["^unic_.*::of$"]
NS = 1112064  # Unicode scalar values
ASSUME = ["rustc 1.82 and LLVM 18/19 compile the crate correctly up to the emitted IR (the IR executed is -C opt-level=0 + fat LTO + the executor's own clean-up passes; overflow and debug assertions on)",
          "the executor's semantics of LLVM IR (cross-checked by replaying sampled paths natively on every run)",
          "z3"]
def E(bounds, covers=(1,), volume=None): return {"bounds": bounds, "covers": list(covers), "volume": volume}
def chars(n, what, mult=1): return E("every sequence of %d scalar values (all %d^%d)%s" % (n, NS, n, what), volume=mult and mult * float(NS) ** n)
CHECKS = {}
ONE = chars(1, "")
def ucd(quick, refs="ucd.tab", summary=[], **kw): return dict({"group": "ucd", "quick": quick, "refs": refs, "summary": summary}, **kw)
def each(names, spec=ONE): return {n: spec for n in names.split()}
FIN = E("finite: all values of the type")
CHECKS["C06"] = {"parts": [ucd({"h_c06_class": ONE, "h_c06_notation": E("every scalar value, given by its hexadecimal digits", volume=float(NS))})], "outside": "nothing"}
CHECKS["U01"] = {"parts": [ucd({"h_u01": ONE, "h_u01_groups": E("each of the 30 categories")})], "outside": "nothing"}
CHECKS["U02"] = {"parts": [ucd(each("h_u02_gcb h_u02_wb h_u02_sb h_u02_default"))], "outside": "nothing"}
CHECKS["U03"] = {"parts": [ucd({"h_u03_class": ONE, "h_u03_groups": E("each of the 23 classes"), "h_u03_bin": ONE}),
                           ucd({"h_u03_str1": ONE, "h_u03_str2": chars(2, "")}, summary=DEFAULT_SUMMARY, thorough={"h_u03_str3": chars(3, "")})],
                 "outside": "strings longer than 2 (thorough: 3) characters for the string predicates"}
CHECKS["U04"] = {"parts": [ucd(each("h_u04_cased h_u04_ci h_u04_cwcf h_u04_cwcm h_u04_cwl h_u04_cwt h_u04_cwu h_u04_lower h_u04_upper h_u04_rel"))], "outside": "nothing"}
CHECKS["U05"] = {"parts": [ucd(each("h_u05_idc h_u05_ids h_u05_ps h_u05_pws h_u05_xidc h_u05_xids h_u05_rel"))], "outside": "nothing"}
CHECKS["U06"] = {"parts": [ucd(each("h_u06_alpha h_u06_alnum h_u06_ctl h_u06_num h_u06_ws h_u06_rel"))], "outside": "nothing"}
CHECKS["U07"] = {"parts": [ucd({"h_u07_of": ONE, "h_u07_version": E("every pair and triple of versions with components in 0..=65535"), "h_u07_all": FIN}),
                           ucd({"h_u07_age": chars(2, "")}, summary=DEFAULT_SUMMARY)], "outside": "nothing"}
CHECKS["U08"] = {"parts": [ucd({"h_u08_of": E("every scalar value; membership: every pair of scalar values", [1, 2]), "h_u08_iter": E("finite: the whole list of blocks")})], "outside": "nothing"}
CHECKS["U11"] = {"parts": [ucd({"h_u11_ccc": ONE, "h_u11_map": ONE, "h_u11_mapk": ONE, "h_u11_dt": ONE, "h_u11_nfd": ONE, "h_u11_nfkd": ONE, "h_u11_compose": E("every pair of scalar values", [1, 2])}, refs="norm.tab"),
                           ucd({"h_u11_ccc2": chars(2, "")}, refs="norm.tab", summary=DEFAULT_SUMMARY)],
                 "outside": "nothing"}
CHECKS["U12"] = {"parts": [ucd({"h_u12_compose": E("every pair of scalar values", [1, 2]), "h_u12_decompose": E("every scalar value", [1, 2]), "h_u12_refuse": ONE}, refs=None)], "outside": "nothing"}
CHECKS["U13"] = {"parts": [ucd(each("h_u13_emoji h_u13_comp h_u13_mod h_u13_base h_u13_pres"))], "outside": "nothing"}

PAIR = E("every pair of ends (all %d^2)" % NS)
def grp(g, quick, refs=None, summary=[], **kw): return dict({"group": g, "quick": quick, "refs": refs, "summary": summary}, **kw)
CHECKS["C01"] = {"parts": [grp("chr", {"h_c01_fwd": E("every pair of ends, every character; one step from an arbitrary state (induction over histories)", [1, 2]), "h_c01_back": E("as h_c01_fwd, from the back", [1, 2]),
                                "h_c01_last": PAIR, "h_c01_count": E("every range of at most 5 characters"), "h_c01_mix3": E("every pair of ends, every mix of 3 front/back calls")},
                               thorough={"h_c01_mix5": E("every pair of ends, every mix of 5 front/back calls")})],
                 "outside": "count/nth/rev on ranges of more than 5 characters (they are the standard library's loops over the steps decided for every state)"}
CHECKS["C02"] = {"parts": [grp("chr", {"h_c02_ctor": E("every constructor, every pair of ends and every character"), "h_c02_bound": E("every pair of bounds and every character"), "h_c02_eq": E("every pair of ranges"), "h_c02_cmp_empty": E("every range and character", [1, 2])})],
                 "outside": "nothing"}
CHECKS["C03"] = {"parts": [grp("par", {"h_c03_0": PAIR, "h_c03_1": E("every pair of ends, every split position, both halves: lengths and up to 3 elements from either end"), "h_c03_at": E("every pair of ends, every position: the element there")},
                               thorough={"h_c03_2": E("every pair of ends, two successive splits anywhere")})],
                 "outside": "rayon's own scheduler and consumers (assumed to use the producer interface as documented)", "limit": {"thorough": 3000}}
CHECKS["C04"] = {"parts": [grp("chr", {"h_c04_direct": E("direct tables of 0 to 7 rows with arbitrary increasing keys, every character"), "h_c04_range": E("range tables of 0 to 4 rows with arbitrary disjoint increasing ranges, every character", [1, 2])},
                               thorough={"h_c04_direct16": E("direct tables of 8 to 16 rows"), "h_c04_range8": E("range tables of 5 to 8 rows", [1, 2])})],
                 "outside": "larger tables (the library's own tables are decided row by row in U01 to U13)"}
KINDS = "gc bc gcb wb sb dt".split()
CHECKS["C05"] = {"parts": [grp("chr", dict([("h_c05_" + k, E("every value, both names, every mixture of letter cases")) for k in KINDS] + [("h_c05_%s_s" % k, E("every ASCII string of up to 4 bytes", [1, 2])) for k in KINDS]
                                           + [("h_c05_%s_n" % k, E("every name with one byte replaced by, preceded by or followed by any ASCII byte, with one byte dropped, or with one letter replaced by any two-byte character", [1, 2])) for k in KINDS]
                                           + [("h_c05_bool1", E("every ASCII string of up to 5 bytes", [1, 2])), ("h_c05_bool2", E("every ASCII string of up to 5 bytes", [1, 2])), ("h_c05_props", E("finite"))]))],
                 "outside": "rejection of strings of 5 or more bytes that differ from every name by more than one edit"}
CHECKS["U09"] = {"parts": [grp("name", {"h_u09_of": E("every scalar value", [1, 2, 3, 4], volume=float(NS)), "h_u09_hangul": E("every Hangul syllable", volume=11172.0), "h_u09_ideo": E("every ideograph, Tangut and Nushu character, by code point digits", volume=95405.0)}, refs="names.tab")],
                 "outside": "nothing", "assumptions": ["names are compared by length and 32-bit FNV-1a hash (no two names of the reference collide)"]}
CHECKS["U10"] = {"parts": [grp("name", {n: E("every scalar value", [1, 2] if n != "h_u10_types" else [1], volume=float(NS)) for n in "h_u10_corr h_u10_ctl h_u10_alt h_u10_fig h_u10_abbr h_u10_types".split()}, refs="names.tab")],
                 "outside": "nothing", "assumptions": ["alias lists are compared by 32-bit FNV-1a hash of the list"]}

def seg(quick, **kw): return dict({"group": "seg", "quick": quick, "refs": "ucd.tab", "summary": DEFAULT_SUMMARY}, **kw)
def fam(n, k, what): return E("every sequence of %d characters, each from one of %d single-class ranges (%s)" % (n, k, what))
GE, GF, WE, WF, WQ, WL, ALLG, ALLW = (7, "letter, Extend, ZWJ, E_Base, E_Modifier, E_Base_GAZ, Prepend"), (5, "letter, Extend, Regional_Indicator, LF, Prepend"), (8, "letter, Extend, Format, ZWJ, E_Base, E_Modifier, Glue_After_Zwj, E_Base_GAZ"), (5, "letter, Extend, ZWJ, Regional_Indicator, LF"), (7, "ALetter, Hebrew_Letter, Single_Quote, Double_Quote, MidNumLet, Numeric, Extend"), (13, "all classes but the emoji, flag and newline ones"), (18, "one per Grapheme_Cluster_Break value"), (22, "one per Word_Break value")
CHECKS["S01"] = {"parts": [seg({"s01_ext_2": chars(2, ""), "s01_ext_3": chars(3, ""), "s01_ext_4": chars(4, ""), "s01_leg_4": chars(4, ""), "s01_emoji_6": fam(6, *GE), "s01_flags_7": fam(7, *GF)},
                               thorough={"s01_ext_5": chars(5, ""), "s01_emoji_7": fam(7, *GE), "s01_flags_9": fam(9, *GF)})],
                 "outside": "strings longer than 4 (thorough: 5) characters, except those of the stated ranges"}
CHECKS["S02"] = {"parts": [seg({"s02_mix_2": chars(2, ", every interleaving", None), "s02_mix_3": chars(3, ", every interleaving", None), "s02_emoji_5": fam(5, *GE), "s02_flags_6": fam(6, *GF)},
                               thorough={"s02_mix_4": chars(4, ", every interleaving", None), "s02_emoji_6": fam(6, *GE), "s02_flags_8": fam(8, *GF)})],
                 "outside": "strings longer than 3 (thorough: 4) characters, except those of the stated ranges"}
CHECKS["S03"] = {"parts": [seg({"s03_is_2": chars(2, ", every cut and position", 12), "s03_is_3": chars(3, ", every cut and position", 32), "s03_next_3": chars(3, ", every cut and start", 32), "s03_prev_3": chars(3, ", every cut and start", 32),
                                "s03_is_emoji_4": fam(4, *GE), "s03_next_flags_5": fam(5, *GF), "s03_prev_flags_5": fam(5, *GF), "s03_next_emoji_4": fam(4, *GE), "s03_prev_emoji_4": fam(4, *GE),
                                "s03_mix_all_2": fam(2, *ALLG), "s03_mix_flags_2": fam(2, *GF), "s03_mix_emoji_3": fam(3, *GE)},
                               thorough={"s03_is_all_4": fam(4, *ALLG), "s03_next_emoji_5": fam(5, *GE), "s03_prev_emoji_5": fam(5, *GE), "s03_mix_flags_3": fam(3, *GF), "s03_next_all_4": fam(4, *ALLG), "s03_prev_all_4": fam(4, *ALLG), "s03_is_emoji_5": fam(5, *GE), "s03_next_flags_6": fam(6, *GF), "s03_prev_flags_6": fam(6, *GF), "s03_mix_flags_4": fam(4, *GF), "s03_mix_emoji_4": fam(4, *GE)})],
                 "outside": "strings longer than 3 characters, except those of the stated ranges; sequences of more than 3 calls of mixed kinds; context given in pieces other than the chunks; a query abandoned without repositioning"}
CHECKS["S04"] = {"parts": [seg({"s04_fwd_2": chars(2, ""), "s04_fwd_3": chars(3, ""), "s04_fwd_4": chars(4, ", forwards"), "s04_bwd_3": chars(3, ""), "s04_bwd_4": chars(4, ", backwards"),
                                "s04_letters_5": fam(5, *WL), "s04_quotes_6": fam(6, *WQ), "s04_emoji_6": fam(6, *WE), "s04_flags_7": fam(7, *WF)},
                               thorough={"s04_fwd_5": chars(5, ", forwards"), "s04_bwd_5": chars(5, ", backwards"), "s04_quotes_7": fam(7, *WQ), "s04_emoji_7": fam(7, *WE), "s04_flags_9": fam(9, *WF)})],
                 "outside": "strings longer than 4 (thorough: 5) characters, except those of the stated ranges"}
CHECKS["S05"] = {"parts": [seg({"s05_mix_2": chars(2, ", every interleaving", None), "s05_mix_3": chars(3, ", every interleaving", None), "s05_mix_all_4": fam(4, *ALLW), "s05_quotes_5": fam(5, *WQ), "s05_emoji_5": fam(5, *WE), "s05_flags_6": fam(6, *WF),
                                "s05_filter_3": chars(3, ""), "s05_filter_all_4": fam(4, *ALLW)},
                               thorough={"s05_letters_5": fam(5, *WL), "s05_quotes_6": fam(6, *WQ), "s05_emoji_6": fam(6, *WE), "s05_flags_8": fam(8, *WF)})],
                 "outside": "strings longer than 3 characters, except those of the stated ranges; filters other than the one tried"}

def norm(quick, **kw): return dict({"group": "norm", "quick": quick, "refs": "norm.tab", "summary": DEFAULT_SUMMARY}, **kw)
NM, NS_, NX, N6 = (9, "letters, marks of six combining classes, precomposed letters, a mark that decomposes"), (9, "jamo, syllables, Bengali starters that compose, marks, a letter"), (9, "composition exclusions, singletons, non-starter decompositions, compatibility forms"), (5, "a letter and marks of four classes")
ANYM = "every character next to every character of 9 ranges (%s)"
CHECKS["N01"] = {"parts": [norm({"n01_d_1": ONE, "n01_kd_1": ONE, "n01_d_marks_3": fam(3, *NM), "n01_d_marks_4": fam(4, *NM), "n01_d_marks_5": fam(5, *NM), "n01_kd_special_3": fam(3, *NX), "n01_d_special_4": fam(4, *NX), "n01_d_six": fam(6, *N6), "n01_hint_2": E(fam(2, *NM)["bounds"] + ", any size hint")},
                                thorough={"n01_d_2": chars(2, ""), "n01_hint_1": E("every character, any size hint"), "n01_kd_special_4": fam(4, *NX), "n01_kd_any_marks": E(ANYM % NM[1]), "n01_kd_marks_any": E(ANYM % NM[1])})],
                 "outside": "texts of two or more characters outside the stated ranges (thorough: NFD of any two characters is inside)"}
CHECKS["N02"] = {"parts": [norm({"n02_c_1": ONE, "n02_kc_1": ONE, "n02_c_marks_3": fam(3, *NM), "n02_c_marks_4": fam(4, *NM), "n02_c_starters_3": fam(3, *NS_), "n02_c_starters_4": fam(4, *NS_), "n02_c_starters_5": fam(5, *NS_), "n02_kc_special_3": fam(3, *NX), "n02_c_special_4": fam(4, *NX), "n02_c_six": fam(6, *N6), "n02_hint_2": E(fam(2, *NM)["bounds"] + ", any size hint")},
                                thorough={"n02_c_marks_5": fam(5, *NM), "n02_kc_special_4": fam(4, *NX), "n02_c_any_marks": E(ANYM % NM[1]), "n02_c_marks_any": E(ANYM % NM[1]), "n02_c_any_starters": E(ANYM % NS_[1]), "n02_c_starters_any": E(ANYM % NS_[1]), "n02_kc_any_marks": E(ANYM % NM[1])})],
                 "outside": "texts of two or more characters outside the stated ranges"}
CHECKS["N03"] = {"parts": [norm({"n03_rel_1": E("every scalar value, every pair of forms"), "n03_rel_marks_2": fam(2, *NM), "n03_rel_marks_3": fam(3, *NM), "n03_rel_starters_3": fam(3, *NS_), "n03_rel_special_2": fam(2, *NX), "n03_rel_special_3": fam(3, *NX), "n03_ascii_4": E("every ASCII text of 4 characters, every form", volume=4 * 128.0 ** 4)},
                                thorough={"n03_rel_marks_4": fam(4, *NM), "n03_ascii_5": E("every ASCII text of 5 characters, every form", volume=4 * 128.0 ** 5)})],
                 "outside": "longer texts; texts of two or more characters outside the stated ranges"}

def bidi(quick, **kw): return dict({"group": "bidi", "quick": quick, "refs": "ucd.tab", "summary": DEFAULT_SUMMARY}, **kw)
DIR = ", automatic, left-to-right and right-to-left"
def bf(n, k, what): return E(fam(n, k, what)["bounds"] + DIR)
def bc(n): return E(chars(n, "")["bounds"] + DIR, volume=3 * float(NS) ** n)
BCTL, BISO, BEMB = (11, "letters and every embedding, override and isolate control"), (8, "letters, isolate controls, RLE, a neutral"), (8, "letters, embedding and override controls, a neutral")
BALL, BWIDE, BWEAK, BWBN, BNEUT, BSEQ, BPARA = (23, "one per Bidi_Class value"), (14, "one per class, written with another number of bytes"), (11, "strong and weak classes, separators of one and three bytes"), (9, "weak classes with BN, wide separators and a space"), (8, "letters, numbers, neutrals, BN, RLI"), (7, "letter, digit, neutral, LRI, RLI, PDI, BN"), (8, "letters, paragraph separators, isolate controls, RLE")
def deep(n): return E("the 7 patterns of embeddings, overrides and isolates nested to 2 below to 2 above the depth limit, %s, up to 3 closers, two letters; both directions" % ("any character of 11 ranges" if n == 1 else "any %d characters of 11 ranges" % n))
def ln(n, what): return E("%s of %d characters, paragraph levels 0 and 1, every line inside" % (what, n))
CHECKS["B01"] = {"parts": [bidi({"b01_ctl_3": bf(3, *BCTL), "b01_ctl_4": bf(4, *BCTL), "b01_iso_5": bf(5, *BISO), "b01_emb_5": bf(5, *BEMB), "b01_deep_1": deep(1), "b01_deep_2": deep(2)},
                                thorough={"b01_ctl_5": bf(5, *BCTL), "b01_iso_6": bf(6, *BISO), "b01_emb_6": bf(6, *BEMB), "b01_deep_3": deep(3)})],
                 "outside": "longer texts other than the nested ones; requested paragraph levels above 1", "assumptions": ["explicit levels and overrides are observed through the resolved levels they lead to"]}
CHECKS["B02"] = {"parts": [bidi({"b02_any_1": bc(1), "b02_any_2": bc(2), "b02_any_3": bc(3), "b02_all_4": bf(4, *BALL), "b02_wide_3": bf(3, *BWIDE), "b02_wide_4": bf(4, *BWIDE), "b02_weak_4": bf(4, *BWEAK), "b02_weak_5": bf(5, *BWEAK), "b02_weakbn_5": bf(5, *BWBN), "b02_neut_5": bf(5, *BNEUT), "b02_seq_6": bf(6, *BSEQ)},
                                thorough={"b02_weak_6": bf(6, *BWEAK), "b02_weakbn_6": bf(6, *BWBN), "b02_neut_6": bf(6, *BNEUT), "b02_seq_7": bf(7, *BSEQ)})],
                 "outside": "texts longer than 3 characters, except those of the stated ranges; rule N0 (documented as not implemented); requested paragraph levels above 1", "assumptions": ["W1 looks at the class a character has after overrides, as the reference implementations do"]}
CHECKS["B03"] = {"parts": [bidi({"b03_low_3": ln(3, "letters, white space, separators, isolate controls and removed characters with any levels 0 to 3,"), "b03_shape_4": ln(4, "letters with any levels 0 to 4,"), "b03_high_3": ln(3, "letters and spaces with any levels of 0, 1, 124, 125 and 126,"), "b03_every_2": ln(2, "letters with any levels 0 to 126,")},
                                thorough={"b03_low_4": ln(4, "letter, space, separator, isolate control, BN with any levels 0 to 2,"), "b03_four_4": ln(4, "letters, white space, separators, isolate controls and removed characters with any levels 0 to 3,"), "b03_shape_5": ln(5, "letters with any levels 0 to 4,"), "b03_space_4": ln(4, "letters, white space, separators, isolate controls and removed characters with alternating levels 0 to 2,"), "b03_space_5": ln(5, "letter, space, separator, isolate control, BN with alternating levels 0 to 2,")})],
                 "outside": "empty lines; lines that span paragraphs; lines of more characters; whether characters removed by X9 inside trailing white space are reset"}
CHECKS["B04"] = {"parts": [bidi({"b04_any_2": bc(2), "b04_all_3": bf(3, *BALL), "b04_para_4": bf(4, *BPARA), "b04_para_5": bf(5, *BPARA)}, thorough={"b04_any_3": bc(3), "b04_para_6": bf(6, *BPARA)})],
                 "outside": "texts longer than 2 (thorough: 3) characters, except those of the stated ranges; requested paragraph levels above 1"}
CHECKS["B05"] = {"parts": [bidi({"b05_level": E("every number 0 to 255, every amount 0 to 255", [1]), "b05_pairs": E("every pair of levels"), "b05_from": E("every number above 126"), "b05_str": E("every level, every ASCII string of up to 3 bytes", [1, 2])})],
                 "outside": "deserialization (feature off by default)"}

def idna(quick, **kw): return dict({"group": "idna", "quick": quick, "refs": "norm.tab+idna.tab+ucd.tab", "summary": DEFAULT_SUMMARY}, **kw)
FL, FL2 = ", all 8 flag settings", ", STD3 rules and length check on or off against transitional processing"
def nm(n): return E("every name of %d characters of 15 ranges (one per mapping status, and what the validity criteria look at)%s" % (n, FL), [1, 2])
def bn(n): return E("every name of %d characters, one per Bidi_Class the Bidi rule tells apart, with separators, a mapped and a deviation character%s" % (n, FL), [1, 2])
def ac(n, w=ALLG): return E("xn-- followed by any %d of letters of either case, digits, hyphen and a non-ASCII letter%s" % (n, FL), [1, 2])
def dec(b, n=None): return E(b, [1, 2], n)
A62, A37 = "letters of either case, digits, hyphen, a non-ASCII letter", "lower-case letters, digits, hyphen"
CHECKS["I01"] = {"parts": [idna({"i01_1": ONE, "i01_pair": E("every two characters of U+0080..017F"), "i01_pair_far": E("U+0080..00FF next to U+4E00..4E7F, both orders"), "i01_small_3": fam(3, 3, "ASCII letters, Latin-1, Cyrillic"),
                                 "i01_long": E("3860 ASCII letters after any character of U+10F000..10FFFF (where the counter runs over)", [1, 2]), "i01_long_last": E("3860 ASCII letters before any character of U+10F9C0..10F9DF (where the counter runs over)", [1, 2])},
                                thorough={"i01_small_4": fam(4, 5, "hyphen, letter, U+E8..E9, U+4E00, U+10FFFF")})],
                 "outside": "texts of two or more characters outside the stated ranges"}
CHECKS["I02"] = {"parts": [idna({"i02_any_1": dec(chars(1, "")["bounds"], float(NS)), "i02_any_2": dec(chars(2, "")["bounds"]), "i02_any_3": dec(chars(3, "")["bounds"]), "i02_ace_3": dec("every 3 of " + A62), "i02_digits_3": dec("every 3 of " + A37)})],
                 "outside": "strings of more than 3 characters"}
CHECKS["I03"] = {"parts": [idna({"i03_mapping": ONE}, summary=[])], "outside": "nothing"}
CHECKS["I04"] = {"parts": [idna({"i04_latin_1": E("every character below U+0100" + FL2, [1, 2, 3]), "i04_name_2": E(nm(2)["bounds"], [1, 2, 3]), "i04_bidi_3": E(bn(3)["bounds"], [1, 2, 3]), "i04_ace_2": ac(2), "i04_ace_ace": E("xn--, two letters, digits or hyphens, xn---: labels that decode to ACE labels" + FL, [2]),
                                 "i04_plain_3": E("every name of 3 lower-case ASCII letters a to w, digits, hyphens and dots, with every mixture of cases" + FL, [1, 2]), "i04_lengths": E("names of up to 4 labels of 62 to 64 characters and one of 0, 1 or 60 to 64, with and without the final dot", [1, 2])},
                                thorough={"i04_low_1": E("every character below U+0800" + FL2, [1, 2, 3]), "i04_any_1": E("every character" + FL2, [1, 2, 3]), "i04_name_3": E(nm(3)["bounds"], [1, 2, 3]), "i04_bidi_4": E(bn(4)["bounds"], [1, 2, 3])})],
                 "outside": "longer names; names of two or more characters outside the stated ranges", "assumptions": ["ContextJ rules and the ban on hyphens in positions 3 and 4 are documented as not implemented and left out, except that a decoded label may not start with xn--"]}
CHECKS["I05"] = {"parts": [idna({"i05_any_1": E("every character" + FL2, [1, 2]), "i05_name_2": nm(2), "i05_name_3": nm(3), "i05_bidi_3": bn(3), "i05_bidi_4": bn(4), "i05_ace_2": ac(2)},
                                thorough={"i05_any_1_flags": E("every character" + FL, [1, 2]), "i05_name_4": nm(4), "i05_bidi_5": bn(5)})],
                 "outside": "longer names; names of two or more characters outside the stated ranges; the text returned next to an error", "assumptions": CHECKS["I04"]["assumptions"]}

NOT_APPLICABLE = {
    "G01": "the tools are argument parsing (clap), regular expressions and terminal I/O around library calls: whole-program runs over heap-backed string formatting that the executor cannot encode within reach; the library calls they print are covered by the other properties",
    "G02": "the generator reads the Unicode data files, which are absent from this sandbox (the data submodule is not checked out), through regex, Tera-like formatting and file I/O; its committed output (the tables) is what properties U01-U13, I03 decide",
}
