use crate::codes;
use crate::sym::*;
use unic_ucd_category::GeneralCategory as GC;
use unic_char_property::{PartialCharProperty, TotalCharProperty};

fn in_group(code: u32, lo: u32, hi: u32) -> bool { code >= lo && code <= hi }

fn u01() {
    let c = any_char();
    let want = reft(1, c);
    let g = GC::of(c);
    let code = codes::gc::code(g);
    check(code == want, 1);
    check(<GC as TotalCharProperty>::of(c) == g, 2);
    check(GC::default() == GC::Unassigned, 3);
    cover(1);
}
fn u01_groups() {
    let i = choose(0, 29);
    let g = codes::gc::all()[i as usize].0;
    check(codes::gc::code(g) == i, 1);
    check(g.is_cased_letter() == in_group(i, 0, 2), 2);
    check(g.is_letter() == in_group(i, 0, 4), 3);
    check(g.is_mark() == in_group(i, 5, 7), 4);
    check(g.is_number() == in_group(i, 8, 10), 5);
    check(g.is_punctuation() == in_group(i, 11, 17), 6);
    check(g.is_symbol() == in_group(i, 18, 21), 7);
    check(g.is_separator() == in_group(i, 22, 24), 8);
    check(g.is_other() == in_group(i, 25, 29), 9);
    cover(1);
}
fn u02_gcb() { let c = any_char(); check(codes::gcb::code(unic_ucd_segment::GraphemeClusterBreak::of(c)) == reft(2, c), 1); cover(1); }
fn u02_wb() { let c = any_char(); check(codes::wb::code(unic_ucd_segment::WordBreak::of(c)) == reft(3, c), 1); cover(1); }
fn u02_sb() { let c = any_char(); check(codes::sb::code(unic_ucd_segment::SentenceBreak::of(c)) == reft(4, c), 1); cover(1); }
fn u02_default() {
    use unic_ucd_segment::*;
    check(GraphemeClusterBreak::default() == GraphemeClusterBreak::Other, 1);
    check(WordBreak::default() == WordBreak::Other, 2);
    check(SentenceBreak::default() == SentenceBreak::Other, 3);
    let c = any_char();
    check(<GraphemeClusterBreak as TotalCharProperty>::of(c) == GraphemeClusterBreak::of(c), 4);
    check(<WordBreak as TotalCharProperty>::of(c) == WordBreak::of(c), 5);
    check(<SentenceBreak as TotalCharProperty>::of(c) == SentenceBreak::of(c), 6);
    cover(1);
}

use unic_ucd_bidi::{BidiClass, BidiClassCategory, CharBidiClass, StrBidiClass};
fn bidi_ltr(code: u32) -> bool { code == 0 || code == 14 || code == 15 || code == 19 }
fn bidi_rtl(code: u32) -> bool { code == 1 || code == 2 || code == 16 || code == 17 || code == 20 }
fn u03_class() {
    let c = any_char();
    let b = BidiClass::of(c);
    let want = reft(5, c);
    check(codes::bc::code(b) == want, 1);
    check(c.bidi_class() == b, 2);
    check(c.is_ltr() == bidi_ltr(want), 3);
    check(c.is_rtl() == bidi_rtl(want), 4);
    check(<BidiClass as TotalCharProperty>::of(c) == b, 5);
    cover(1);
}
fn u03_groups() {
    let i = choose(0, 22);
    let b = codes::bc::all()[i as usize].0;
    check(codes::bc::code(b) == i, 1);
    let cat = if i <= 2 { BidiClassCategory::Strong } else if i <= 9 { BidiClassCategory::Weak } else if i <= 13 { BidiClassCategory::Neutral } else { BidiClassCategory::ExplicitFormatting };
    check(b.category() == cat, 2);
    check(b.is_ltr() == bidi_ltr(i), 3);
    check(b.is_rtl() == bidi_rtl(i), 4);
    check(BidiClass::default() == BidiClass::LeftToRight, 5);
    cover(1);
}
fn u03_str(n: usize) {
    let v = any_chars(n);
    let s = to_string(&v);
    let (mut l, mut r, mut e) = (false, false, false);
    for &c in &v { let k = reft(5, c); l |= bidi_ltr(k); r |= bidi_rtl(k); e |= k >= 14; }
    check(s.has_ltr() == l, 1);
    check(s.has_rtl() == r, 2);
    check(s.has_bidi_explicit() == e, 3);
    cover(1);
}
fn u03_bin() {
    let c = any_char();
    let m = reft(6, c) == 1;
    check(unic_ucd_bidi::is_bidi_mirrored(c) == m, 1);
    check(unic_ucd_bidi::BidiMirrored::of(c).as_bool() == m, 2);
    let k = reft(7, c) == 1;
    check(unic_ucd_bidi::is_bidi_control(c) == k, 3);
    check(unic_ucd_bidi::BidiControl::of(c).as_bool() == k, 4);
    cover(1);
}

macro_rules! binary { ($name:ident, $t:ty, $f:path, $tab:expr) => {
    fn $name() {
        let c = any_char();
        let w = reft($tab, c) == 1;
        check($f(c) == w, 1);
        check(<$t>::of(c).as_bool() == w, 2);
        check(<$t as TotalCharProperty>::of(c).as_bool() == w, 3);
        cover(1);
    }
} }
use unic_ucd_case as case;
binary!(u04_cased, case::Cased, case::is_cased, 11);
binary!(u04_ci, case::CaseIgnorable, case::is_case_ignorable, 12);
binary!(u04_cwcf, case::ChangesWhenCasefolded, case::changes_when_casefolded, 13);
binary!(u04_cwcm, case::ChangesWhenCasemapped, case::changes_when_casemapped, 14);
binary!(u04_cwl, case::ChangesWhenLowercased, case::changes_when_lowercased, 15);
binary!(u04_cwt, case::ChangesWhenTitlecased, case::changes_when_titlecased, 16);
binary!(u04_cwu, case::ChangesWhenUppercased, case::changes_when_uppercased, 17);
binary!(u04_lower, case::Lowercase, case::is_lowercase, 18);
binary!(u04_upper, case::Uppercase, case::is_uppercase, 19);
fn u04_rel() {
    let c = any_char();
    // Cased = Lowercase | Uppercase | Lt; CWCM = CWL | CWT | CWU
    check(case::is_cased(c) == (case::is_lowercase(c) || case::is_uppercase(c) || reft(1, c) == 2), 1);
    check(case::changes_when_casemapped(c) == (case::changes_when_lowercased(c) || case::changes_when_titlecased(c) || case::changes_when_uppercased(c)), 2);
    cover(1);
}
use unic_ucd_ident as ident;
binary!(u05_idc, ident::IdContinue, ident::is_id_continue, 20);
binary!(u05_ids, ident::IdStart, ident::is_id_start, 21);
binary!(u05_ps, ident::PatternSyntax, ident::is_pattern_syntax, 22);
binary!(u05_pws, ident::PatternWhitespace, ident::is_pattern_whitespace, 23);
binary!(u05_xidc, ident::XidContinue, ident::is_xid_continue, 24);
binary!(u05_xids, ident::XidStart, ident::is_xid_start, 25);
fn u05_rel() {
    let c = any_char();
    let (xs, xc, s, k) = (ident::is_xid_start(c), ident::is_xid_continue(c), ident::is_id_start(c), ident::is_id_continue(c));
    check(!xs || (s && xc), 1);
    check(!xc || k, 2);
    check(!s || k, 3);
    let (ps, pw) = (ident::is_pattern_syntax(c), ident::is_pattern_whitespace(c));
    check(!(ps && pw), 4);
    // Pattern_Syntax excludes identifier characters; Other_ID_Start U+2E2F is excluded from ID by definition
    check(!((ps || pw) && k), 5);
    cover(1);
}
use unic_ucd_common as com;
binary!(u06_alpha, com::Alphabetic, com::is_alphabetic, 26);
binary!(u06_alnum, com::alphanumeric::Alphanumeric, com::is_alphanumeric, 27);
binary!(u06_ctl, com::control::Control, com::is_control, 28);
binary!(u06_num, com::numeric::Numeric, com::is_numeric, 29);
binary!(u06_ws, com::WhiteSpace, com::is_white_space, 30);
fn u06_rel() {
    let c = any_char();
    let g = reft(1, c);
    check(com::is_alphanumeric(c) == (com::is_alphabetic(c) || com::is_numeric(c)), 1);
    check(com::is_numeric(c) == (g >= 8 && g <= 10), 2);
    check(com::is_control(c) == (g == 25), 3);
    cover(1);
}
use unic_emoji_char as emo;
binary!(u13_emoji, emo::Emoji, emo::is_emoji, 31);
binary!(u13_comp, emo::EmojiComponent, emo::is_emoji_component, 32);
binary!(u13_mod, emo::EmojiModifier, emo::is_emoji_modifier, 33);
binary!(u13_base, emo::EmojiModifierBase, emo::is_emoji_modifier_base, 34);
binary!(u13_pres, emo::EmojiPresentation, emo::is_emoji_presentation, 35);

use unic_ucd_age::{Age, CharAge};
use unic_ucd_version::UnicodeVersion;
fn u07_of() {
    let c = any_char();
    let want = reft(8, c);
    match Age::of(c) {
        None => { check(want == 0, 1); check(c.age().is_none(), 2); cover(1); }
        Some(a) => {
            let v = a.actual();
            check(want == ((v.major as u32) << 8 | v.minor as u32), 3);
            check(v.micro == 0, 4);
            check(c.age() == Some(a), 5);
            check(<Age as PartialCharProperty>::of(c) == Some(a), 6);
            cover(2);
        }
    }
}
use core::cmp::Ordering;
fn any_version() -> UnicodeVersion { UnicodeVersion { major: any_in(0, 255) as u8, minor: any_in(0, 255) as u8, micro: any_in(0, 255) as u8 } }
fn key(v: UnicodeVersion) -> u32 { (v.major as u32) << 16 | (v.minor as u32) << 8 | v.micro as u32 }
fn consistent<T: Ord + Copy>(a: T, b: T, want: Ordering, id: u32) {
    check(a.cmp(&b) == want, id);
    check(a.partial_cmp(&b) == Some(want), id + 1);
    check((a == b) == (want == Ordering::Equal), id + 2);
    check((a != b) == (want != Ordering::Equal), id + 3);
    check((a < b) == (want == Ordering::Less), id + 4);
    check((a > b) == (want == Ordering::Greater), id + 5);
    check((a <= b) == (want != Ordering::Greater), id + 6);
    check((a >= b) == (want != Ordering::Less), id + 7);
}
fn u07_version() {
    let (a, b) = (any_version(), any_version());
    let (x, y) = (key(a), key(b));
    let want = if x < y { Ordering::Less } else if x > y { Ordering::Greater } else { Ordering::Equal };
    consistent(a, b, want, 10);
    let m: UnicodeVersion = (a.major, a.minor, a.micro).into();
    check(m == a, 1);
    cover(1);
}
fn u07_age() {
    let (p, q) = (any_char(), any_char());
    if let (Some(a), Some(b)) = (Age::of(p), Age::of(q)) {
        // an age is greater the earlier the version
        let (x, y) = (key(a.actual()), key(b.actual()));
        let want = if x < y { Ordering::Greater } else if x > y { Ordering::Less } else { Ordering::Equal };
        consistent(a, b, want, 10);
        check(core::cmp::max(a, b) == if want == Ordering::Greater { a } else { b }, 20);
        check(core::cmp::min(a, b) == if want == Ordering::Greater { b } else { a }, 21);
        cover(1);
    }
}
fn u07_all() {
    let v = UnicodeVersion { major: 10, minor: 0, micro: 0 };
    check(unic_ucd_version::UNICODE_VERSION == v, 1);
    check(unic_ucd_age::UNICODE_VERSION == v, 2);
    check(unic_ucd_bidi::UNICODE_VERSION == v, 3);
    check(unic_ucd_block::UNICODE_VERSION == v, 4);
    check(unic_ucd_case::UNICODE_VERSION == v, 5);
    check(unic_ucd_category::UNICODE_VERSION == v, 6);
    check(unic_ucd_common::UNICODE_VERSION == v, 7);
    check(unic_ucd_hangul::UNICODE_VERSION == v, 8);
    check(unic_ucd_ident::UNICODE_VERSION == v, 9);
    check(unic_ucd_normal::UNICODE_VERSION == v, 10);
    check(unic_ucd_segment::UNICODE_VERSION == v, 11);
    cover(1);
}

use unic_ucd_block::{Block, BlockIter};
const BLOCKS: &str = include_str!("../../refs/blocks.txt");
fn u08_of() {
    let c = any_char();
    let want = reft(9, c);
    match Block::of(c) {
        None => { check(want == 0, 1); cover(1); }
        Some(b) => {
            check(want != 0, 2);
            check(b.range.contains(c), 3);
            check(b.range.low <= c && c <= b.range.high, 4);
            let name = BLOCKS.lines().nth(concrete(want) as usize - 1).unwrap_or("?");
            check(name == b.name, 5);
            // the whole range of the block is the block
            let d = any_char();
            check((b.range.low <= d && d <= b.range.high) == (reft(9, d) == want), 6);
            cover(2);
        }
    }
}
fn u08_iter() {
    let mut it = BlockIter::new();
    let mut n = 0u32;
    let mut prev: Option<char> = None;
    let mut names = BLOCKS.lines();
    while let Some(b) = it.next() {
        n += 1;
        check(names.next() == Some(b.name), 1);
        check(b.range.low <= b.range.high, 2);
        if let Some(p) = prev { check(p < b.range.low, 3); }
        prev = Some(b.range.high);
        check(reft(9, b.range.low) == n && reft(9, b.range.high) == n, 4);
        match Block::of(b.range.low) { Some(x) => check(x.name == b.name && x.range == b.range, 5), None => check(false, 6) }
    }
    check(names.next().is_none(), 7);
    check(it.next().is_none(), 8);
    cover(1);
}

use unic_ucd_normal as nrm;
fn u11_ccc() {
    let c = any_char();
    let k = nrm::CanonicalCombiningClass::of(c);
    let want = reft(10, c);
    check(k.number() as u32 == want, 1);
    check(k.is_not_reordered() == (want == 0), 2);
    check(k.is_reordered() == (want != 0), 3);
    check(nrm::is_combining_mark(c) == (reft(36, c) == 1), 4);
    cover(1);
}
fn u11_ccc2() {
    let (c, d) = (any_char(), any_char());
    let (want, w) = (reft(10, c), reft(10, d));
    let k = nrm::CanonicalCombiningClass::of(c);
    let l = nrm::CanonicalCombiningClass::of(d);
    check((k < l) == (want < w) && (k == l) == (want == w), 5);
    cover(1);
}
fn u11_map() {
    let c = any_char();
    match nrm::canonical_decomposition(c) {
        None => { check(reft(100, c) == 0, 1); cover(1); }
        Some(d) => {
            check(d.len() as u32 == reft(100, c), 2);
            for (i, &x) in d.iter().enumerate() { check(x as u32 == reft(101 + i as u32, c), 3); }
            cover(2);
        }
    }
}
fn u11_mapk() {
    let c = any_char();
    match nrm::compatibility_decomposition(c) {
        None => { check(reft(110, c) == 0, 1); cover(1); }
        Some(d) => {
            check(d.len() as u32 == reft(110, c), 2);
            for (i, &x) in d.iter().enumerate() { check(x as u32 == reft(111 + i as u32, c), 3); }
            cover(2);
        }
    }
}
fn u11_dt() {
    let c = any_char();
    let want = reft(130, c);
    match nrm::DecompositionType::of(c) {
        None => { check(want == 11, 1); cover(1); }
        Some(d) => { check(codes::dt::code(d) == want, 2); cover(2); }
    }
}
fn hangul(c: char) -> bool { c >= '\u{AC00}' && c <= '\u{D7A3}' }
/// jamo of a syllable: (l, v, t), t = 0 when there is none
fn jamo(c: char) -> (u32, u32, u32) {
    let s = c as u32 - 0xAC00;
    (0x1100 + s / 588, 0x1161 + s % 588 / 28, if s % 28 == 0 { 0 } else { 0x11A7 + s % 28 })
}
fn u11_full(k: bool) {
    let c = any_char();
    let mut out = [0u32; 20];
    let mut n = 0usize;
    {
        let put = |x: char| { if n < 20 { out[n] = x as u32; } n += 1; };
        if k { nrm::decompose_compatible(c, put) } else { nrm::decompose_canonical(c, put) }
    }
    let t = if k { 150 } else { 140 };
    if hangul(c) {
        let (l, v, tt) = jamo(c);
        check(n == if tt == 0 { 2 } else { 3 }, 1);
        check(out[0] == l && out[1] == v && out[2] == tt, 2);
        cover(1);
    } else {
        let want = reft(t, c);
        if want == 0 { check(n == 1 && out[0] == c as u32, 3); cover(2); }
        else {
            check(n as u32 == want, 4);
            for i in 0..n { check(out[i] == reft(t + 1 + i as u32, c), 5); }
            cover(3);
        }
    }
}
fn u11_compose() {
    let (a, b) = (any_char(), any_char());
    let i = concrete(reft(171, a));
    let r = nrm::compose(a, b);
    let (x, y) = (a as u32, b as u32);
    let want = if x >= 0x1100 && x < 0x1113 && y >= 0x1161 && y < 0x1176 { 0xAC00 + (x - 0x1100) * 588 + (y - 0x1161) * 28 }
        else if hangul(a) && (x - 0xAC00) % 28 == 0 && y > 0x11A7 && y < 0x11C3 { x + (y - 0x11A7) }
        else { if i == 0 { 0 } else { refu(1000 + i, y) } };
    match r {
        None => { check(want == 0, 1); cover(1); }
        Some(c) => { check(c as u32 == want, 2); if i != 0 { check(reft(170, c) == 0, 3); } cover(2); }
    }
}
use unic_ucd_hangul as hg;
fn u12_compose() {
    let (a, b) = (any_char(), any_char());
    let (x, y) = (a as u32, b as u32);
    let want = if x >= 0x1100 && x < 0x1113 && y >= 0x1161 && y < 0x1176 { 0xAC00 + (x - 0x1100) * 588 + (y - 0x1161) * 28 }
        else if hangul(a) && (x - 0xAC00) % 28 == 0 && y > 0x11A7 && y < 0x11C3 { x + (y - 0x11A7) } else { 0 };
    match hg::compose_syllable(a, b) {
        None => { check(want == 0, 1); cover(1); }
        Some(c) => { check(c as u32 == want, 2); check(hangul(c), 3); cover(2); }
    }
}
fn u12_decompose() {
    let c = any_char();
    check(hg::is_syllable(c) == hangul(c), 1);
    if hangul(c) {
        let mut out = ['\0'; 4];
        let mut n = 0usize;
        hg::decompose_syllable(c, &mut |x| { if n < 4 { out[n] = x; } n += 1; });
        let (l, v, t) = jamo(c);
        check(n == if t == 0 { 2 } else { 3 }, 2);
        check(out[0] as u32 == l && out[1] as u32 == v && out[2] as u32 == t, 3);
        // and back
        let lv = hg::compose_syllable(out[0], out[1]);
        match lv {
            None => check(false, 4),
            Some(s) => if n == 2 { check(s == c, 5) } else { check(hg::compose_syllable(s, out[2]) == Some(c), 6) },
        }
        cover(1);
    } else { cover(2); }
}
fn u12_refuse() {
    let c = any_char();
    if !hangul(c) {
        // no panic, no invalid char: nothing, or the character itself, may be reported
        let mut n = 0usize;
        let mut same = true;
        hg::decompose_syllable(c, &mut |x| { if x != c { same = false; } n += 1; });
        check(n == 0 || (n == 1 && same), 1);
        cover(1);
    }
}
use unic_char_basics as basics;
fn c06_class() {
    let c = any_char();
    let x = c as u32;
    check(basics::is_noncharacter(c) == ((x >= 0xFDD0 && x <= 0xFDEF) || x & 0xFFFE == 0xFFFE), 1);
    check(basics::is_private_use(c) == ((x >= 0xE000 && x <= 0xF8FF) || (x >= 0xF0000 && x <= 0xFFFFD) || (x >= 0x100000 && x <= 0x10FFFD)), 2);
    cover(1);
}
struct Sink { b: [u8; 16], n: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &x in s.as_bytes() { if self.n < 16 { self.b[self.n] = x; } self.n += 1; }
        Ok(())
    }
}
/// Any scalar value, given by its six hexadecimal digits (most significant first).
fn any_digits() -> [u32; 6] {
    let mut d = [0; 6];
    for i in 0..6 { d[i] = any_in(0, if i == 0 { 1 } else { 15 }); }
    if d[0] == 1 { assume(d[1] == 0); } else if d[1] == 0 && d[2] == 13 { assume(d[3] < 8); }
    d
}
fn c06_notation() {
    let d = any_digits();
    let mut x = 0;
    for i in 0..6 { x = x << 4 | d[i]; }
    let c = unsafe { char::from_u32_unchecked(x) };
    let mut s = Sink { b: [0; 16], n: 0 };
    let r = core::fmt::Write::write_fmt(&mut s, format_args!("{}", basics::unicode_notation(c)));
    check(r.is_ok(), 1);
    let n = if d[0] != 0 { 6 } else if d[1] != 0 { 5 } else { 4 };
    check(s.n == 2 + n, 2);
    check(s.b[0] == b'U' && s.b[1] == b'+', 3);
    for i in 0..n {
        let h = d[6 - n + i];
        let want = if h < 10 { b'0' + h as u8 } else { b'A' + (h - 10) as u8 };
        check(s.b[2 + i] == want, 4);
    }
    cover(1);
}

harness! {
    fn h_u01() { u01() }
    fn h_u01_groups() { u01_groups() }
    fn h_u02_gcb() { u02_gcb() }
    fn h_u02_wb() { u02_wb() }
    fn h_u02_sb() { u02_sb() }
    fn h_u02_default() { u02_default() }
    fn h_u03_class() { u03_class() }
    fn h_u03_groups() { u03_groups() }
    fn h_u03_str1() { u03_str(1) }
    fn h_u03_str2() { u03_str(2) }
    fn h_u03_str3() { u03_str(3) }
    fn h_u03_bin() { u03_bin() }
    fn h_u04_cased() { u04_cased() }
    fn h_u04_ci() { u04_ci() }
    fn h_u04_cwcf() { u04_cwcf() }
    fn h_u04_cwcm() { u04_cwcm() }
    fn h_u04_cwl() { u04_cwl() }
    fn h_u04_cwt() { u04_cwt() }
    fn h_u04_cwu() { u04_cwu() }
    fn h_u04_lower() { u04_lower() }
    fn h_u04_upper() { u04_upper() }
    fn h_u04_rel() { u04_rel() }
    fn h_u05_idc() { u05_idc() }
    fn h_u05_ids() { u05_ids() }
    fn h_u05_ps() { u05_ps() }
    fn h_u05_pws() { u05_pws() }
    fn h_u05_xidc() { u05_xidc() }
    fn h_u05_xids() { u05_xids() }
    fn h_u05_rel() { u05_rel() }
    fn h_u06_alpha() { u06_alpha() }
    fn h_u06_alnum() { u06_alnum() }
    fn h_u06_ctl() { u06_ctl() }
    fn h_u06_num() { u06_num() }
    fn h_u06_ws() { u06_ws() }
    fn h_u06_rel() { u06_rel() }
    fn h_u07_of() { u07_of() }
    fn h_u07_version() { u07_version() }
    fn h_u07_age() { u07_age() }
    fn h_u07_all() { u07_all() }
    fn h_u08_of() { u08_of() }
    fn h_u08_iter() { u08_iter() }
    fn h_u11_ccc() { u11_ccc() }
    fn h_u11_ccc2() { u11_ccc2() }
    fn h_u11_map() { u11_map() }
    fn h_u11_mapk() { u11_mapk() }
    fn h_u11_dt() { u11_dt() }
    fn h_u11_nfd() { u11_full(false) }
    fn h_u11_nfkd() { u11_full(true) }
    fn h_u11_compose() { u11_compose() }
    fn h_u12_compose() { u12_compose() }
    fn h_u12_decompose() { u12_decompose() }
    fn h_u12_refuse() { u12_refuse() }
    fn h_u13_emoji() { u13_emoji() }
    fn h_u13_comp() { u13_comp() }
    fn h_u13_mod() { u13_mod() }
    fn h_u13_base() { u13_base() }
    fn h_u13_pres() { u13_pres() }
    fn h_c06_class() { c06_class() }
    fn h_c06_notation() { c06_notation() }
}
