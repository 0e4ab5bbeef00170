use crate::codes;
use crate::sym::*;
use core::cmp::Ordering;
use core::str::FromStr;
use unic_char_property::tables::CharDataTable;
use unic_char_property::{BinaryCharProperty, CharProperty, EnumeratedCharProperty, TotalCharProperty};
use unic_char_range::*;

/// Position among the scalar values.
fn idx(c: char) -> u32 { let x = c as u32; if x >= 0xE000 { x - 0x800 } else { x } }
fn chr(i: u32) -> char { unsafe { char::from_u32_unchecked(if i >= 0xD800 { i + 0x800 } else { i }) } }
fn size(lo: u32, hi: u32) -> usize { if lo > hi { 0 } else { (hi - lo + 1) as usize } }

/// One step from any state: what it yields and exactly which characters are left. As every state of the
/// iterator is a pair of characters, this covers every history by induction.
fn c01_step(back: bool) {
    let (a, b, d) = (any_char(), any_char(), any_char());
    let mut it = CharRange::closed(a, b).iter();
    let member = a <= d && d <= b;
    let n = size(idx(a), idx(b));
    check(it.len() == n, 1);
    check(it.size_hint() == (n, Some(n)), 2);
    let r = if back { it.next_back() } else { it.next() };
    let m = it.len();
    check(it.size_hint() == (m, Some(m)), 3);
    let rest: CharRange = it.clone().into();
    match r {
        None => { check(a > b, 4); check(m == 0, 5); check(!rest.contains(d), 6); cover(1); }
        Some(x) => {
            check(a <= b, 7);
            check(x == if back { b } else { a }, 8);
            check((x as u32) < 0xD800 || x as u32 >= 0xE000 && x as u32 <= 0x10FFFF, 9);
            check(m == n - 1, 10);
            check(rest.contains(d) == (member && d != x), 11);
            check(rest.is_empty() == (n == 1), 12);
            cover(2);
        }
    }
    let x = rest.low as u32; let y = rest.high as u32;
    check((x < 0xD800 || x >= 0xE000) && (y < 0xD800 || y >= 0xE000) && x <= 0x10FFFF && y <= 0x10FFFF, 13);
}
/// Several steps with any mix of ends, from any range.
fn c01_mix(n: usize) {
    let (a, b) = (any_char(), any_char());
    let mut it = if any_bool() { CharRange::closed(a, b).iter() } else { CharRange::closed(a, b).into_iter() };
    let (mut lo, mut hi) = (idx(a) as i64, idx(b) as i64);
    for _ in 0..n {
        if any_bool() {
            let r = it.next();
            if lo > hi { check(r.is_none(), 1); } else { check(r == Some(chr(lo as u32)), 2); lo += 1; }
        } else {
            let r = it.next_back();
            if lo > hi { check(r.is_none(), 3); } else { check(r == Some(chr(hi as u32)), 4); hi -= 1; }
        }
        check(it.len() as i64 == if lo > hi { 0 } else { hi - lo + 1 }, 5);
    }
    cover(1);
}
fn c01_last() {
    let (a, b) = (any_char(), any_char());
    let it = CharRange::closed(a, b).iter();
    let e = a > b;
    check(it.clone().last() == if e { None } else { Some(b) }, 1);
    check(it.clone().max() == if e { None } else { Some(b) }, 2);
    check(it.clone().min() == if e { None } else { Some(a) }, 3);
    cover(1);
}
/// count, nth, rev and collecting, on ranges of up to 5 characters anywhere.
fn c01_count() {
    let (a, b) = (any_char(), any_char());
    let n = size(idx(a), idx(b));
    assume(n <= 5);
    let it = CharRange::closed(a, b).iter();
    check(it.clone().count() == n, 1);
    let k = choose(0, 6) as usize;
    check(it.clone().nth(k) == if k < n { Some(chr(idx(a) + k as u32)) } else { None }, 2);
    let mut m = 0;
    for c in it.clone().rev() { check(c == chr(idx(b) - m), 3); m += 1; }
    check(m as usize == n, 4);
    let mut m = 0;
    for c in CharRange::closed(a, b) { check(c == chr(idx(a) + m), 5); m += 1; }
    check(m as usize == n, 6);
    cover(1);
}

/// A range denotes the characters d with lo <= idx(d) <= hi.
fn denotes(r: CharRange, lo: i64, hi: i64, d: char) {
    let i = idx(d) as i64;
    check(r.contains(d) == (lo <= i && i <= hi), 50);
    let n = if lo > hi { 0 } else { hi - lo + 1 };
    check(r.len() as i64 == n, 51);
    check(r.is_empty() == (n == 0), 52);
    check(r.iter().len() as i64 == n, 53);
    if n > 0 { check(r.cmp_char(d) == if hi < i { Ordering::Less } else if i < lo { Ordering::Greater } else { Ordering::Equal }, 54); check(r.low == chr(lo as u32) && r.high == chr(hi as u32), 55); }
}
fn c02_ctor() {
    let (a, b, d) = (any_char(), any_char(), any_char());
    let (x, y) = (idx(a) as i64, idx(b) as i64);
    match choose(0, 8) {
        0 => denotes(CharRange::closed(a, b), x, y, d),
        1 => denotes(CharRange::open_right(a, b), x, y - 1, d),
        2 => denotes(CharRange::open_left(a, b), x + 1, y, d),
        3 => denotes(CharRange::open(a, b), x + 1, y - 1, d),
        4 => denotes(chars!(a..b), x, y - 1, d),
        5 => denotes(chars!(a..=b), x, y, d),
        6 => denotes(chars!(..), 0, 0x10FFFF - 0x800, d),
        7 => denotes(CharRange::all(), 0, 0x10FFFF - 0x800, d),
        _ => denotes(CharRange::assigned_normal_planes(), 0, 0x2FFFF - 0x800, d),
    }
    cover(1);
}
fn c02_bound() {
    use std::ops::Bound::*;
    let (a, b, d) = (any_char(), any_char(), any_char());
    let (x, y) = (idx(a) as i64, idx(b) as i64);
    let (s, lo) = match choose(0, 2) { 0 => (Included(a), x), 1 => (Excluded(a), x + 1), _ => (Unbounded, 0) };
    let (e, hi) = match choose(0, 2) { 0 => (Included(b), y), 1 => (Excluded(b), y - 1), _ => (Unbounded, 0x10FFFF - 0x800) };
    denotes(CharRange::bound(s, e), lo, hi, d);
    cover(1);
}
fn c02_eq() {
    let (a, b, c, d) = (any_char(), any_char(), any_char(), any_char());
    let r = CharRange { low: a, high: b };
    let s = CharRange { low: c, high: d };
    let same = (a > b && c > d) || (a == c && b == d);
    check((r == s) == same, 1);
    check((r != s) == !same, 2);
    // through the iterator and back
    let t: CharRange = r.iter().into();
    check(t.low == a && t.high == b, 3);
    cover(1);
}
/// An empty range has no position relative to a character.
fn c02_cmp_empty() {
    let (a, b, d) = (any_char(), any_char(), any_char());
    let r = CharRange::closed(a, b);
    if a > b { expect_panic(true); cover(2); }
    let o = r.cmp_char(d);
    check(a <= b, 1);
    check((o == Ordering::Equal) == (a <= d && d <= b), 2);
    cover(1);
}

fn leak<T>(v: Vec<T>) -> &'static [T] { Box::leak(v.into_boxed_slice()) }
fn c04_direct(n: usize) {
    let mut rows: Vec<(char, u32)> = Vec::with_capacity(n);
    let mut prev: Option<char> = None;
    for i in 0..n { let c = any_char(); if let Some(p) = prev { assume(p < c); } prev = Some(c); rows.push((c, 100 + i as u32)); }
    let rows = leak(rows);
    let t = CharDataTable::Direct(rows);
    let d = any_char();
    let mut want = None;
    for i in 0..n { if rows[i].0 == d { want = Some(100 + i as u32); } }
    check(t.find(d) == want, 1);
    check(t.contains(d) == want.is_some(), 2);
    check(t.find_or_default(d) == want.unwrap_or(0), 3);
    let mut it = t.iter();
    for i in 0..n { match it.next() { Some((r, v)) => { check(r.low == rows[i].0 && r.high == rows[i].0, 4); check(v == 100 + i as u32, 5); } None => check(false, 6) } }
    check(it.next().is_none(), 7);
    check(it.next().is_none(), 8);
    cover(1);
}
fn c04_range(n: usize) {
    let mut rows: Vec<(CharRange, u32)> = Vec::with_capacity(n);
    let mut prev: Option<char> = None;
    for i in 0..n {
        let (a, b) = (any_char(), any_char());
        assume(a <= b);
        if let Some(p) = prev { assume(p < a); }
        prev = Some(b);
        rows.push((CharRange::closed(a, b), 100 + i as u32));
    }
    let rows = leak(rows);
    let t = CharDataTable::Range(rows);
    let d = any_char();
    let mut want = n;
    for i in 0..n { if rows[i].0.low <= d && d <= rows[i].0.high { want = i; } }
    if want < n {
        check(t.find(d) == Some(100 + want as u32), 1);
        check(t.contains(d), 2);
        check(t.find_or_default(d) == 100 + want as u32, 3);
        match t.find_with_range(d) { Some((r, v)) => { check(r.low == rows[want].0.low && r.high == rows[want].0.high, 4); check(v == 100 + want as u32, 5); } None => check(false, 6) }
        cover(2);
    } else {
        check(t.find(d).is_none(), 7);
        check(!t.contains(d), 8);
        check(t.find_or_default(d) == 0, 9);
        check(t.find_with_range(d).is_none(), 10);
        cover(1);
    }
    let mut it = t.iter();
    for i in 0..n { match it.next() { Some((r, v)) => { check(r.low == rows[i].0.low && r.high == rows[i].0.high, 11); check(v == 100 + i as u32, 12); } None => check(false, 13) } }
    check(it.next().is_none(), 14);
    check(it.next().is_none(), 15);
}

fn eqic(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() { return false; }
    for i in 0..a.len() { if (a[i] | if a[i] >= b'A' && a[i] <= b'Z' { 32 } else { 0 }) != (b[i] | if b[i] >= b'A' && b[i] <= b'Z' { 32 } else { 0 }) { return false; } }
    true
}
/// The value a string names, if any: the names are those of PropertyValueAliases.txt.
fn named<P: Copy>(all: &[(P, &'static str, &'static str)], s: &[u8]) -> Option<P> {
    for &(v, a, l) in all { if eqic(s, a.as_bytes()) || eqic(s, l.as_bytes()) { return Some(v); } }
    None
}
fn text(v: &[u8]) -> &str { unsafe { core::str::from_utf8_unchecked(v) } }
/// Every name of every value, each letter in either case.
fn c05_case<P: EnumeratedCharProperty + FromStr + Copy + 'static>(all: &[(P, &'static str, &'static str)]) {
    let i = choose(0, all.len() as u32 - 1) as usize;
    let (v, abbr, long) = all[i];
    check(v.abbr_name() == abbr, 1);
    check(v.long_name() == long, 2);
    check(v.human_name().len() > 0, 3);
    check(P::all_values().len() == all.len(), 4);
    let mut n = 0;
    for &x in P::all_values() { if x == v { n += 1; } }
    check(n == 1, 5);
    for &(w, a, l) in all { if w != v { check(!eqic(a.as_bytes(), abbr.as_bytes()), 6); check(!eqic(l.as_bytes(), long.as_bytes()), 7); } }
    let name = if choose(0, 1) == 0 { abbr } else { long }.as_bytes();
    let mut s = Vec::with_capacity(name.len());
    for &c in name {
        if c.is_ascii_alphabetic() { s.push((c & !32) | (any_in(0, 1) as u8) << 5); } else { s.push(c); }
    }
    match P::from_str(text(&s)) { Ok(x) => check(x == v, 8), Err(_) => check(false, 9) }
    cover(1);
}
/// Any ASCII string of n bytes.
fn c05_short<P: EnumeratedCharProperty + FromStr + Copy + 'static>(all: &[(P, &'static str, &'static str)], n: usize) {
    let mut s = Vec::with_capacity(n);
    for _ in 0..n { s.push(any_in(0, 127) as u8); }
    let r = P::from_str(text(&s));
    match named(all, &s) { Some(v) => { match r { Ok(x) => check(x == v, 1), Err(_) => check(false, 2) } cover(1); } None => { check(r.is_err(), 3); cover(2); } }
}
/// A name with one byte replaced by any ASCII byte, one dropped, one added, or one letter replaced by a non-ASCII character.
fn c05_near<P: EnumeratedCharProperty + FromStr + Copy + 'static>(all: &[(P, &'static str, &'static str)]) {
    let i = choose(0, all.len() as u32 - 1) as usize;
    let name = if choose(0, 1) == 0 { all[i].1 } else { all[i].2 }.as_bytes();
    let p = choose(0, name.len() as u32) as usize;
    let mut s = Vec::with_capacity(name.len() + 4);
    let how = choose(0, 3);
    for k in 0..name.len() {
        if k != p { s.push(name[k]); continue; }
        match how {
            0 => s.push(any_in(0, 127) as u8),
            1 => {}
            2 => { s.push(any_in(0, 127) as u8); s.push(name[k]); }
            _ => { s.push(0xC0 | any_in(2, 31) as u8); s.push(0x80 | any_in(0, 63) as u8); }
        }
    }
    if p == name.len() { if how == 0 || how == 2 { s.push(any_in(0, 127) as u8); } }
    let r = P::from_str(text(&s));
    match named(all, &s) { Some(v) => { match r { Ok(x) => check(x == v, 1), Err(_) => check(false, 2) } cover(1); } None => { check(r.is_err(), 3); cover(2); } }
}
fn truth(s: &[u8]) -> Option<bool> {
    for w in ["y", "yes", "t", "true"] { if eqic(s, w.as_bytes()) { return Some(true); } }
    for w in ["n", "no", "f", "false"] { if eqic(s, w.as_bytes()) { return Some(false); } }
    None
}
fn c05_bool<P: BinaryCharProperty + FromStr + TotalCharProperty>(n: usize) {
    let mut s = Vec::with_capacity(n);
    for _ in 0..n { s.push(any_in(0, 127) as u8); }
    match (P::from_str(text(&s)), truth(&s)) {
        (Ok(p), Some(b)) => {
            check(p.as_bool() == b, 1);
            check(p.abbr_name() == if b { "Y" } else { "N" }, 2);
            check(p.long_name() == if b { "Yes" } else { "No" }, 3);
            check(p.human_name().len() > 0, 4);
            cover(1);
        }
        (Err(_), None) => cover(2),
        _ => check(false, 5),
    }
    check(!P::default().as_bool(), 6);
}
fn c05_prop<P: CharProperty>(abbr: &str, long: &str) {
    check(P::prop_abbr_name() == abbr, 1);
    check(P::prop_long_name() == long, 2);
    check(P::prop_human_name().len() > 0, 3);
}
fn c05_props() {
    c05_prop::<unic_ucd_category::GeneralCategory>("gc", "General_Category");
    c05_prop::<unic_ucd_bidi::BidiClass>("bc", "Bidi_Class");
    c05_prop::<unic_ucd_segment::GraphemeClusterBreak>("GCB", "Grapheme_Cluster_Break");
    c05_prop::<unic_ucd_segment::WordBreak>("WB", "Word_Break");
    c05_prop::<unic_ucd_segment::SentenceBreak>("SB", "Sentence_Break");
    c05_prop::<unic_ucd_normal::DecompositionType>("dt", "Decomposition_Type");
    c05_prop::<unic_ucd_case::Cased>("Cased", "Cased");
    c05_prop::<unic_ucd_case::Lowercase>("Lower", "Lowercase");
    c05_prop::<unic_ucd_bidi::BidiMirrored>("Bidi_M", "Bidi_Mirrored");
    cover(1);
}
harness! {
    fn h_c01_fwd() { c01_step(false) }
    fn h_c01_back() { c01_step(true) }
    fn h_c01_mix3() { c01_mix(3) }
    fn h_c01_mix5() { c01_mix(5) }
    fn h_c01_last() { c01_last() }
    fn h_c01_count() { c01_count() }
    fn h_c02_ctor() { c02_ctor() }
    fn h_c02_bound() { c02_bound() }
    fn h_c02_eq() { c02_eq() }
    fn h_c02_cmp_empty() { c02_cmp_empty() }
    fn h_c04_direct() { c04_direct(choose(0, 7) as usize) }
    fn h_c04_direct16() { c04_direct(choose(8, 16) as usize) }
    fn h_c04_range() { c04_range(choose(0, 4) as usize) }
    fn h_c04_range8() { c04_range(choose(5, 8) as usize) }
    fn h_c05_gc() { c05_case(&codes::gc::all()) }
    fn h_c05_bc() { c05_case(&codes::bc::all()) }
    fn h_c05_gcb() { c05_case(&codes::gcb::all()) }
    fn h_c05_wb() { c05_case(&codes::wb::all()) }
    fn h_c05_sb() { c05_case(&codes::sb::all()) }
    fn h_c05_dt() { c05_case(&codes::dt::all()) }
    fn h_c05_gc_s() { c05_short(&codes::gc::all(), choose(0, 4) as usize) }
    fn h_c05_bc_s() { c05_short(&codes::bc::all(), choose(0, 4) as usize) }
    fn h_c05_gcb_s() { c05_short(&codes::gcb::all(), choose(0, 4) as usize) }
    fn h_c05_wb_s() { c05_short(&codes::wb::all(), choose(0, 4) as usize) }
    fn h_c05_sb_s() { c05_short(&codes::sb::all(), choose(0, 4) as usize) }
    fn h_c05_dt_s() { c05_short(&codes::dt::all(), choose(0, 4) as usize) }
    fn h_c05_gc_n() { c05_near(&codes::gc::all()) }
    fn h_c05_bc_n() { c05_near(&codes::bc::all()) }
    fn h_c05_gcb_n() { c05_near(&codes::gcb::all()) }
    fn h_c05_wb_n() { c05_near(&codes::wb::all()) }
    fn h_c05_sb_n() { c05_near(&codes::sb::all()) }
    fn h_c05_dt_n() { c05_near(&codes::dt::all()) }
    fn h_c05_bool1() { c05_bool::<unic_ucd_case::Cased>(choose(0, 5) as usize) }
    fn h_c05_bool2() { c05_bool::<unic_ucd_bidi::BidiMirrored>(choose(0, 5) as usize) }
    fn h_c05_props() { c05_props() }
}
