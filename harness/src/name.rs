use crate::sym::*;
use unic_ucd_name::Name;
use unic_ucd_name_aliases::{name_aliases_of, NameAliasType as T};

/// FNV-1a of what is written, and its length.
struct Hash { h: u32, n: usize }
impl Hash {
    fn new() -> Hash { Hash { h: 0x811C9DC5, n: 0 } }
    fn put(&mut self, x: u8) { self.h = (self.h ^ x as u32).wrapping_mul(0x01000193); self.n += 1; }
    fn str(&mut self, s: &str) { for &x in s.as_bytes() { self.put(x); } }
}
impl core::fmt::Write for Hash {
    fn write_str(&mut self, s: &str) -> core::fmt::Result { self.str(s); Ok(()) }
}
struct Sink { b: [u8; 64], n: usize }
impl core::fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> core::fmt::Result {
        for &x in s.as_bytes() { if self.n < 64 { self.b[self.n] = x; } self.n += 1; }
        Ok(())
    }
}
const PREFIX: [&str; 4] = ["CJK UNIFIED IDEOGRAPH-", "TANGUT IDEOGRAPH-", "NUSHU CHARACTER-", "CJK COMPATIBILITY IDEOGRAPH-"];

/// Explicit names and Hangul: the written name; ideographs: the rule selected; others: none.
fn u09_of() {
    let c = any_char();
    let kind = reft(300, c);
    match Name::of(c) {
        None => { check(kind == 0, 1); cover(1); }
        Some(n) => {
            check(kind != 0, 2);
            if c >= '\u{AC00}' && c <= '\u{D7A3}' {
                check(n == Name::NR1(c), 10); // written out in u09_hangul
                cover(4);
            } else if kind == 1 {
                let mut h = Hash::new();
                let r = core::fmt::Write::write_fmt(&mut h, format_args!("{}", n));
                check(r.is_ok(), 3);
                check(h.n as u32 == reft(302, c), 4);
                check(h.h == reft(301, c), 5);
                check(n.len() == h.n, 6);
                cover(2);
            } else {
                match n { Name::NR2(p, x) => { check(x == c, 7); check(p == PREFIX[concrete(kind) as usize - 2], 8); } _ => check(false, 9) }
                cover(3);
            }
        }
    }
}
fn u09_hangul() {
    let s = choose(0xAC00, 0xD7A3);
    let c = unsafe { char::from_u32_unchecked(s) };
    match Name::of(c) {
        None => check(false, 1),
        Some(n) => {
            let mut h = Hash::new();
            let r = core::fmt::Write::write_fmt(&mut h, format_args!("{}", n));
            check(r.is_ok(), 3);
            check(h.n as u32 == refu(302, s), 4);
            check(h.h == refu(301, s), 5);
            check(n.len() == h.n, 6);
            cover(1);
        }
    }
}
const IDEO: [(u32, u32); 13] = [(0x3400, 0x4DB5), (0x4E00, 0x9FEA), (0xF900, 0xFA6D), (0xFA70, 0xFAD9), (0x17000, 0x187EC), (0x1B170, 0x1B2FB), (0x20000, 0x2A6D6),
    (0x2A700, 0x2B734), (0x2B740, 0x2B81D), (0x2B820, 0x2CEA1), (0x2CEB0, 0x2EBE0), (0x2F800, 0x2FA1D), (0, 0)];
/// The written form of a name derived from the code point, digit by digit.
fn u09_ideo() {
    let i = choose(0, 11) as usize;
    let (lo, hi) = IDEO[i];
    let b = choose(lo >> 4, hi >> 4);
    let d = any_in(if b == lo >> 4 { lo & 15 } else { 0 }, if b == hi >> 4 { hi & 15 } else { 15 });
    let x = b << 4 | d;
    let c = unsafe { char::from_u32_unchecked(x) };
    let kind = concrete(refu(300, x));
    check(kind >= 2, 1);
    match Name::of(c) {
        None => check(false, 2),
        Some(n) => {
            let mut s = Sink { b: [0; 64], n: 0 };
            let r = core::fmt::Write::write_fmt(&mut s, format_args!("{}", n));
            check(r.is_ok(), 3);
            let p = PREFIX[kind as usize - 2].as_bytes();
            let digits = if b > 0xFFF { 5 } else { 4 };
            check(s.n == p.len() + digits, 4);
            check(n.len() == s.n, 5);
            check(&s.b[..p.len()] == p, 6);
            for k in 0..digits {
                let h = if k + 1 == digits { d } else { (b >> (4 * (digits - 2 - k))) & 15 };
                check(s.b[p.len() + k] == if h < 10 { b'0' + h as u8 } else { b'A' + (h - 10) as u8 }, 7);
            }
            cover(1);
        }
    }
}
const KINDS: [T; 5] = [T::NameCorrections, T::ControlCodeNames, T::AlternateNames, T::Figments, T::NameAbbreviations];
fn u10(k: usize) {
    let c = any_char();
    let want = reft(310 + k as u32, c);
    match name_aliases_of(c, KINDS[k]) {
        None => { check(want == 0, 1); cover(1); }
        Some(l) => {
            let mut h = Hash::new();
            for a in l.iter() { check(a.len() > 0, 2); h.str(a); h.put(b';'); }
            check(h.h == want, 3);
            cover(2);
        }
    }
}
/// The kinds reported for a character are exactly those it has aliases of.
fn u10_types() {
    let c = any_char();
    let l = T::of(c);
    let l: &[T] = l.unwrap_or(&[]);
    for k in 0..5 {
        let mut n = 0;
        for &t in l.iter() { if t == KINDS[k] { n += 1; } }
        check(n == if reft(310 + k as u32, c) != 0 { 1 } else { 0 }, 1 + k as u32);
    }
    cover(1);
}
harness! {
    fn h_u09_of() { u09_of() }
    fn h_u09_hangul() { u09_hangul() }
    fn h_u09_ideo() { u09_ideo() }
    fn h_u10_corr() { u10(0) }
    fn h_u10_ctl() { u10(1) }
    fn h_u10_alt() { u10(2) }
    fn h_u10_fig() { u10(3) }
    fn h_u10_abbr() { u10(4) }
    fn h_u10_types() { u10_types() }
}
