use crate::nf::*;
use crate::sym::*;
use unic_idna::{to_ascii, to_unicode, Flags};
use unic_idna_mapping::Mapping;
use unic_idna_punycode as puny;

// Mapping status (reference table 200).
const VALID: u32 = 0; const IGNORED: u32 = 1; const MAPPED: u32 = 2; const DEVIATION: u32 = 3; const DISALLOWED: u32 = 4; const STD3_VALID: u32 = 5; const STD3_MAPPED: u32 = 6;

fn ch(c: u32) -> char { unsafe { char::from_u32_unchecked(c) } }
fn pick(f: &[(u32, u32)]) -> char {
    let (a, b) = f[choose(0, f.len() as u32 - 1) as usize];
    ch(if a == b { a } else { any_in(a, b) })
}
fn picks(n: usize, f: &[(u32, u32)]) -> Vec<char> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(pick(f)); } v }

/// I03
fn mapping() {
    let c = any_char();
    let (k, s) = match Mapping::of(c) {
        Mapping::Valid => (VALID, ""), Mapping::Ignored => (IGNORED, ""), Mapping::Mapped(s) => (MAPPED, s), Mapping::Deviation(s) => (DEVIATION, s),
        Mapping::Disallowed => (DISALLOWED, ""), Mapping::DisallowedStd3Valid => (STD3_VALID, ""), Mapping::DisallowedStd3Mapped(s) => (STD3_MAPPED, s),
    };
    check(k == reft(200, c), 1);
    let mut n = 0;
    for x in s.chars() { check(n < 18, 2); check(x as u32 == reft(202 + n, c), 3); n += 1; }
    check(n == reft(201, c), 4);
    cover(1);
}

/// RFC 3492, in arithmetic wide enough not to overflow. Digit of one character, 36 if none.
fn digit(c: u32) -> u64 { (if c >= 0x61 && c <= 0x7A { c - 0x61 } else if c >= 0x41 && c <= 0x5A { c - 0x41 } else if c >= 0x30 && c <= 0x39 { c - 0x30 + 26 } else { 36 }) as u64 }
fn spec_adapt(mut delta: u64, n: u64, first: bool) -> u64 {
    delta = if first { delta / 700 } else { delta / 2 };
    delta += delta / n;
    let mut k = 0;
    while delta > 455 { delta /= 35; k += 36; }
    k + 36 * delta / (delta + 38)
}
fn spec_decode(v: &[u32]) -> Option<Vec<u32>> {
    let n = v.len();
    let mut b = n;
    while b > 0 && v[b - 1] != 0x2D { b -= 1; }
    let mut out = Vec::with_capacity(n);
    let mut at = 0;
    if b > 1 { for i in 0..b - 1 { if v[i] >= 0x80 { return None; } out.push(v[i]); } at = b; }
    let (mut cp, mut bias, mut i) = (0x80u64, 72u64, 0u64);
    while at < n {
        let old = i;
        let (mut w, mut k) = (1u64, 36u64);
        loop {
            if at == n { return None; }
            let d = digit(v[at]);
            at += 1;
            if d == 36 { return None; }
            i += d * w;
            let t = if k <= bias { 1 } else if k >= bias + 26 { 26 } else { k - bias };
            if d < t { break; }
            if i > u32::MAX as u64 { return None; }
            w *= 36 - t;
            k += 36;
        }
        if i > u32::MAX as u64 { return None; }
        let m = out.len() as u64 + 1;
        bias = spec_adapt(i - old, m, old == 0);
        cp += i / m;
        if cp > 0x10FFFF || (cp >= 0xD800 && cp < 0xE000) { return None; }
        let p = concrete((i % m) as u32) as usize;
        out.insert(p, cp as u32);
        i = p as u64 + 1;
    }
    Some(out)
}
fn decode(v: &[char]) {
    let s = to_string(v);
    let mut u = Vec::with_capacity(v.len());
    for &c in v { u.push(c as u32); }
    let want = spec_decode(&u);
    let got = puny::decode(&s);
    match (&want, &got) {
        (None, None) => cover(1),
        (Some(w), Some(g)) => { check(w.len() == g.len(), 1); for i in 0..w.len() { check(g[i] as u32 == w[i], 2); } cover(2); }
        (w, _) => check(false, if w.is_some() { 3 } else { 4 }),
    }
}
/// I01
fn round(v: &[char]) {
    let e = puny::encode(v);
    check(e.is_some(), 1);
    let e = e.unwrap();
    for b in e.bytes() { check(b < 0x80, 2); }
    let mut basic = 0;
    for &c in v { if (c as u32) < 0x80 { check(e.as_bytes()[basic] == c as u8, 3); basic += 1; } }
    let d = puny::decode(&e);
    check(d.is_some(), 4);
    let d = d.unwrap();
    check(d.len() == v.len(), 5);
    for i in 0..v.len() { check(d[i] == v[i], 6); }
    cover(1);
}
/// Long texts: the encoder refuses instead of overflowing, and what it accepts comes back.
fn long(n: usize, lo: u32, hi: u32, last: bool) {
    let c = ch(any_in(lo, hi));
    let mut v = Vec::with_capacity(n + 1);
    if !last { v.push(c); }
    for _ in 0..n { v.push('a'); }
    if last { v.push(c); }
    let e = puny::encode(&v);
    // The decoder's counter at this character: all smaller code points of all positions passed over, then its own position.
    let delta = (c as u64 - 0x80) * (n as u64 + 1) + if last { n as u64 } else { 0 };
    check(e.is_some() == (delta <= u32::MAX as u64), 1);
    if let Some(e) = e {
        cover(1);
        let d = puny::decode(&e).unwrap();
        check(d.len() == n + 1, 2);
        check(d[n] == v[n] && d[0] == v[0] && d[n - 1] == 'a', 3);
    } else { cover(2); }
}

/// UTS #46 processing. `None`: an error is recorded.
fn spec_processing(v: &[char], std3: bool, transitional: bool) -> Option<Vec<u32>> {
    let mut m: Vec<char> = Vec::with_capacity(v.len() * 18 + 1);
    for &c in v {
        let k = concrete(reft(200, c));
        let map = k == MAPPED || (k == DEVIATION && transitional) || (k == STD3_MAPPED && !std3);
        if map { let n = concrete(reft(201, c)); for i in 0..n { m.push(ch(reft(202 + i, c))); } }
        else if k == IGNORED { }
        else if k == DISALLOWED || (std3 && (k == STD3_VALID || k == STD3_MAPPED)) { return None; }
        else { m.push(c); }
    }
    let m = spec_c(&m, false);
    let mut labels: Vec<(Vec<u32>, bool)> = Vec::with_capacity(m.len() + 1);
    let mut at = 0;
    loop {
        let mut e = at;
        while e < m.len() && m[e] != 0x2E { e += 1; }
        let l = &m[at..e];
        if l.len() >= 4 && l[0] == 0x78 && l[1] == 0x6E && l[2] == 0x2D && l[3] == 0x2D {
            match spec_decode(&l[4..]) { None => return None, Some(d) => labels.push((d, true)) }
        } else { let mut d = Vec::with_capacity(l.len()); for &c in l { d.push(c); } labels.push((d, false)); }
        if e == m.len() { break; }
        at = e + 1;
    }
    let mut is_bidi = false;
    for (l, _) in labels.iter() { for &c in l.iter() { let b = refu(5, c); is_bidi |= b == 1 || b == 2 || b == 6; } }
    let mut out = Vec::with_capacity(m.len() + 1);
    for (i, (l, ace)) in labels.iter().enumerate() {
        if i > 0 { out.push(0x2E); }
        for &c in l.iter() { out.push(c); }
        let n = l.len();
        if n == 0 { continue; }
        if *ace {
            let mut t = Vec::with_capacity(n);
            for &c in l.iter() { t.push(ch(c)); }
            let f = spec_c(&t, false);
            if f.len() != n { return None; }
            for j in 0..n { if f[j] != l[j] { return None; } }
            if n >= 4 && l[0] == 0x78 && l[1] == 0x6E && l[2] == 0x2D && l[3] == 0x2D { return None; }
        }
        if l[0] == 0x2D || l[n - 1] == 0x2D { return None; }
        if refu(36, l[0]) == 1 { return None; }
        for &c in l.iter() {
            let k = refu(200, c);
            if !(k == VALID || (k == DEVIATION && (*ace || !transitional)) || (k == STD3_VALID && !std3)) { return None; }
        }
        if is_bidi && !bidi_rule(l) { return None; }
    }
    Some(out)
}
/// RFC 5893 section 2.
fn bidi_rule(l: &[u32]) -> bool {
    let mut c = Vec::with_capacity(l.len());
    for &x in l { c.push(concrete(refu(5, x))); }
    let n = c.len();
    let mut e = n;
    while e > 0 && c[e - 1] == 8 { e -= 1; }
    let last = if e == 0 { 99 } else { c[e - 1] };
    if c[0] == 0 {
        for &x in c.iter() { if !(x == 0 || x == 3 || x == 4 || x == 5 || x == 7 || x == 8 || x == 9 || x == 13) { return false; } }
        last == 0 || last == 3
    } else if c[0] == 1 || c[0] == 2 {
        let (mut en, mut an) = (false, false);
        for &x in c.iter() {
            if !(x >= 1 && x <= 9 || x == 13) { return false; }
            en |= x == 3; an |= x == 6;
        }
        (last == 1 || last == 2 || last == 3 || last == 6) && !(en && an)
    } else { false }
}
fn flags() -> Flags { let x = choose(0, 7); Flags { use_std3_ascii_rules: x & 1 == 1, transitional_processing: x & 2 == 2, verify_dns_length: x & 4 == 4 } }
/// I05
fn unicode(v: &[char]) { unicode_with(v, flags()) }
fn unicode_with(v: &[char], f: Flags) {
    let want = spec_processing(v, f.use_std3_ascii_rules, false);
    let (s, r) = to_unicode(&to_string(v), f);
    check(r.is_ok() == want.is_some(), 1);
    if let Some(w) = want {
        let mut it = s.chars();
        for &c in w.iter() { let x = it.next(); check(x.is_some(), 2); check(x.unwrap() as u32 == c, 3); }
        check(it.next().is_none(), 4);
        cover(1);
    } else { cover(2); }
}
/// I04
fn ascii(v: &[char]) { ascii_with(v, flags()) }
fn two_flags() -> Flags { let x = choose(0, 1) == 1; Flags { use_std3_ascii_rules: x, transitional_processing: !x, verify_dns_length: x } }
fn ascii_with(v: &[char], f: Flags) {
    let s = to_string(v);
    let want = spec_processing(v, f.use_std3_ascii_rules, f.transitional_processing);
    let r = to_ascii(&s, f);
    let w = match want { None => { check(r.is_err(), 1); cover(2); return; } Some(w) => w };
    let g = match r {
        Err(_) => { check(f.verify_dns_length, 2); let h = to_ascii(&s, Flags { verify_dns_length: false, ..f }); check(h.is_ok(), 3); let h = h.unwrap(); check(!short_enough(h.as_bytes()), 4); cover(3); return; }
        Ok(g) => g,
    };
    let b = g.as_bytes();
    for &x in b { check(x < 0x80, 5); }
    if f.verify_dns_length { check(short_enough(b), 6); }
    // ASCII labels as they are, others in Punycode
    let mut ascii = true;
    for &c in w.iter() { ascii &= c < 0x80; }
    if ascii { check(b.len() == w.len(), 7); for i in 0..b.len() { check(b[i] as u32 == w[i], 8); } }
    match to_ascii(&g, f) { Err(_) => check(false, 9), Ok(h) => { let h = h.as_bytes(); check(h.len() == b.len(), 10); for i in 0..b.len() { check(h[i] == b[i], 11); } } }
    let (u, r) = to_unicode(&g, f);
    check(r.is_ok(), 12);
    let mut it = u.chars();
    for &c in w.iter() { let x = it.next(); check(x.is_some(), 13); check(x.unwrap() as u32 == c, 14); }
    check(it.next().is_none(), 15);
    cover(1);
}
fn short_enough(b: &[u8]) -> bool {
    let n = if b.len() > 0 && b[b.len() - 1] == b'.' { b.len() - 1 } else { b.len() };
    if n == 0 || n > 253 { return false; }
    let mut l = 0;
    for i in 0..n { if b[i] == b'.' { if l == 0 || l > 63 { return false; } l = 0; } else { l += 1; } }
    l > 0 && l <= 63
}
/// Lower-case ASCII names with nothing to decode come back as they are; upper case makes no difference.
fn plain(n: usize) {
    let f = flags();
    let mut s = String::with_capacity(n);
    let mut t = String::with_capacity(n);
    let mut hyphen = false;
    let mut prev = '.';
    for _ in 0..n {
        let c = match choose(0, 3) { 0 => any_in(0x61, 0x77), 1 => any_in(0x30, 0x39), 2 => 0x2D, _ => 0x2E };
        let c = ch(c);
        if c == '-' && prev == '.' || c == '.' && prev == '-' { hyphen = true; }
        prev = c;
        s.push(c);
        t.push(if c >= 'a' && any_bool() { ch(c as u32 - 32) } else { c });
    }
    if prev == '-' { hyphen = true; }
    let r = to_ascii(&s, f);
    let q = to_ascii(&t, f);
    if hyphen || (f.verify_dns_length && !short_enough(s.as_bytes())) { check(r.is_err() && q.is_err(), 1); cover(2); return; }
    check(r.is_ok() && q.is_ok(), 2);
    let (r, q) = (r.unwrap(), q.unwrap());
    check(r.len() == n && q.len() == n, 3);
    for i in 0..n { check(r.as_bytes()[i] == s.as_bytes()[i] && q.as_bytes()[i] == s.as_bytes()[i], 4); }
    cover(1);
}
/// Labels and names of every length around the limits.
fn lengths() {
    let a = choose(0, 4) as usize;
    let mut s = String::with_capacity(300);
    for _ in 0..a { for _ in 0..choose(62, 64) { s.push('a'); } s.push('.'); }
    for _ in 0..[0, 1, 60, 61, 62, 63, 64][choose(0, 6) as usize] { s.push('b'); }
    if choose(0, 1) == 1 { s.push('.'); }
    let f = Flags { use_std3_ascii_rules: true, transitional_processing: false, verify_dns_length: true };
    let r = to_ascii(&s, f);
    check(r.is_ok() == short_enough(s.as_bytes()), 1);
    cover(if r.is_ok() { 1 } else { 2 });
}
fn ace(tail: &[char], pre: &[u32], post: &[u32]) -> Vec<char> {
    let mut v = Vec::with_capacity(tail.len() + pre.len() + post.len() + 4);
    for c in "xn--".chars() { v.push(c); }
    for &c in pre { v.push(ch(c)); }
    for &c in tail { v.push(c); }
    for &c in post { v.push(ch(c)); }
    v
}
const ABC: (u32, u32) = (0x61, 0x64);
/// One of every status, and what the validity criteria look at.
const NAME: [(u32, u32); 15] = [ABC, (0x41, 0x44), (0x2D, 0x2D), (0x2E, 0x2E), (0xDF, 0xDF), (0x200D, 0x200D), (0xAD, 0xAD), (0x3002, 0x3002), (0x5F, 0x5F), (0xA8, 0xA8), (0x80, 0x81), (0x301, 0x301), (0xE9, 0xE9), (0x5D0, 0x5D1), (0x30, 0x31)];
const BIDI: [(u32, u32); 14] = [(0x61, 0x61), (0x2E, 0x2E), (0x30, 0x30), (0x5D0, 0x5D0), (0x628, 0x628), (0x660, 0x660), (0x300, 0x300), (0x2135, 0x2135), (0x5BF, 0x5BF), (0xB7, 0xB7), (0x200D, 0x200D), (0x2D, 0x2D), (0x2B, 0x2B), (0x6F0, 0x6F0)];
const ACE: [(u32, u32); 5] = [(0x61, 0x7A), (0x30, 0x39), (0x2D, 0x2D), (0x41, 0x5A), (0xE9, 0xE9)];
const LDH: [(u32, u32); 3] = [(0x61, 0x7A), (0x30, 0x39), (0x2D, 0x2D)];

harness! {
    fn i03_mapping() { mapping() }
    fn i01_1() { round(&any_chars(1)) }
    fn i01_2() { round(&any_chars(2)) }
    fn i01_2_wide() { let a = any_char(); let b = pick(&[(0x61, 0x61), (0xE9, 0xE9), (0x4E00, 0x4E00), (0x10FFFF, 0x10FFFF)]); if any_bool() { round(&[a, b]) } else { round(&[b, a]) } }
    fn i01_3_wide() { let a = any_char(); const F: [(u32, u32); 3] = [(0x61, 0x61), (0xE9, 0xE9), (0x1F600, 0x1F600)]; let (b, c) = (pick(&F), pick(&F)); match choose(0, 2) { 0 => round(&[a, b, c]), 1 => round(&[b, a, c]), _ => round(&[b, c, a]) } }
    fn i01_small_3() { round(&picks(3, &[(0x61, 0x63), (0xE0, 0xE9), (0x430, 0x439)])) }
    fn i01_small_4() { round(&picks(4, &[(0x2D, 0x2D), (0x61, 0x61), (0xE8, 0xE9), (0x4E00, 0x4E00), (0x10FFFF, 0x10FFFF)])) }
    fn i01_small_5() { round(&picks(5, &[(0x2D, 0x2D), (0x61, 0x61), (0xE8, 0xE9), (0x4E00, 0x4E00), (0x10FFFF, 0x10FFFF)])) }
    fn i01_long() { long(3860, 0x10F000, 0x10FFFF, false) }
    fn i01_long_last() { long(3860, 0x10F9C0, 0x10F9DF, true) }
    fn i02_any_1() { decode(&any_chars(1)) }
    fn i02_any_2() { decode(&any_chars(2)) }
    fn i02_any_3() { decode(&any_chars(3)) }
    fn i02_ace_3() { decode(&picks(3, &ACE)) }
    fn i02_ace_4() { decode(&picks(4, &ACE)) }
    fn i02_digits_3() { decode(&picks(3, &LDH)) }
    fn i02_digits_4() { decode(&picks(4, &LDH)) }
    fn i02_digits_5() { decode(&picks(5, &LDH)) }
    fn i05_any_1() { unicode_with(&any_chars(1), two_flags()) }
    fn i05_any_1_flags() { unicode(&any_chars(1)) }
    fn i05_name_2() { unicode(&picks(2, &NAME)) }
    fn i05_name_3() { unicode(&picks(3, &NAME)) }
    fn i05_bidi_3() { unicode(&picks(3, &BIDI)) }
    fn i05_bidi_4() { unicode(&picks(4, &BIDI)) }
    fn i05_ace_2() { unicode(&ace(&picks(2, &ACE), &[], &[])) }
    fn i05_ace_3() { unicode(&ace(&picks(3, &ACE), &[], &[])) }
    fn i04_any_1() { ascii_with(&any_chars(1), two_flags()) }
    fn i04_latin_1() { ascii_with(&[ch(any_in(0, 0xFF))], two_flags()) }
    fn i04_low_1() { ascii_with(&[ch(any_in(0, 0x7FF))], two_flags()) }
    fn i04_bidi_4() { ascii(&picks(4, &BIDI)) }
    fn i05_bidi_5() { unicode(&picks(5, &BIDI)) }
    fn i05_name_4() { unicode(&picks(4, &NAME)) }
    fn i01_pair() { round(&[ch(any_in(0x80, 0x17F)), ch(any_in(0x80, 0x17F))]) }
    fn i01_pair_far() { let a = ch(any_in(0x80, 0xFF)); let b = ch(any_in(0x4E00, 0x4E7F)); if any_bool() { round(&[a, b]) } else { round(&[b, a]) } }
    fn i04_name_2() { ascii(&picks(2, &NAME)) }
    fn i04_name_3() { ascii(&picks(3, &NAME)) }
    fn i04_bidi_3() { ascii(&picks(3, &BIDI)) }
    fn i04_ace_2() { ascii(&ace(&picks(2, &ACE), &[], &[])) }
    fn i04_ace_3() { ascii(&ace(&picks(3, &ACE), &[], &[])) }
    fn i04_ace_ace() { ascii(&ace(&picks(2, &LDH), &[0x78, 0x6E, 0x2D, 0x2D], &[0x2D])) }
    fn i04_plain_3() { plain(3) }
    fn i04_plain_4() { plain(4) }
    fn i04_lengths() { lengths() }
}
