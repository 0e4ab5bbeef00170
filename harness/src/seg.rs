use crate::sym::*;
use unic_segment::*;
/// Classes of the reference tables (Unicode 10.0).
mod g { pub const OTHER: u32 = 0; pub const CR: u32 = 1; pub const LF: u32 = 2; pub const CONTROL: u32 = 3; pub const EXTEND: u32 = 4; pub const ZWJ: u32 = 5; pub const REGIONAL_INDICATOR: u32 = 6; pub const PREPEND: u32 = 7; pub const SPACING_MARK: u32 = 8; pub const L: u32 = 9; pub const V: u32 = 10; pub const T: u32 = 11; pub const LV: u32 = 12; pub const LVT: u32 = 13; pub const EBASE: u32 = 14; pub const EMODIFIER: u32 = 15; pub const GLUE_AFTER_ZWJ: u32 = 16; pub const EBASE_GAZ: u32 = 17; }
mod w { pub const OTHER: u32 = 0; pub const CR: u32 = 1; pub const LF: u32 = 2; pub const NEWLINE: u32 = 3; pub const EXTEND: u32 = 4; pub const ZWJ: u32 = 5; pub const REGIONAL_INDICATOR: u32 = 6; pub const FORMAT: u32 = 7; pub const KATAKANA: u32 = 8; pub const HEBREW_LETTER: u32 = 9; pub const ALETTER: u32 = 10; pub const SINGLE_QUOTE: u32 = 11; pub const DOUBLE_QUOTE: u32 = 12; pub const MID_NUM_LET: u32 = 13; pub const MID_LETTER: u32 = 14; pub const MID_NUM: u32 = 15; pub const NUMERIC: u32 = 16; pub const EXTEND_NUM_LET: u32 = 17; pub const EBASE: u32 = 18; pub const EMODIFIER: u32 = 19; pub const GLUE_AFTER_ZWJ: u32 = 20; pub const EBASE_GAZ: u32 = 21; }

/// UAX #29 (Unicode 10.0) grapheme cluster rules: is there a boundary between g[i-1] and g[i]?
fn gb(g: &[u32], i: usize, extended: bool) -> bool {
    let (a, b) = (g[i - 1], g[i]);
    if a == g::CR && b == g::LF { return false; }
    if a == g::CONTROL || a == g::CR || a == g::LF { return true; }
    if b == g::CONTROL || b == g::CR || b == g::LF { return true; }
    if a == g::L && (b == g::L || b == g::V || b == g::LV || b == g::LVT) { return false; }
    if (a == g::LV || a == g::V) && (b == g::V || b == g::T) { return false; }
    if (a == g::LVT || a == g::T) && b == g::T { return false; }
    if b == g::EXTEND || b == g::ZWJ { return false; }
    if extended && b == g::SPACING_MARK { return false; }
    if extended && a == g::PREPEND { return false; }
    if b == g::EMODIFIER {
        let mut k = i - 1;
        while k > 0 && g[k] == g::EXTEND { k -= 1; }
        if g[k] == g::EBASE || g[k] == g::EBASE_GAZ { return false; }
    }
    if a == g::ZWJ && (b == g::GLUE_AFTER_ZWJ || b == g::EBASE_GAZ) { return false; }
    if a == g::REGIONAL_INDICATOR && b == g::REGIONAL_INDICATOR {
        let mut n = 0;
        let mut k = i;
        while k > 0 && g[k - 1] == g::REGIONAL_INDICATOR { n += 1; k -= 1; }
        return n % 2 == 0;
    }
    true
}

fn graphemes(n: usize, extended: bool) {
    let v = any_chars(n);
    let s = to_string(&v);
    let g: Vec<u32> = v.iter().map(|&c| reft(2, c)).collect();
    // expected boundaries in byte offsets
    let mut want: Vec<usize> = Vec::with_capacity(n + 1);
    let mut off = 0;
    want.push(0);
    for i in 0..n { if i > 0 && gb(&g, i, extended) { want.push(off); } off += v[i].len_utf8(); }
    want.push(off);
    let mut it = if extended { Graphemes::new(&s) } else { Graphemes::new_legacy(&s) };
    let mut p = 0;
    let mut k = 0;
    while let Some(x) = it.next() {
        check(x.as_ptr() as usize == s.as_ptr() as usize + p, 1);
        p += x.len();
        k += 1;
        check(k < want.len(), 2);
        check(want[k] == p, 3);
    }
    check(p == s.len(), 4);
    let mut it = if extended { Graphemes::new(&s) } else { Graphemes::new_legacy(&s) };
    let mut k = want.len() - 1;
    while let Some(x) = it.next_back() {
        check(k > 0, 5);
        check(x.as_ptr() as usize == s.as_ptr() as usize + want[k - 1], 6);
        check(x.len() == want[k] - want[k - 1], 7);
        k -= 1;
    }
    check(k == 0, 8);
    cover(1);
}

fn skip(c: u32) -> bool { c == w::EXTEND || c == w::FORMAT || c == w::ZWJ }
fn ahl(c: u32) -> bool { c == w::ALETTER || c == w::HEBREW_LETTER }
fn mnlq(c: u32) -> bool { c == w::MID_NUM_LET || c == w::SINGLE_QUOTE }
fn brk(c: u32) -> bool { c == w::CR || c == w::LF || c == w::NEWLINE }

/// UAX #29 (Unicode 10.0) word boundary rules: is there a boundary between g[i-1] and g[i]?
fn wb(g: &[u32], i: usize) -> bool {
    let (p, b) = (g[i - 1], g[i]);
    if p == w::CR && b == w::LF { return false; } // WB3
    if brk(p) || brk(b) { return true; } // WB3a, WB3b
    if p == w::ZWJ && (b == w::GLUE_AFTER_ZWJ || b == w::EBASE_GAZ) { return false; } // WB3c
    if skip(b) { return false; } // WB4
    // WB4: the character that the run of Extend/Format/ZWJ before i is attached to
    let mut ai = i - 1;
    while ai > 0 && skip(g[ai]) && !brk(g[ai - 1]) { ai -= 1; }
    let a = g[ai];
    // the significant character before a
    let mut before = None;
    if ai > 0 {
        let mut k = ai - 1;
        while k > 0 && skip(g[k]) && !brk(g[k - 1]) { k -= 1; }
        before = Some(g[k]);
    }
    // the significant character after b
    let mut ni = i + 1;
    while ni < g.len() && skip(g[ni]) { ni += 1; }
    let after = if ni < g.len() { Some(g[ni]) } else { None };
    if ahl(a) && ahl(b) { return false; } // WB5
    if ahl(a) && (b == w::MID_LETTER || mnlq(b)) { if let Some(n) = after { if ahl(n) { return false; } } } // WB6
    if ahl(b) && (a == w::MID_LETTER || mnlq(a)) { if let Some(q) = before { if ahl(q) { return false; } } } // WB7
    if a == w::HEBREW_LETTER && b == w::SINGLE_QUOTE { return false; } // WB7a
    if a == w::HEBREW_LETTER && b == w::DOUBLE_QUOTE { if after == Some(w::HEBREW_LETTER) { return false; } } // WB7b
    if a == w::DOUBLE_QUOTE && b == w::HEBREW_LETTER { if before == Some(w::HEBREW_LETTER) { return false; } } // WB7c
    if a == w::NUMERIC && b == w::NUMERIC { return false; } // WB8
    if ahl(a) && b == w::NUMERIC { return false; } // WB9
    if a == w::NUMERIC && ahl(b) { return false; } // WB10
    if b == w::NUMERIC && (a == w::MID_NUM || mnlq(a)) { if before == Some(w::NUMERIC) { return false; } } // WB11
    if a == w::NUMERIC && (b == w::MID_NUM || mnlq(b)) { if after == Some(w::NUMERIC) { return false; } } // WB12
    if a == w::KATAKANA && b == w::KATAKANA { return false; } // WB13
    if (ahl(a) || a == w::NUMERIC || a == w::KATAKANA || a == w::EXTEND_NUM_LET) && b == w::EXTEND_NUM_LET { return false; } // WB13a
    if a == w::EXTEND_NUM_LET && (ahl(b) || b == w::NUMERIC || b == w::KATAKANA) { return false; } // WB13b
    if (a == w::EBASE || a == w::EBASE_GAZ) && b == w::EMODIFIER { return false; } // WB14
    if a == w::REGIONAL_INDICATOR && b == w::REGIONAL_INDICATOR { // WB15, WB16
        let mut n = 0;
        let mut k = i;
        while k > 0 {
            k -= 1;
            if g[k] == w::REGIONAL_INDICATOR { n += 1; } else if skip(g[k]) && k > 0 && !brk(g[k - 1]) { } else { break; }
        }
        return n % 2 == 0;
    }
    true
}

fn words_fwd(n: usize) {
    let v = any_chars(n);
    let s = to_string(&v);
    let g: Vec<u32> = v.iter().map(|&c| reft(3, c)).collect();
    let mut it = WordBounds::new(&s);
    let mut want: Vec<usize> = Vec::with_capacity(n + 1);
    let mut off = 0;
    for i in 0..n { if i > 0 && wb(&g, i) { want.push(off); } off += v[i].len_utf8(); }
    want.push(off);
    let mut p = 0;
    let mut k = 0;
    while let Some(x) = it.next() {
        check(x.as_ptr() as usize == s.as_ptr() as usize + p, 1);
        check(x.len() > 0, 2);
        p += x.len();
        check(k < want.len(), 3);
        check(want[k] == p, 4);
        k += 1;
    }
    check(p == s.len(), 5);
    cover(1);
}
fn words_bwd(n: usize) {
    let v = any_chars(n);
    let s = to_string(&v);
    let g: Vec<u32> = v.iter().map(|&c| reft(3, c)).collect();
    let mut it = WordBounds::new(&s);
    let mut want: Vec<usize> = Vec::with_capacity(n + 1);
    let mut off = 0;
    want.push(0);
    for i in 0..n { if i > 0 && wb(&g, i) { want.push(off); } off += v[i].len_utf8(); }
    want.push(off);
    let mut k = want.len() - 1;
    while let Some(x) = it.next_back() {
        check(k > 0, 5);
        check(x.as_ptr() as usize == s.as_ptr() as usize + want[k - 1], 6);
        check(x.len() == want[k] - want[k - 1], 7);
        k -= 1;
    }
    check(k == 0, 8);
    cover(1);
}


/// One character from each class in the list, any value of the range.
fn pick(f: &[(u32, u32)]) -> char {
    let (a, b) = f[choose(0, f.len() as u32 - 1) as usize];
    let c = if a == b { a } else { any_in(a, b) };
    unsafe { char::from_u32_unchecked(c) }
}
fn picks(n: usize, f: &[(u32, u32)]) -> Vec<char> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(pick(f)); } v }
fn want_w(v: &[char]) -> Vec<usize> {
    let g: Vec<u32> = v.iter().map(|&c| reft(3, c)).collect();
    let mut want: Vec<usize> = Vec::with_capacity(v.len() + 1);
    let mut off = 0;
    want.push(0);
    for i in 0..v.len() { if i > 0 && wb(&g, i) { want.push(off); } off += v[i].len_utf8(); }
    if off > 0 { want.push(off); }
    want
}
fn want_g(v: &[char], extended: bool) -> Vec<usize> {
    let g: Vec<u32> = v.iter().map(|&c| reft(2, c)).collect();
    let mut want: Vec<usize> = Vec::with_capacity(v.len() + 1);
    let mut off = 0;
    want.push(0);
    for i in 0..v.len() { if i > 0 && gb(&g, i, extended) { want.push(off); } off += v[i].len_utf8(); }
    if off > 0 { want.push(off); }
    want
}
fn words_both(v: &[char]) {
    let s = to_string(v);
    let want = want_w(v);
    let mut it = WordBounds::new(&s);
    let mut k = 0;
    while let Some(x) = it.next() {
        check(k + 1 < want.len(), 1);
        check(x.as_ptr() as usize == s.as_ptr() as usize + want[k], 2);
        check(x.len() == want[k + 1] - want[k], 3);
        k += 1;
    }
    check(k + 1 == want.len(), 4);
    let mut it = WordBounds::new(&s);
    while let Some(x) = it.next_back() {
        check(k > 0, 5);
        check(x.as_ptr() as usize == s.as_ptr() as usize + want[k - 1], 6);
        check(x.len() == want[k] - want[k - 1], 7);
        k -= 1;
    }
    check(k == 0, 8);
    cover(1);
}
fn graphemes_both(v: &[char]) {
    let s = to_string(v);
    let ext = choose(0, 1) == 1;
    let want = want_g(v, ext);
    let mut it = if ext { Graphemes::new(&s) } else { Graphemes::new_legacy(&s) };
    let mut k = 0;
    while let Some(x) = it.next() {
        check(k + 1 < want.len(), 1);
        check(x.as_ptr() as usize == s.as_ptr() as usize + want[k], 2);
        check(x.len() == want[k + 1] - want[k], 3);
        k += 1;
    }
    check(k + 1 == want.len(), 4);
    let mut it = if ext { Graphemes::new(&s) } else { Graphemes::new_legacy(&s) };
    while let Some(x) = it.next_back() {
        check(k > 0, 5);
        check(x.as_ptr() as usize == s.as_ptr() as usize + want[k - 1], 6);
        check(x.len() == want[k] - want[k - 1], 7);
        k -= 1;
    }
    check(k == 0, 8);
    cover(1);
}
// Ranges of one class each (and of one UTF-8 length each).
const W_LETTERS: [(u32, u32); 13] = [(0x61, 0x7A), (0x5D0, 0x5EA), (0x27, 0x27), (0x22, 0x22), (0x3A, 0x3A), (0x2E, 0x2E), (0x30, 0x39), (0x2C, 0x2C), (0x300, 0x36F), (0x30A1, 0x30FA), (0x5F, 0x5F), (0x20, 0x20), (0xA, 0xA)];
const W_QUOTES: [(u32, u32); 7] = [(0x61, 0x7A), (0x5D0, 0x5EA), (0x27, 0x27), (0x22, 0x22), (0x2E, 0x2E), (0x30, 0x39), (0x300, 0x36F)];
const W_EMOJI: [(u32, u32); 8] = [(0x61, 0x7A), (0x300, 0x36F), (0xAD, 0xAD), (0x200D, 0x200D), (0x261D, 0x261D), (0x1F3FB, 0x1F3FF), (0x1F5E8, 0x1F5E8), (0x1F466, 0x1F469)];
const W_FLAGS: [(u32, u32); 5] = [(0x61, 0x7A), (0x300, 0x36F), (0x200D, 0x200D), (0x1F1E6, 0x1F1FF), (0xA, 0xA)];
const G_EMOJI: [(u32, u32); 7] = [(0x61, 0x7A), (0x300, 0x36F), (0x200D, 0x200D), (0x261D, 0x261D), (0x1F3FB, 0x1F3FF), (0x1F466, 0x1F469), (0x600, 0x605)];
const G_FLAGS: [(u32, u32); 5] = [(0x61, 0x7A), (0x300, 0x36F), (0x1F1E6, 0x1F1FF), (0xA, 0xA), (0x600, 0x605)];
const G_ALL: [(u32, u32); 18] = [(0x61, 0x7A), (0xD, 0xD), (0xA, 0xA), (0, 9), (0x300, 0x36F), (0x200D, 0x200D), (0x1F1E6, 0x1F1FF), (0x600, 0x605), (0x903, 0x903), (0x1100, 0x115F), (0x1160, 0x11A7), (0x11A8, 0x11FF), (0xAC00, 0xAC00), (0xAC01, 0xAC1B), (0x261D, 0x261D), (0x1F3FB, 0x1F3FF), (0x1F5E8, 0x1F5E8), (0x1F466, 0x1F469)];
const W_ALL: [(u32, u32); 22] = [(0x20, 0x20), (0xD, 0xD), (0xA, 0xA), (0xB, 0xC), (0x300, 0x36F), (0x200D, 0x200D), (0x1F1E6, 0x1F1FF), (0xAD, 0xAD), (0x30A1, 0x30FA), (0x5D0, 0x5EA), (0x61, 0x7A), (0x27, 0x27), (0x22, 0x22), (0x2E, 0x2E), (0x3A, 0x3A), (0x2C, 0x2C), (0x30, 0x39), (0x5F, 0x5F), (0x261D, 0x261D), (0x1F3FB, 0x1F3FF), (0x1F5E8, 0x1F5E8), (0x1F466, 0x1F469)];

/// S02: any interleaving of front and back calls.
fn g_mixed(v: &[char]) {
    let s = to_string(v);
    let ext = choose(0, 1) == 1;
    let want = want_g(v, ext);
    let base = s.as_ptr() as usize;
    let (mut i, mut j) = (0, want.len() - 1);
    let mut it = if ext { Graphemes::new(&s) } else { Graphemes::new_legacy(&s) };
    let mut ix = if ext { GraphemeIndices::new(&s) } else { GraphemeIndices::new_legacy(&s) };
    loop {
        for r in [it.as_str(), ix.as_str()] { check(r.as_ptr() as usize == base + want[i] && r.len() == want[j] - want[i], 1); }
        for (lo, hi) in [it.size_hint(), ix.size_hint()] { check(lo <= j - i && hi.map_or(true, |h| j - i <= h), 2); }
        let back = choose(0, 1) == 1;
        let (x, y) = if back { (it.next_back(), ix.next_back()) } else { (it.next(), ix.next()) };
        if i == j { check(x.is_none() && y.is_none(), 3); break; }
        let (a, b) = if back { j -= 1; (want[j], want[j + 1]) } else { i += 1; (want[i - 1], want[i]) };
        match x { Some(x) => check(x.as_ptr() as usize == base + a && x.len() == b - a, 4), None => check(false, 5) }
        match y { Some((o, x)) => check(o == a && x.as_ptr() as usize == base + a && x.len() == b - a, 6), None => check(false, 7) }
    }
    check(it.next().is_none() && ix.next_back().is_none(), 8);
    cover(1);
}
/// S05: any interleaving of front and back calls loses and repeats nothing.
fn w_mixed(v: &[char], strict: bool) {
    let s = to_string(v);
    let want = want_w(v);
    let base = s.as_ptr() as usize;
    let (mut a, mut b) = (0, s.len());
    let (mut i, mut j) = (0, want.len() - 1);
    let mut it = WordBounds::new(&s);
    let mut ix = WordBoundIndices::new(&s);
    let mut fuel = 2 * s.len() + 2;
    loop {
        fuel -= 1; check(fuel > 0, 9);
        for r in [it.as_str(), ix.as_str()] { check(r.as_ptr() as usize == base + a && r.len() == b - a, 1); }
        let (lo, hi) = it.size_hint();
        check(lo <= 1 && (lo == 0 || a < b) && hi.map_or(true, |h| b - a <= h), 2);
        check(ix.size_hint() == (lo, hi), 10);
        let back = choose(0, 1) == 1;
        let (x, y) = if back { (it.next_back(), ix.next_back()) } else { (it.next(), ix.next()) };
        if a == b { check(x.is_none() && y.is_none(), 3); break; }
        check(x.is_some() && y.is_some(), 4);
        if let (Some(x), Some((o, y))) = (x, y) {
            check(x.as_ptr() as usize == y.as_ptr() as usize && x.len() == y.len(), 5);
            let p = x.as_ptr() as usize - base;
            check(x.len() > 0 && o == p, 6);
            if back { check(p + x.len() == b, 7); b = p; j -= 1; if strict { check(p == want[j], 11); } } else { check(p == a, 8); a += x.len(); i += 1; if strict { check(a == want[i], 12); } }
        }
    }
    let _ = (i, j);
    check(it.next().is_none() && ix.next_back().is_none(), 13);
    cover(1);
}
/// S05: the filter keeps exactly the pieces it accepts.
fn keep(s: &&str) -> bool { let b = s.as_bytes()[0]; b >= b'a' || b == b'.' }
fn w_filter(v: &[char]) {
    let s = to_string(v);
    let base = s.as_ptr() as usize;
    let want = want_w(v);
    let mut kept = Vec::with_capacity(v.len());
    for k in 1..want.len() { let x = &s[want[k - 1]..want[k]]; if keep(&x) { kept.push((want[k - 1], x.len())); } }
    let mut it = Words::new(&s, keep);
    for &(p, l) in kept.iter() { match it.next() { Some(x) => check(x.as_ptr() as usize == base + p && x.len() == l, 1), None => check(false, 2) } }
    check(it.next().is_none(), 3);
    let mut it = Words::new(&s, keep);
    for &(p, l) in kept.iter().rev() { match it.next_back() { Some(x) => check(x.as_ptr() as usize == base + p && x.len() == l, 4), None => check(false, 5) } }
    check(it.next_back().is_none(), 6);
    cover(1);
}

/// S03: a text cut into chunks.
struct Text { s: String, off: Vec<usize>, cut: Vec<usize>, brk: Vec<bool>, n: usize }
impl Text {
    fn new(v: &[char], ext: bool) -> Text {
        let n = v.len();
        let g: Vec<u32> = v.iter().map(|&c| reft(2, c)).collect();
        let mut off = Vec::with_capacity(n + 1);
        let mut brk = Vec::with_capacity(n + 1);
        let mut cut = Vec::with_capacity(n + 1);
        let mut o = 0;
        for i in 0..n {
            off.push(o);
            brk.push(i == 0 || gb(&g, i, ext));
            if i == 0 || choose(0, 1) == 1 { cut.push(i); }
            o += v[i].len_utf8();
        }
        off.push(o); brk.push(true); cut.push(n);
        Text { s: to_string(v), off, cut, brk, n }
    }
    /// The chunk holding the character after position i (the last chunk at the end).
    fn at(&self, i: usize) -> (usize, usize) {
        let mut k = 0;
        while k + 2 < self.cut.len() && self.cut[k + 1] <= i { k += 1; }
        (self.cut[k], self.cut[k + 1])
    }
    fn before(&self, i: usize) -> usize { let mut k = 0; while k + 1 < self.cut.len() && self.cut[k + 1] < i { k += 1; } self.cut[k] }
    fn sl(&self, a: usize, b: usize) -> &str { &self.s[self.off[a]..self.off[b]] }
    fn context(&self, cur: &mut GraphemeCursor, p: usize) {
        let mut k = 0;
        while k < self.n && self.off[k] != p { k += 1; }
        check(k > 0 && self.off[k] == p, 20);
        let a = self.before(k);
        cur.provide_context(self.sl(a, k), self.off[a]);
    }
    fn is(&self, cur: &mut GraphemeCursor, i: usize) {
        let (a, b) = self.at(i);
        let mut fuel = self.n + 2;
        loop {
            fuel -= 1; check(fuel > 0, 21);
            match cur.is_boundary(self.sl(a, b), self.off[a]) {
                Ok(r) => { check(r == self.brk[i], 22); return; }
                Err(GraphemeIncomplete::PreContext(p)) => self.context(cur, p),
                Err(_) => check(false, 23),
            }
        }
    }
    fn next(&self, cur: &mut GraphemeCursor, i: usize) -> usize {
        let mut j = i + 1;
        if i < self.n { while !self.brk[j] { j += 1; } }
        let (mut a, mut b) = self.at(i);
        let mut fuel = 3 * self.n + 4;
        loop {
            fuel -= 1; check(fuel > 0, 24);
            match cur.next_boundary(self.sl(a, b), self.off[a]) {
                Ok(None) => { check(i == self.n, 25); return i; }
                Ok(Some(p)) => { check(i < self.n && p == self.off[j], 26); check(cur.cur_cursor() == p, 27); return j; }
                Err(GraphemeIncomplete::PreContext(p)) => self.context(cur, p),
                Err(GraphemeIncomplete::NextChunk) => { check(b < self.n, 28); a = b; b = self.at(a).1; }
                Err(_) => check(false, 29),
            }
        }
    }
    fn prev(&self, cur: &mut GraphemeCursor, i: usize) -> usize {
        let mut j = i;
        if i > 0 { j -= 1; while !self.brk[j] { j -= 1; } }
        let (mut a, mut b) = self.at(i);
        let mut fuel = 3 * self.n + 4;
        loop {
            fuel -= 1; check(fuel > 0, 30);
            match cur.prev_boundary(self.sl(a, b), self.off[a]) {
                Ok(None) => { check(i == 0, 31); return i; }
                Ok(Some(p)) => { check(i > 0 && p == self.off[j], 32); check(cur.cur_cursor() == p, 33); return j; }
                Err(GraphemeIncomplete::PreContext(p)) => self.context(cur, p),
                Err(GraphemeIncomplete::PrevChunk) => { check(a > 0, 34); b = a; a = self.before(a); }
                Err(_) => check(false, 35),
            }
        }
    }
}
fn cursor(ext: bool, at: usize, len: usize) -> GraphemeCursor { if ext { GraphemeCursor::new(at, len) } else { GraphemeCursor::new_legacy(at, len) } }
fn cur_is(v: &[char]) {
    let ext = choose(0, 1) == 1;
    let t = Text::new(v, ext);
    let i = choose(0, v.len() as u32) as usize;
    t.is(&mut cursor(ext, t.off[i], t.s.len()), i);
    cover(1);
}
fn cur_next(v: &[char]) {
    let ext = choose(0, 1) == 1;
    let t = Text::new(v, ext);
    let mut i = choose(0, v.len() as u32) as usize;
    let mut c = cursor(ext, t.off[i], t.s.len());
    loop { let j = t.next(&mut c, i); if i == t.n { break; } check(j > i, 36); i = j; }
    cover(1);
}
fn cur_prev(v: &[char]) {
    let ext = choose(0, 1) == 1;
    let t = Text::new(v, ext);
    let mut i = choose(0, v.len() as u32) as usize;
    let mut c = cursor(ext, t.off[i], t.s.len());
    loop { let j = t.prev(&mut c, i); if i == 0 { break; } check(j < i, 37); i = j; }
    cover(1);
}
/// k calls of any kind on one cursor, abandoned half way or not, with repositioning.
fn cur_mix(v: &[char], k: usize) {
    let ext = choose(0, 1) == 1;
    let t = Text::new(v, ext);
    let mut i = choose(0, v.len() as u32) as usize;
    let mut c = cursor(ext, t.off[i], t.s.len());
    for _ in 0..k {
        match choose(0, 3) {
            0 => t.is(&mut c, i),
            1 => i = t.next(&mut c, i),
            2 => i = t.prev(&mut c, i),
            _ => {
                // start something, then reposition
                let (a, b) = t.at(i);
                match choose(0, 2) {
                    0 => { let _ = c.is_boundary(t.sl(a, b), t.off[a]); }
                    1 => { let _ = c.next_boundary(t.sl(a, b), t.off[a]); }
                    _ => { let _ = c.prev_boundary(t.sl(a, b), t.off[a]); }
                }
                i = choose(0, v.len() as u32) as usize;
                c.set_cursor(t.off[i]);
                check(c.cur_cursor() == t.off[i], 38);
            }
        }
    }
    cover(1);
}

harness! {
    fn s01_ext_2() { graphemes(2, true) }
    fn s01_ext_3() { graphemes(3, true) }
    fn s01_ext_4() { graphemes(4, true) }
    fn s01_ext_5() { graphemes(5, true) }
    fn s01_leg_3() { graphemes(3, false) }
    fn s01_leg_4() { graphemes(4, false) }
    fn s01_emoji_6() { graphemes_both(&picks(6, &G_EMOJI)) }
    fn s01_flags_7() { graphemes_both(&picks(7, &G_FLAGS)) }
    fn s01_emoji_7() { graphemes_both(&picks(7, &G_EMOJI)) }
    fn s01_flags_9() { graphemes_both(&picks(9, &G_FLAGS)) }
    fn s02_mix_2() { g_mixed(&any_chars(2)) }
    fn s02_mix_3() { g_mixed(&any_chars(3)) }
    fn s02_mix_4() { g_mixed(&any_chars(4)) }
    fn s02_emoji_5() { g_mixed(&picks(5, &G_EMOJI)) }
    fn s02_flags_6() { g_mixed(&picks(6, &G_FLAGS)) }
    fn s02_emoji_6() { g_mixed(&picks(6, &G_EMOJI)) }
    fn s02_flags_8() { g_mixed(&picks(8, &G_FLAGS)) }
    fn s03_is_2() { cur_is(&any_chars(2)) }
    fn s03_is_3() { cur_is(&any_chars(3)) }
    fn s03_is_all_4() { cur_is(&picks(4, &G_ALL)) }
    fn s03_is_emoji_4() { cur_is(&picks(4, &G_EMOJI)) }
    fn s03_next_emoji_4() { cur_next(&picks(4, &G_EMOJI)) }
    fn s03_prev_emoji_4() { cur_prev(&picks(4, &G_EMOJI)) }
    fn s03_mix_flags_2() { cur_mix(&picks(2, &G_FLAGS), 3) }
    fn s03_is_emoji_5() { cur_is(&picks(5, &G_EMOJI)) }
    fn s03_next_2() { cur_next(&any_chars(2)) }
    fn s03_next_3() { cur_next(&any_chars(3)) }
    fn s03_next_all_4() { cur_next(&picks(4, &G_ALL)) }
    fn s03_next_emoji_5() { cur_next(&picks(5, &G_EMOJI)) }
    fn s03_next_flags_5() { cur_next(&picks(5, &G_FLAGS)) }
    fn s03_next_flags_6() { cur_next(&picks(6, &G_FLAGS)) }
    fn s03_prev_2() { cur_prev(&any_chars(2)) }
    fn s03_prev_3() { cur_prev(&any_chars(3)) }
    fn s03_prev_all_4() { cur_prev(&picks(4, &G_ALL)) }
    fn s03_prev_emoji_5() { cur_prev(&picks(5, &G_EMOJI)) }
    fn s03_prev_flags_5() { cur_prev(&picks(5, &G_FLAGS)) }
    fn s03_prev_flags_6() { cur_prev(&picks(6, &G_FLAGS)) }
    fn s03_mix_all_2() { cur_mix(&picks(2, &G_ALL), 2) }
    fn s03_mix_flags_3() { cur_mix(&picks(3, &G_FLAGS), 3) }
    fn s03_mix_emoji_3() { cur_mix(&picks(3, &G_EMOJI), 2) }
    fn s03_mix_flags_4() { cur_mix(&picks(4, &G_FLAGS), 3) }
    fn s03_mix_emoji_4() { cur_mix(&picks(4, &G_EMOJI), 3) }
    fn s04_fwd_2() { words_fwd(2) }
    fn s04_fwd_3() { words_fwd(3) }
    fn s04_fwd_4() { words_fwd(4) }
    fn s04_fwd_5() { words_fwd(5) }
    fn s04_bwd_3() { words_bwd(3) }
    fn s04_bwd_4() { words_bwd(4) }
    fn s04_bwd_5() { words_bwd(5) }
    fn s04_letters_5() { words_both(&picks(5, &W_LETTERS)) }
    fn s04_quotes_6() { words_both(&picks(6, &W_QUOTES)) }
    fn s04_emoji_6() { words_both(&picks(6, &W_EMOJI)) }
    fn s04_flags_7() { words_both(&picks(7, &W_FLAGS)) }
    fn s04_quotes_7() { words_both(&picks(7, &W_QUOTES)) }
    fn s04_emoji_7() { words_both(&picks(7, &W_EMOJI)) }
    fn s04_flags_9() { words_both(&picks(9, &W_FLAGS)) }
    fn s05_mix_2() { w_mixed(&any_chars(2), true) }
    fn s05_mix_3() { w_mixed(&any_chars(3), true) }
    fn s05_mix_all_4() { w_mixed(&picks(4, &W_ALL), true) }
    fn s05_quotes_5() { w_mixed(&picks(5, &W_QUOTES), true) }
    fn s05_emoji_5() { w_mixed(&picks(5, &W_EMOJI), true) }
    fn s05_flags_6() { w_mixed(&picks(6, &W_FLAGS), true) }
    fn s05_letters_5() { w_mixed(&picks(5, &W_LETTERS), true) }
    fn s05_quotes_6() { w_mixed(&picks(6, &W_QUOTES), true) }
    fn s05_emoji_6() { w_mixed(&picks(6, &W_EMOJI), true) }
    fn s05_flags_8() { w_mixed(&picks(8, &W_FLAGS), true) }
    fn s05_filter_3() { w_filter(&any_chars(3)) }
    fn s05_filter_all_4() { w_filter(&picks(4, &W_ALL)) }
}
