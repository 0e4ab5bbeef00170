use crate::codes;
use crate::sym::*;
use unic_bidi::level::{Error, Level};
use unic_bidi::{BidiInfo, ParagraphInfo};

// Codes of the classes (reference table 5).
const L: u32 = 0; const R: u32 = 1; const AL: u32 = 2; const EN: u32 = 3; const ES: u32 = 4; const ET: u32 = 5; const AN: u32 = 6; const CS: u32 = 7;
const NSM: u32 = 8; const BN: u32 = 9; const B: u32 = 10; const S: u32 = 11; const WS: u32 = 12; const ON: u32 = 13;
const LRE: u32 = 14; const LRO: u32 = 15; const RLE: u32 = 16; const RLO: u32 = 17; const PDF: u32 = 18; const LRI: u32 = 19; const RLI: u32 = 20; const FSI: u32 = 21; const PDI: u32 = 22;
const NONE: usize = usize::MAX;

fn removed(c: u32) -> bool { c == BN || (c >= LRE && c <= PDF) }
fn initiator(c: u32) -> bool { c >= LRI && c <= FSI }
fn neutral(c: u32) -> bool { (c >= B && c <= ON) || (c >= LRI && c <= PDI) }
fn strong_of(level: u8) -> u32 { if level % 2 == 1 { R } else { L } }

/// BD9: the matching PDI of every isolate initiator of one paragraph, `NONE` without one.
fn matching(c: &[u32]) -> Vec<usize> {
    let mut m = Vec::with_capacity(c.len());
    for i in 0..c.len() {
        let mut x = NONE;
        if initiator(c[i]) {
            let mut depth = 1;
            for j in i + 1..c.len() {
                if initiator(c[j]) { depth += 1; } else if c[j] == PDI { depth -= 1; if depth == 0 { x = j; break; } }
            }
        }
        m.push(x);
    }
    m
}
/// P2: the first strong class in from..to outside isolates.
fn first_strong(c: &[u32], m: &[usize], from: usize, to: usize) -> Option<u32> {
    let mut i = from;
    while i < to {
        if c[i] <= AL { return Some(c[i]); }
        if initiator(c[i]) { if m[i] == NONE { return None; } i = m[i]; }
        i += 1;
    }
    None
}
/// One paragraph: resolved levels, 255 for characters rule X9 removes; what the isolates resolve to; the paragraph level.
fn spec_para(c: &[u32], want: Option<u8>) -> (Vec<u8>, Vec<u32>, u8) {
    let n = c.len();
    let m = matching(c);
    let para = match want { Some(p) => p, None => match first_strong(c, &m, 0, n) { Some(L) | None => 0, _ => 1 } };
    // X1-X8
    let mut st: Vec<(u8, u32, bool)> = Vec::with_capacity(130);
    st.push((para, ON, false));
    let (mut over_iso, mut over_emb, mut valid) = (0u32, 0u32, 0u32);
    let mut lev = Vec::with_capacity(n);
    let mut cls = Vec::with_capacity(n);
    let mut orig = Vec::with_capacity(n);
    for i in 0..n {
        let mut x = c[i];
        if x == FSI {
            let to = if m[i] == NONE { n } else { m[i] };
            match first_strong(c, &m, i + 1, to) { Some(L) => orig.push(LRI), Some(_) => orig.push(RLI), None => orig.push(FSI) }
            x = if orig[i] == RLI { RLI } else { LRI };
        } else { orig.push(x); }
        let top = st[st.len() - 1];
        let rtl = x == RLE || x == RLO || x == RLI;
        let next = if rtl { (top.0 + 1) | 1 } else { (top.0 + 2) & !1 };
        let fits = next <= 125 && over_iso == 0 && over_emb == 0;
        let (mut l, mut k) = (top.0, if top.1 == ON { c[i] } else { top.1 });
        if x >= LRE && x <= RLO {
            if fits { st.push((next, if x == LRO { L } else if x == RLO { R } else { ON }, false)); } else if over_iso == 0 { over_emb += 1; }
        } else if x == LRI || x == RLI {
            if fits { valid += 1; st.push((next, ON, true)); } else { over_iso += 1; }
        } else if x == PDI {
            if over_iso > 0 { over_iso -= 1; } else if valid > 0 {
                over_emb = 0;
                while !st[st.len() - 1].2 { st.pop(); }
                st.pop();
                valid -= 1;
            }
            let top = st[st.len() - 1];
            l = top.0; k = if top.1 == ON { PDI } else { top.1 };
        } else if x == PDF {
            if over_iso > 0 { } else if over_emb > 0 { over_emb -= 1; } else if !st[st.len() - 1].2 && st.len() >= 2 { st.pop(); }
        } else if x == B { l = para; k = B; }
        if removed(x) { l = 255; k = BN; }
        lev.push(l);
        cls.push(k);
    }
    // X9-X10: level runs of the characters left, then isolating run sequences (BD13).
    let mut idx = Vec::with_capacity(n);
    let mut run_of = Vec::with_capacity(n); // run number of each character
    let mut runs: Vec<(usize, usize)> = Vec::with_capacity(n); // over idx
    for i in 0..n {
        if lev[i] == 255 { run_of.push(NONE); continue; }
        let k = idx.len();
        if k == 0 || lev[idx[k - 1]] != lev[i] { runs.push((k, k + 1)); } else { let r = runs.len() - 1; runs[r].1 = k + 1; }
        run_of.push(runs.len() - 1);
        idx.push(i);
    }
    let mut opener = Vec::with_capacity(n); // does this PDI match an initiator
    for _ in 0..n { opener.push(false); }
    for i in 0..n { if m[i] != NONE { opener[m[i]] = true; } }
    let mut fin = Vec::with_capacity(n);
    for i in 0..n { fin.push(lev[i]); }
    for r in 0..runs.len() {
        let first = idx[runs[r].0];
        if c[first] == PDI && opener[first] { continue; }
        let mut q: Vec<usize> = Vec::with_capacity(n); // the sequence
        let mut cur = r;
        let last;
        loop {
            for k in runs[cur].0..runs[cur].1 { q.push(idx[k]); }
            let e = idx[runs[cur].1 - 1];
            if initiator(c[e]) && m[e] != NONE { cur = run_of[m[e]]; } else { last = cur; break; }
        }
        let l = lev[first];
        let before = if runs[r].0 == 0 { para } else { lev[idx[runs[r].0 - 1]] };
        let after = if runs[last].1 == idx.len() || initiator(c[idx[runs[last].1 - 1]]) { para } else { lev[idx[runs[last].1]] };
        let sos = strong_of(if before > l { before } else { l });
        let eos = strong_of(if after > l { after } else { l });
        let mut t = Vec::with_capacity(n);
        for &i in q.iter() { t.push(cls[i]); }
        weak(&mut t, sos);
        neutrals(&mut t, sos, eos, strong_of(l));
        for k in 0..q.len() {
            fin[q[k]] = match (l % 2, t[k]) { (0, R) => l + 1, (0, AN) | (0, EN) => l + 2, (1, L) | (1, AN) | (1, EN) => l + 1, _ => l };
        }
    }
    (fin, orig, para)
}
fn weak(t: &mut [u32], sos: u32) {
    let n = t.len();
    // W1
    for i in 0..n { if t[i] == NSM { t[i] = if i == 0 { sos } else if initiator(t[i - 1]) || t[i - 1] == PDI { ON } else { t[i - 1] }; } }
    // W2
    for i in 0..n { if t[i] == EN { let mut j = i; while j > 0 && t[j - 1] > AL { j -= 1; } if j > 0 && t[j - 1] == AL { t[i] = AN; } } }
    // W3
    for i in 0..n { if t[i] == AL { t[i] = R; } }
    // W4
    for i in 1..n {
        if i + 1 < n && t[i - 1] == t[i + 1] {
            if (t[i] == ES || t[i] == CS) && t[i - 1] == EN { t[i] = EN; } else if t[i] == CS && t[i - 1] == AN { t[i] = AN; }
        }
    }
    // W5
    for i in 0..n { if t[i] == ET {
        let mut j = i; while j < n && t[j] == ET { j += 1; }
        if (i > 0 && t[i - 1] == EN) || (j < n && t[j] == EN) { t[i] = EN; }
    } }
    // W6
    for i in 0..n { if t[i] == ES || t[i] == ET || t[i] == CS { t[i] = ON; } }
    // W7
    for i in 0..n { if t[i] == EN { let mut j = i; while j > 0 && t[j - 1] > R { j -= 1; } if (if j > 0 { t[j - 1] } else { sos }) == L { t[i] = L; } } }
}
/// N1-N2
fn neutrals(t: &mut [u32], sos: u32, eos: u32, e: u32) {
    let n = t.len();
    let side = |c: u32| if c == EN || c == AN { R } else { c };
    let mut i = 0;
    while i < n {
        if !neutral(t[i]) { i += 1; continue; }
        let mut j = i;
        while j < n && neutral(t[j]) { j += 1; }
        let a = if i == 0 { sos } else { side(t[i - 1]) };
        let b = if j == n { eos } else { side(t[j]) };
        let x = if a == b { a } else { e };
        for k in i..j { t[k] = x; }
        i = j;
    }
}

fn classes(v: &[char]) -> Vec<u32> { let mut c = Vec::with_capacity(v.len()); for &x in v { c.push(concrete(reft(5, x))); } c }
/// Decides paragraphs, classes and levels of one text for one requested direction.
fn text(v: &[char]) {
    let want = match choose(0, 2) { 0 => None, 1 => Some(0u8), _ => Some(1u8) };
    text_in(v, want)
}
fn text_in(v: &[char], want: Option<u8>) {
    let c = classes(v);
    let s = to_string(v);
    let info = BidiInfo::new(&s, match want { None => None, Some(0) => Some(Level::ltr()), Some(_) => Some(Level::rtl()) });
    check(info.levels.len() == s.len() && info.original_classes.len() == s.len(), 1);
    check(info.text.len() == s.len(), 2);
    let (mut i, mut b, mut p) = (0, 0, 0);
    let mut rtl = false;
    while i < v.len() {
        let mut e = i;
        while e < v.len() && c[e] != B { e += 1; }
        if e < v.len() { e += 1; }
        let (lev, orig, para) = spec_para(&c[i..e], want);
        check(p < info.paragraphs.len(), 3);
        let q = &info.paragraphs[p];
        check(q.range.start == b, 4);
        check(q.level.number() == para, 5);
        let mut prev = para;
        for k in i..e {
            let w = v[k].len_utf8();
            let x = info.levels[b].number();
            if lev[k - i] != 255 { check(x == lev[k - i], 6); } else { check(x == prev, 7); }
            check(x <= 126, 8);
            rtl |= x % 2 == 1;
            prev = x;
            for j in b..b + w {
                check(info.levels[j].number() == x, 9);
                check(codes::bc::code(info.original_classes[j]) == orig[k - i], 10);
            }
            b += w;
        }
        check(q.range.end == b, 11);
        i = e;
        p += 1;
    }
    check(p == info.paragraphs.len(), 12);
    check(info.has_rtl() == rtl, 13);
    cover(1);
}

fn pick(f: &[(u32, u32)]) -> char {
    let (a, b) = f[choose(0, f.len() as u32 - 1) as usize];
    let c = if a == b { a } else { any_in(a, b) };
    unsafe { char::from_u32_unchecked(c) }
}
fn picks(n: usize, f: &[(u32, u32)]) -> Vec<char> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(pick(f)); } v }
fn ch(c: u32) -> char { unsafe { char::from_u32_unchecked(c) } }

const LET: (u32, u32) = (0x61, 0x7A);
const HEB: (u32, u32) = (0x5D0, 0x5EA);
const ARA: (u32, u32) = (0x628, 0x62F);
const DIG: (u32, u32) = (0x30, 0x39);
/// One range per class, L to PDI.
const ALL: [(u32, u32); 23] = [LET, HEB, ARA, DIG, (0x2B, 0x2B), (0x23, 0x25), (0x660, 0x669), (0x2C, 0x2C), (0x300, 0x32F), (0x200B, 0x200B), (0xA, 0xA), (0x9, 0x9), (0x20, 0x20), (0x21, 0x22),
    (0x202A, 0x202A), (0x202D, 0x202D), (0x202B, 0x202B), (0x202E, 0x202E), (0x202C, 0x202C), (0x2066, 0x2066), (0x2067, 0x2067), (0x2068, 0x2068), (0x2069, 0x2069)];
/// The same classes written with another number of bytes where there is such a character.
const WIDE: [(u32, u32); 14] = [(0xE0, 0xE5), (0x10800, 0x10805), (0xFB50, 0xFB5F), (0x6F0, 0x6F9), (0x2212, 0x2212), (0x20A0, 0x20AF), (0x10E60, 0x10E60), (0xA0, 0xA0), (0x1D167, 0x1D169), (0x0, 0x1), (0x2029, 0x2029), (0x1F, 0x1F), (0x2000, 0x200A), (0x2190, 0x2199)];
const WEAK: [(u32, u32); 11] = [LET, HEB, ARA, (0x30, 0x30), (0x2B, 0x2B), (0x2212, 0x2212), (0x23, 0x23), (0x20AC, 0x20AC), (0x660, 0x660), (0x2C, 0x2C), (0x300, 0x300)];
const WEAKBN: [(u32, u32); 9] = [LET, ARA, (0x30, 0x30), (0xA0, 0xA0), (0x20AC, 0x20AC), (0x660, 0x660), (0x300, 0x300), (0x200B, 0x200B), (0x20, 0x20)];
const NEUT: [(u32, u32); 8] = [LET, HEB, (0x30, 0x30), (0x660, 0x660), (0x20, 0x20), (0x21, 0x21), (0x200B, 0x200B), (0x2067, 0x2067)];
const CTL: [(u32, u32); 11] = [LET, HEB, (0x202A, 0x202A), (0x202D, 0x202D), (0x202B, 0x202B), (0x202E, 0x202E), (0x202C, 0x202C), (0x2066, 0x2066), (0x2067, 0x2067), (0x2068, 0x2068), (0x2069, 0x2069)];
const ISO: [(u32, u32); 8] = [LET, HEB, (0x2066, 0x2066), (0x2067, 0x2067), (0x2068, 0x2068), (0x2069, 0x2069), (0x202B, 0x202B), (0x21, 0x21)];
const EMB: [(u32, u32); 8] = [LET, HEB, (0x202A, 0x202A), (0x202B, 0x202B), (0x202D, 0x202D), (0x202E, 0x202E), (0x202C, 0x202C), (0x21, 0x21)];
const SEQ: [(u32, u32); 7] = [HEB, (0x30, 0x30), (0x21, 0x21), (0x2066, 0x2066), (0x2067, 0x2067), (0x2069, 0x2069), (0x200B, 0x200B)];
const PARA: [(u32, u32); 8] = [LET, ARA, (0x2029, 0x2029), (0xA, 0xA), (0x2068, 0x2068), (0x2067, 0x2067), (0x2069, 0x2069), (0x202B, 0x202B)];

/// Near and beyond the depth limit: a run of openers, anything, some closers, a letter.
fn deep(tail: usize) {
    const OPEN: [(u32, u32, u32); 7] = [(0x202A, 0x202A, 62), (0x202B, 0x202A, 125), (0x202E, 0x202D, 125), (0x2066, 0x2066, 62), (0x2067, 0x2066, 125), (0x202B, 0x2066, 125), (0x2067, 0x202A, 125)];
    let (a, b, at) = OPEN[choose(0, 6) as usize];
    let k = at - 2 + choose(0, 4);
    let mut v = Vec::with_capacity(160);
    for i in 0..k { v.push(ch(if i % 2 == 0 { a } else { b })); }
    for _ in 0..tail { v.push(pick(&CTL)); }
    let (x, m) = (if choose(0, 1) == 0 { 0x202C } else { 0x2069 }, choose(0, 3));
    for _ in 0..m { v.push(ch(x)); }
    v.push(ch(0x61));
    v.push(ch(0x5D0));
    text_in(&v, if choose(0, 1) == 0 { Some(0) } else { Some(1) });
}

/// B03: any levels, any line of a paragraph.
fn lines(v: &[char], lev: &[u8], para: u8) {
    let n = v.len();
    let c = classes(v);
    let s = to_string(v);
    let mut off = Vec::with_capacity(n + 1);
    let mut levels = Vec::with_capacity(s.len());
    let mut original = Vec::with_capacity(s.len());
    let all = codes::bc::all();
    let mut b = 0;
    for i in 0..n {
        off.push(b);
        for _ in 0..v[i].len_utf8() { levels.push(Level::new(lev[i]).unwrap()); original.push(all[c[i] as usize].0); }
        b += v[i].len_utf8();
    }
    off.push(b);
    let before = levels.clone();
    let info = BidiInfo { text: &s, original_classes: original, levels, paragraphs: Vec::new() };
    let p = ParagraphInfo { range: 0..s.len(), level: Level::new(para).unwrap() };
    let x = choose(0, n as u32 - 1) as usize;
    let y = choose(x as u32 + 1, n as u32) as usize;
    // L1
    let mut l = Vec::with_capacity(n);
    for i in 0..n { l.push(lev[i]); }
    let mut reset = true;
    let mut k = y;
    while k > x {
        k -= 1;
        if c[k] == B || c[k] == S { reset = true; l[k] = para; }
        else if c[k] == WS || (c[k] >= LRI && c[k] <= PDI) { if reset { l[k] = para; } }
        else if !removed(c[k]) { reset = false; }
    }
    let line = off[x]..off[y];
    let (got, runs) = info.visual_runs(&p, line.clone());
    check(got.len() == s.len(), 1);
    for i in 0..n {
        let a = got[off[i]].number();
        if i < x || i >= y || !removed(c[i]) { check(a == l[i], 2); } else { check(a == lev[i] || a == para, 3); l[i] = a; }
        for j in off[i]..off[i + 1] { check(got[j].number() == a, 4); }
    }
    // L2
    let mut order = Vec::with_capacity(n);
    for i in x..y { order.push(i); }
    let (mut hi, mut lo) = (0u8, 127u8);
    for i in x..y { if l[i] > hi { hi = l[i]; } if l[i] % 2 == 1 && l[i] < lo { lo = l[i]; } }
    let mut t = hi;
    while t >= lo && t > 0 {
        let mut i = 0;
        while i < order.len() {
            if l[order[i]] < t { i += 1; continue; }
            let mut j = i;
            while j < order.len() && l[order[j]] >= t { j += 1; }
            order[i..j].reverse();
            i = j;
        }
        t -= 1;
    }
    // the runs, read in their direction
    let mut at = 0;
    for r in runs.iter() {
        check(r.start < r.end && r.start >= off[x] && r.end <= off[y], 5);
        let mut i = x;
        while i < y && off[i] != r.start { i += 1; }
        check(i < y, 6);
        let mut j = i;
        while j < y && off[j] < r.end { check(l[j] == l[i], 7); j += 1; }
        check(off[j] == r.end, 8);
        check(at + (j - i) <= order.len(), 9);
        for k in 0..j - i { check(order[at] == if l[i] % 2 == 1 { j - 1 - k } else { i + k }, 10); at += 1; }
        if r.end < off[y] { check(l[j] != l[i], 11); }
    }
    check(at == order.len(), 12);
    let o = info.reorder_line(&p, line.clone());
    let mut it = o.chars();
    for &i in order.iter() { check(it.next() == Some(v[i]), 13); }
    check(it.next().is_none(), 14);
    let q = info.reordered_levels(&p, line.clone());
    check(q.len() == s.len(), 15);
    for j in 0..q.len() { check(q[j] == got[j], 16); }
    let q = info.reordered_levels_per_char(&p, line);
    check(q.len() == n, 17);
    for i in 0..n { check(q[i] == got[off[i]], 18); }
    for j in 0..before.len() { check(info.levels[j] == before[j], 19); }
    cover(1);
}
const LINE: [(u32, u32); 8] = [LET, HEB, (0x20, 0x20), (0x9, 0x9), (0x2029, 0x2029), (0x2067, 0x2069), (0x200B, 0x200B), (0x202C, 0x202C)];
const LINE5: [(u32, u32); 5] = [HEB, (0x20, 0x20), (0x2029, 0x2029), (0x2067, 0x2069), (0x200B, 0x200B)];
fn levels(n: usize, lo: u32, hi: u32) -> Vec<u8> { let mut l = Vec::with_capacity(n); for _ in 0..n { l.push(any_in(lo, hi) as u8); } l }
fn each_level(n: usize, lo: u32, hi: u32) -> Vec<u8> { let mut l = Vec::with_capacity(n); for _ in 0..n { l.push(choose(lo, hi) as u8); } l }
fn low_para() -> u8 { choose(0, 1) as u8 }

/// B05
fn b05_ops() {
    let n = any_in(0, 255) as u8;
    let a = any_in(0, 255) as u8;
    match Level::new(n) { Ok(l) => { check(n <= 126 && l.number() == n, 1); } Err(Error::OutOfRangeNumber) => check(n > 126, 2) }
    match Level::new_explicit(n) { Ok(l) => { check(n <= 125 && l.number() == n, 3); } Err(Error::OutOfRangeNumber) => check(n > 125, 4) }
    if n > 126 { return; }
    let l = Level::new(n).unwrap();
    check(l.is_ltr() == (n % 2 == 0) && l.is_rtl() == (n % 2 == 1), 5);
    check(codes::bc::code(l.bidi_class()) == (n % 2) as u32, 6);
    let u: u8 = l.into();
    check(u == n, 7);
    check(Level::from(n) == l, 8);
    let mut m = l;
    let sum = n as u32 + a as u32;
    let r = m.raise(a);
    check(r.is_ok() == (sum <= 126), 9);
    check(m.number() as u32 == if sum <= 126 { sum } else { n as u32 }, 10);
    let mut m = l;
    let r = m.raise_explicit(a);
    check(r.is_ok() == (sum <= 125), 11);
    check(m.number() as u32 == if sum <= 125 { sum } else { n as u32 }, 12);
    let mut m = l;
    let r = m.lower(a);
    check(r.is_ok() == (a <= n), 13);
    check(m.number() == if a <= n { n - a } else { n }, 14);
    let up = |parity: u32, limit: u32, from: u32| { let mut x = from; while x % 2 != parity { x += 1; } if x <= limit { Some(x as u8) } else { None } };
    check(l.new_explicit_next_ltr().ok().map(|x| x.number()) == up(0, 125, n as u32 + 1), 15);
    check(l.new_explicit_next_rtl().ok().map(|x| x.number()) == up(1, 125, n as u32 + 1), 16);
    check(l.new_lowest_ge_rtl().ok().map(|x| x.number()) == up(1, 126, n as u32), 17);
    cover(1);
}

harness! {
    fn b05_level() { b05_ops() }
    fn b05_pairs() {
        let (a, b) = (any_in(0, 126) as u8, any_in(0, 126) as u8);
        let (x, y) = (Level::new(a).unwrap(), Level::new(b).unwrap());
        check((x == y) == (a == b), 1);
        check((x < y) == (a < b) && (x <= y) == (a <= b) && (x > y) == (a > b), 2);
        check(x.cmp(&y) == a.cmp(&b) && x.partial_cmp(&y) == Some(a.cmp(&b)), 3);
        let v = Level::vec(&[a, b]);
        check(v.len() == 2 && v[0] == x && v[1] == y, 4);
        check(unic_bidi::level::has_rtl(&v) == (a % 2 == 1 || b % 2 == 1), 5);
        check(Level::ltr().number() == 0 && Level::rtl().number() == 1, 6);
        check(Level::max_explicit_depth() == 125 && Level::max_implicit_depth() == 126, 7);
        check(!unic_bidi::level::has_rtl(&[]), 8);
        cover(1);
    }
    fn b05_from() { let n = any_in(127, 255) as u8; expect_panic(true); cover(1); let l = Level::from(n); check(l.number() > 200, 1); }
    fn b05_str() {
        let n = any_in(0, 126);
        let k = choose(0, 3) as usize;
        let mut w = [0u8; 3];
        for i in 0..k { w[i] = any_in(0, 0x7F) as u8; }
        let s = unsafe { core::str::from_utf8_unchecked(&w[..k]) };
        let l = Level::new(n as u8).unwrap();
        let d = |x: u32| x as u8 + b'0';
        let want = (k == 1 && w[0] == b'x') || if n < 10 { k == 1 && w[0] == d(n) } else if n < 100 { k == 2 && w[0] == d(n / 10) && w[1] == d(n % 10) } else { k == 3 && w[0] == d(n / 100) && w[1] == d(n / 10 % 10) && w[2] == d(n % 10) };
        check((l == s) == want, 1);
        check((l == String::from(s)) == want, 2);
        cover(if want { 1 } else { 2 });
    }
    fn b01_ctl_3() { text(&picks(3, &CTL)) }
    fn b01_ctl_4() { text(&picks(4, &CTL)) }
    fn b01_ctl_5() { text(&picks(5, &CTL)) }
    fn b01_iso_5() { text(&picks(5, &ISO)) }
    fn b01_iso_6() { text(&picks(6, &ISO)) }
    fn b01_emb_5() { text(&picks(5, &EMB)) }
    fn b01_emb_6() { text(&picks(6, &EMB)) }
    fn b01_deep_1() { deep(1) }
    fn b01_deep_2() { deep(2) }
    fn b01_deep_3() { deep(3) }
    fn b02_any_1() { text(&any_chars(1)) }
    fn b02_any_2() { text(&any_chars(2)) }
    fn b02_any_3() { text(&any_chars(3)) }
    fn b02_all_3() { text(&picks(3, &ALL)) }
    fn b02_all_4() { text(&picks(4, &ALL)) }
    fn b02_wide_3() { text(&picks(3, &WIDE)) }
    fn b02_wide_4() { text(&picks(4, &WIDE)) }
    fn b02_weak_4() { text(&picks(4, &WEAK)) }
    fn b02_weak_5() { text(&picks(5, &WEAK)) }
    fn b02_weak_6() { text(&picks(6, &WEAK)) }
    fn b02_weakbn_5() { text(&picks(5, &WEAKBN)) }
    fn b02_weakbn_6() { text(&picks(6, &WEAKBN)) }
    fn b02_neut_5() { text(&picks(5, &NEUT)) }
    fn b02_neut_6() { text(&picks(6, &NEUT)) }
    fn b02_seq_6() { text(&picks(6, &SEQ)) }
    fn b02_seq_7() { text(&picks(7, &SEQ)) }
    fn b03_low_3() { lines(&picks(3, &LINE), &levels(3, 0, 3), low_para()) }
    fn b03_sym_3() { lines(&picks(3, &LINE5), &levels(3, 0, 4), low_para()) }
    fn b03_low_4() { lines(&picks(4, &LINE5), &each_level(4, 0, 2), low_para()) }
    fn b03_four_4() { lines(&picks(4, &LINE), &each_level(4, 0, 3), low_para()) }
    fn b03_shape_4() { lines(&picks(4, &[LET, HEB]), &each_level(4, 0, 4), low_para()) }
    fn b03_shape_5() { let mut v = Vec::with_capacity(5); for _ in 0..5 { v.push(pick(&[LET, HEB])); } lines(&v, &each_level(5, 0, 4), low_para()) }
    fn b03_space_5() { let l = each_level(2, 0, 2); let mut m = Vec::with_capacity(5); for i in 0..5 { m.push(l[i % 2]); } lines(&picks(5, &LINE5), &m, low_para()) }
    fn b03_space_4() { let l = levels(2, 0, 2); let mut m = Vec::with_capacity(5); for i in 0..4 { m.push(l[i % 2]); } lines(&picks(4, &LINE), &m, low_para()) }
    fn b03_high_3() { let mut l = Vec::with_capacity(3); for _ in 0..3 { l.push(if choose(0, 1) == 0 { choose(0, 1) } else { choose(124, 126) } as u8); } lines(&picks(3, &[LET, HEB, (0x20, 0x20)]), &l, low_para()) }
    fn b03_every_2() { lines(&[ch(0x61), ch(0x5D0)], &each_level(2, 0, 126), low_para()) }
    fn b04_any_2() { text(&any_chars(2)) }
    fn b04_any_3() { text(&any_chars(3)) }
    fn b04_para_4() { text(&picks(4, &PARA)) }
    fn b04_para_5() { text(&picks(5, &PARA)) }
    fn b04_para_6() { text(&picks(6, &PARA)) }
    fn b04_all_3() { text(&picks(3, &ALL)) }
}
