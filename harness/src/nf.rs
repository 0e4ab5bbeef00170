//! The normalization forms, from the reference tables.
use crate::sym::*;

pub fn hangul(x: u32) -> bool { x >= 0xAC00 && x <= 0xD7A3 }

/// The full decomposition of one character.
pub fn spec_decompose(c: char, k: bool, out: &mut Vec<u32>) {
    let x = c as u32;
    if hangul(x) {
        let s = x - 0xAC00;
        out.push(0x1100 + s / 588);
        out.push(0x1161 + s % 588 / 28);
        if s % 28 != 0 { out.push(0x11A7 + s % 28); }
        return;
    }
    let t = if k { 150 } else { 140 };
    let n = concrete(reft(t, c));
    if n == 0 { out.push(x); }
    for i in 0..n { out.push(reft(t + 1 + i, c)); }
}
pub fn spec_ccc(x: u32) -> u32 { refu(10, x) }
/// NFD or NFKD: characters with their combining classes.
pub fn spec_d(v: &[char], k: bool) -> (Vec<u32>, Vec<u32>) {
    let mut d = Vec::with_capacity(v.len() * 20);
    for &c in v { spec_decompose(c, k, &mut d); }
    let mut cc: Vec<u32> = Vec::with_capacity(d.len());
    for &x in d.iter() { cc.push(concrete(spec_ccc(x))); }
    for i in 1..d.len() {
        let mut j = i;
        while j > 0 && cc[j] != 0 && cc[j - 1] > cc[j] { d.swap(j - 1, j); cc.swap(j - 1, j); j -= 1; }
    }
    (d, cc)
}
/// The primary composite of two characters, 0 if none.
pub fn spec_pair(x: u32, y: u32) -> u32 {
    if x >= 0x1100 && x < 0x1113 && y >= 0x1161 && y < 0x1176 { return 0xAC00 + (x - 0x1100) * 588 + (y - 0x1161) * 28; }
    if hangul(x) { return if (x - 0xAC00) % 28 == 0 && y > 0x11A7 && y < 0x11C3 { x + (y - 0x11A7) } else { 0 }; }
    let i = concrete(refu(171, x));
    if i == 0 { 0 } else { refu(1000 + i, y) }
}
pub fn spec_c(v: &[char], k: bool) -> Vec<u32> {
    let (d, cc) = spec_d(v, k);
    let mut out: Vec<u32> = Vec::with_capacity(d.len());
    let mut oc: Vec<u32> = Vec::with_capacity(d.len());
    let mut starter = None;
    for i in 0..d.len() {
        if let Some(s) = starter {
            let mut blocked = false;
            for j in s + 1..out.len() { if oc[j] == 0 || oc[j] >= cc[i] { blocked = true; } }
            if !blocked {
                let p = spec_pair(out[s], d[i]);
                if p != 0 { out[s] = p; continue; }
            }
        }
        if cc[i] == 0 { starter = Some(out.len()); }
        out.push(d[i]);
        oc.push(cc[i]);
    }
    out
}
