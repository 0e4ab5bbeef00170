use crate::nf::*;
use crate::sym::*;
use unic_normal::StrNormalForm;

#[derive(Clone, Copy, PartialEq)]
enum F { D, KD, C, KC }
fn want(v: &[char], f: F) -> Vec<u32> { match f { F::D => spec_d(v, false).0, F::KD => spec_d(v, true).0, F::C => spec_c(v, false), F::KC => spec_c(v, true) } }
fn run(s: &str, f: F, n: usize) -> Vec<u32> {
    let mut o = Vec::with_capacity(n + 1);
    macro_rules! go { ($i:expr) => {{ let mut i = $i; while let Some(c) = i.next() { check(o.len() <= n, 1); o.push(c as u32); } check(i.next().is_none(), 2); }} }
    match f { F::D => go!(s.nfd()), F::KD => go!(s.nfkd()), F::C => go!(s.nfc()), F::KC => go!(s.nfkc()) }
    o
}
fn form(v: &[char], f: F) {
    let w = want(v, f);
    let o = run(&to_string(v), f, w.len());
    check(o.len() == w.len(), 3);
    for i in 0..w.len() { check(o[i] == w[i], 4); }
    cover(1);
}
/// An input whose size hint is anything its documentation allows or forbids.
struct Odd<'a> { v: &'a [char], i: usize, lo: usize, hi: Option<usize> }
impl<'a> Iterator for Odd<'a> {
    type Item = char;
    fn next(&mut self) -> Option<char> { if self.i < self.v.len() { self.i += 1; Some(self.v[self.i - 1]) } else { None } }
    fn size_hint(&self) -> (usize, Option<usize>) { (self.lo, self.hi) }
}
fn hint(v: &[char], f: F) {
    let w = want(v, f);
    let odd = Odd { v, i: 0, lo: choose(0, 2) as usize, hi: if choose(0, 1) == 1 { Some(choose(0, 1) as usize) } else { None } };
    let mut o = Vec::with_capacity(w.len());
    macro_rules! go { ($i:expr) => {{ let mut i = $i; while let Some(c) = i.next() { check(o.len() <= w.len(), 1); let _ = i.size_hint(); o.push(c as u32); } }} }
    match f { F::D => go!(odd.nfd()), F::KD => go!(odd.nfkd()), F::C => go!(odd.nfc()), F::KC => go!(odd.nfkc()) }
    check(o.len() == w.len(), 3);
    for i in 0..w.len() { check(o[i] == w[i], 4); }
    // an honest hint gives an honest hint
    let s = to_string(v);
    macro_rules! hint { ($i:expr) => {{ let mut i = $i; let mut left = w.len(); loop { let (lo, hi) = i.size_hint(); check(lo <= left && hi.map_or(true, |h| left <= h), 5); if i.next().is_none() { break; } left -= 1; } }} }
    match f { F::D => hint!(s.nfd()), F::KD => hint!(s.nfkd()), F::C => hint!(s.nfc()), F::KC => hint!(s.nfkc()) }
    cover(1);
}
fn pickf() -> F { match choose(0, 3) { 0 => F::D, 1 => F::KD, 2 => F::C, _ => F::KC } }

fn pick(f: &[(u32, u32)]) -> char {
    let (a, b) = f[choose(0, f.len() as u32 - 1) as usize];
    let c = if a == b { a } else { any_in(a, b) };
    unsafe { char::from_u32_unchecked(c) }
}
fn picks(n: usize, f: &[(u32, u32)]) -> Vec<char> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(pick(f)); } v }
fn any_then(f: &[(u32, u32)]) -> Vec<char> { let a = any_char(); let b = pick(f); let mut v = Vec::with_capacity(2); v.push(a); v.push(b); v }
fn then_any(f: &[(u32, u32)]) -> Vec<char> { let a = pick(f); let b = any_char(); let mut v = Vec::with_capacity(2); v.push(a); v.push(b); v }
/// Letters, marks of several combining classes, precomposed letters, a mark that decomposes.
const MARKS: [(u32, u32); 9] = [(0x61, 0x65), (0x300, 0x304), (0x323, 0x325), (0x327, 0x328), (0x334, 0x338), (0x345, 0x345), (0xE0, 0xE5), (0x1E0C, 0x1E0D), (0x344, 0x344)];
/// Starters that compose with starters, with marks in between.
const STARTERS: [(u32, u32); 9] = [(0x1100, 0x1101), (0x1161, 0x1162), (0x11A7, 0x11A9), (0xAC00, 0xAC01), (0x9C7, 0x9C7), (0x9BE, 0x9BE), (0x300, 0x301), (0x9BC, 0x9BC), (0x61, 0x61)];
/// Exclusions, singletons, non-starter decompositions, compatibility forms.
const SPECIAL: [(u32, u32); 9] = [(0x958, 0x959), (0x212A, 0x212B), (0xF73, 0xF76), (0xF71, 0xF72), (0xFB2A, 0xFB2C), (0x3A9, 0x3A9), (0x301, 0x301), (0xFDFA, 0xFDFB), (0x2ADC, 0x2ADC)];
const SIX: [(u32, u32); 5] = [(0x61, 0x61), (0x301, 0x301), (0x323, 0x323), (0x327, 0x327), (0x334, 0x334)];

/// N03: idempotence, relations between the forms, ASCII.
fn st(v: &[u32]) -> String { let mut s = String::with_capacity(v.len() * 4); for &c in v { s.push(unsafe { char::from_u32_unchecked(c) }); } s }
fn same(a: &[u32], b: &[u32], id: u32) { check(a.len() == b.len(), id); for i in 0..a.len() { check(a[i] == b[i], id + 1); } }
fn all(s: &str, f: F) -> Vec<u32> { run(s, f, 18 * s.len()) }
fn relations(v: &[char]) {
    let s = to_string(v);
    let x = choose(0, 3);
    match x {
        0 => { let d = all(&s, F::D); let t = st(&d); same(&all(&t, F::D), &d, 10); same(&all(&t, F::C), &all(&s, F::C), 12); same(&all(&t, F::KD), &all(&s, F::KD), 14); }
        1 => { let c = all(&s, F::C); let t = st(&c); same(&all(&t, F::C), &c, 20); same(&all(&t, F::D), &all(&s, F::D), 22); same(&all(&t, F::KC), &all(&s, F::KC), 24); }
        2 => { let d = all(&s, F::KD); let t = st(&d); same(&all(&t, F::KD), &d, 30); same(&all(&t, F::D), &d, 32); same(&all(&t, F::KC), &all(&s, F::KC), 34); same(&all(&t, F::C), &all(&s, F::KC), 36); }
        _ => { let c = all(&s, F::KC); let t = st(&c); same(&all(&t, F::KC), &c, 40); same(&all(&t, F::C), &c, 42); same(&all(&t, F::KD), &all(&s, F::KD), 44); }
    }
    cover(1);
}
fn ascii(n: usize) {
    let mut v = Vec::with_capacity(n);
    for _ in 0..n { v.push(unsafe { char::from_u32_unchecked(any_in(0, 0x7F)) }); }
    let f = pickf();
    let o = run(&to_string(&v), f, n);
    check(o.len() == n, 3);
    for i in 0..n { check(o[i] == v[i] as u32, 4); }
    cover(1);
}

harness! {
    fn n01_d_1() { form(&any_chars(1), F::D) }
    fn n01_kd_1() { form(&any_chars(1), F::KD) }
    fn n01_d_2() { form(&any_chars(2), F::D) }
    fn n01_kd_2() { form(&any_chars(2), F::KD) }
    fn n01_d_marks_3() { form(&picks(3, &MARKS), F::D) }
    fn n01_d_marks_4() { form(&picks(4, &MARKS), F::D) }
    fn n01_kd_special_3() { form(&picks(3, &SPECIAL), F::KD) }
    fn n01_d_special_4() { form(&picks(4, &SPECIAL), F::D) }
    fn n01_d_six() { form(&picks(6, &SIX), F::D) }
    fn n01_hint_1() { let f = if choose(0, 1) == 0 { F::D } else { F::KD }; hint(&any_chars(1), f) }
    fn n01_hint_2() { let f = if choose(0, 1) == 0 { F::D } else { F::KD }; hint(&picks(2, &MARKS), f) }
    fn n02_hint_2() { let f = if choose(0, 1) == 0 { F::C } else { F::KC }; hint(&picks(2, &MARKS), f) }
    fn n02_c_1() { form(&any_chars(1), F::C) }
    fn n02_kc_1() { form(&any_chars(1), F::KC) }
    fn n02_c_2() { form(&any_chars(2), F::C) }
    fn n02_kc_2() { form(&any_chars(2), F::KC) }
    fn n02_c_marks_3() { form(&picks(3, &MARKS), F::C) }
    fn n02_c_marks_4() { form(&picks(4, &MARKS), F::C) }
    fn n02_c_starters_3() { form(&picks(3, &STARTERS), F::C) }
    fn n02_c_starters_4() { form(&picks(4, &STARTERS), F::C) }
    fn n02_kc_special_3() { form(&picks(3, &SPECIAL), F::KC) }
    fn n02_c_special_4() { form(&picks(4, &SPECIAL), F::C) }
    fn n02_c_six() { form(&picks(6, &SIX), F::C) }
    fn n03_rel_1() { relations(&any_chars(1)) }
    fn n03_rel_marks_2() { relations(&picks(2, &MARKS)) }
    fn n03_rel_marks_3() { relations(&picks(3, &MARKS)) }
    fn n03_rel_starters_3() { relations(&picks(3, &STARTERS)) }
    fn n03_rel_special_2() { relations(&picks(2, &SPECIAL)) }
    fn n03_rel_special_3() { relations(&picks(3, &SPECIAL)) }
    fn n01_kd_any_marks() { form(&any_then(&MARKS), F::KD) }
    fn n01_kd_marks_any() { form(&then_any(&MARKS), F::KD) }
    fn n02_c_any_marks() { form(&any_then(&MARKS), F::C) }
    fn n02_c_marks_any() { form(&then_any(&MARKS), F::C) }
    fn n02_c_any_starters() { form(&any_then(&STARTERS), F::C) }
    fn n02_c_starters_any() { form(&then_any(&STARTERS), F::C) }
    fn n02_kc_any_marks() { form(&any_then(&MARKS), F::KC) }
    fn n03_ascii_4() { ascii(4) }
    fn n03_ascii_5() { ascii(5) }
    fn n02_c_marks_5() { form(&picks(5, &MARKS), F::C) }
    fn n02_c_starters_5() { form(&picks(5, &STARTERS), F::C) }
    fn n02_kc_special_4() { form(&picks(4, &SPECIAL), F::KC) }
    fn n01_d_marks_5() { form(&picks(5, &MARKS), F::D) }
    fn n01_kd_special_4() { form(&picks(4, &SPECIAL), F::KD) }
    fn n03_rel_marks_4() { relations(&picks(4, &MARKS)) }
}
