use crate::sym::*;
use rayon::iter::plumbing::{Producer, ProducerCallback};
use rayon::iter::{IndexedParallelIterator, IntoParallelIterator};
use unic_char_range::*;

fn idx(c: char) -> i64 { let x = c as i64; if x >= 0xE000 { x - 0x800 } else { x } }
fn chr(i: i64) -> char { unsafe { char::from_u32_unchecked(if i >= 0xD800 { i + 0x800 } else { i } as u32) } }

/// Splits the producer `depth` times at arbitrary places; every piece must hold exactly its part of the range.
struct Splits { lo: i64, hi: i64, depth: u32 }
impl Splits {
    fn piece<P: Producer<Item = char>>(&self, p: P, lo: i64, hi: i64) {
        // the piece is lo..=hi: its length, and its first and last two elements from either end
        let n = if lo > hi { 0 } else { hi - lo + 1 };
        let mut it = p.into_iter();
        check(it.len() as i64 == n, 1);
        let (mut f, mut b) = (lo, hi);
        let steps = 3;
        for _ in 0..steps {
            match it.next() { None => { check(f > b, 2); break; } Some(c) => { check(f <= b, 3); check(c == chr(f), 4); f += 1; } }
            match it.next_back() { None => { check(f > b, 5); break; } Some(c) => { check(f <= b, 6); check(c == chr(b), 7); b -= 1; } }
        }
    }
    fn split<P: Producer<Item = char>>(&self, p: P, lo: i64, hi: i64, depth: u32) {
        if depth == 0 { self.piece(p, lo, hi); return; }
        let n = if lo > hi { 0 } else { hi - lo + 1 };
        let k = any_in(0, 0x1FFFFF) as i64;
        assume(k <= n);
        let (l, r) = p.split_at(k as usize);
        if any_bool() { self.split(l, lo, lo + k - 1, depth - 1); } else { self.split(r, lo + k, hi, depth - 1); }
    }
}
impl ProducerCallback<char> for Splits {
    type Output = ();
    fn callback<P: Producer<Item = char>>(self, p: P) { self.split(p, self.lo, self.hi, self.depth); cover(1); }
}
fn c03(depth: u32) {
    let (a, b) = (any_char(), any_char());
    let r = CharRange::closed(a, b);
    let it = if any_bool() { r.into_par_iter() } else { (&r).into_par_iter() };
    let n = if a > b { 0 } else { idx(b) - idx(a) + 1 };
    check(it.len() as i64 == n, 10);
    it.with_producer(Splits { lo: idx(a), hi: idx(b), depth });
}
/// The element at an arbitrary position is the one sequential iteration has there.
struct At { lo: i64, n: i64 }
impl ProducerCallback<char> for At {
    type Output = ();
    fn callback<P: Producer<Item = char>>(self, p: P) {
        let k = any_in(0, 0x1FFFFF) as i64;
        assume(k < self.n);
        let (_, r) = p.split_at(k as usize);
        match r.into_iter().next() { Some(c) => check(c == chr(self.lo + k), 1), None => check(false, 2) }
        cover(1);
    }
}
fn c03_at() {
    let (a, b) = (any_char(), any_char());
    assume(a <= b);
    let r = CharRange::closed(a, b);
    r.into_par_iter().with_producer(At { lo: idx(a), n: idx(b) - idx(a) + 1 });
}
harness! {
    fn h_c03_0() { c03(0) }
    fn h_c03_1() { c03(1) }
    fn h_c03_2() { c03(2) }
    fn h_c03_3() { c03(3) }
    fn h_c03_at() { c03_at() }
}
