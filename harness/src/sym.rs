//! Inputs and assertions. Under the executor these are intercepted by name; with the feature
//! `native` they read the values of one counterexample instead (see replay.rs).

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        pub fn rsym_char() -> u32;
        pub fn rsym_range(lo: u32, hi: u32) -> u32;
        pub fn rsym_u64() -> u64;
        pub fn rsym_assume(b: bool);
        pub fn rsym_assert(b: bool, id: u32);
        pub fn rsym_cover(id: u32);
        pub fn rsym_concrete(x: u32) -> u32;
        pub fn rsym_ref(table: u32, c: u32) -> u32;
        pub fn rsym_expect_panic(b: bool);
        pub fn rsym_known(id: u32);
        pub fn rsym_note(id: u32);
    }
}

#[cfg(feature = "native")]
pub mod imp {
    use std::cell::RefCell;
    use std::collections::HashMap;
    thread_local! {
        pub static VALS: RefCell<Vec<u64>> = RefCell::new(Vec::new());
        pub static REFS: RefCell<HashMap<u32, Vec<(u32, u32, u32)>>> = RefCell::new(HashMap::new());
        pub static STATE: RefCell<(u32, u32, bool, u32)> = RefCell::new((0, 0, false, 0)); // checks, covers, expect panic, known
    }
    pub fn reset(v: Vec<u64>) { VALS.with(|x| *x.borrow_mut() = v); STATE.with(|s| *s.borrow_mut() = (0, 0, false, 0)); }
    pub fn state() -> (u32, u32, bool, u32) { STATE.with(|s| *s.borrow()) }
    pub struct AssumeFailed;
    pub struct AssertFailed(pub u32);
    fn next() -> u64 { VALS.with(|v| { let mut v = v.borrow_mut(); if v.is_empty() { 0x61 } else { v.remove(0) } }) }
    pub unsafe fn rsym_char() -> u32 { next() as u32 }
    pub unsafe fn rsym_range(lo: u32, hi: u32) -> u32 { let v = next() as u32; if v < lo || v > hi { lo } else { v } }
    pub unsafe fn rsym_u64() -> u64 { next() }
    pub unsafe fn rsym_assume(b: bool) { if !b { std::panic::panic_any(AssumeFailed) } }
    pub unsafe fn rsym_assert(b: bool, id: u32) { STATE.with(|s| s.borrow_mut().0 += 1); if !b { std::panic::panic_any(AssertFailed(id)) } }
    pub unsafe fn rsym_cover(c: u32) { STATE.with(|s| s.borrow_mut().1 |= 1 << (c & 31)); }
    pub unsafe fn rsym_concrete(x: u32) -> u32 { x }
    pub unsafe fn rsym_ref(t: u32, c: u32) -> u32 {
        REFS.with(|r| {
            let r = r.borrow();
            let t = r.get(&t).expect("reference table");
            match t.binary_search_by(|e| if e.1 < c { std::cmp::Ordering::Less } else if e.0 > c { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Equal }) { Ok(i) => t[i].2, Err(_) => 0 }
        })
    }
    pub unsafe fn rsym_expect_panic(b: bool) { STATE.with(|s| s.borrow_mut().2 = b); }
    pub unsafe fn rsym_known(id: u32) { STATE.with(|s| s.borrow_mut().3 = id); }
    pub unsafe fn rsym_note(_: u32) {}
}

/// Any Unicode scalar value.
pub fn any_char() -> char { unsafe { char::from_u32_unchecked(imp::rsym_char()) } }
/// Any value in lo..=hi (hi < 2^21).
pub fn any_in(lo: u32, hi: u32) -> u32 { unsafe { imp::rsym_range(lo, hi) } }
/// A value in lo..=hi, one path per value.
pub fn choose(lo: u32, hi: u32) -> u32 { let v = any_in(lo, hi); unsafe { imp::rsym_concrete(v) } }
pub fn any_bool() -> bool { any_in(0, 1) == 1 }
pub fn any_u64() -> u64 { unsafe { imp::rsym_u64() } }
pub fn assume(b: bool) { unsafe { imp::rsym_assume(b) } }
pub fn check(b: bool, id: u32) { unsafe { imp::rsym_assert(b, id) } }
/// Reachability witness: every harness must reach its covers on a feasible path.
pub fn cover(id: u32) { unsafe { imp::rsym_cover(id) } }
pub fn reft(table: u32, c: char) -> u32 { unsafe { imp::rsym_ref(table, c as u32) } }
pub fn refu(table: u32, c: u32) -> u32 { unsafe { imp::rsym_ref(table, c) } }
pub fn expect_panic(b: bool) { unsafe { imp::rsym_expect_panic(b) } }
pub fn known(id: u32) { unsafe { imp::rsym_known(id) } }
pub fn note(id: u32) { unsafe { imp::rsym_note(id) } }
pub fn concrete(x: u32) -> u32 { unsafe { imp::rsym_concrete(x) } }

/// A string of n arbitrary scalar values.
pub fn any_chars(n: usize) -> Vec<char> { let mut v = Vec::with_capacity(n); for _ in 0..n { v.push(any_char()); } v }
pub fn to_string(v: &[char]) -> String { let mut s = String::with_capacity(v.len() * 4); for &c in v { s.push(c); } s }
