//! The interface between a harness and whatever executes it: the symbolic
//! engine (which interprets these calls), or the native replay driver.

mod raw {
    extern "C" {
        pub fn sym_u(id: u64, bits: u64) -> u64;
        pub fn sym_assume(c: bool);
        pub fn sym_assert(c: bool, id: u64);
        pub fn sym_split(v: u64) -> u64;
        pub fn sym_reach(id: u64);
        pub fn sym_observe(tag: u64, v: u64);
    }
}

/// An arbitrary `bits`-wide value (input number `id`).
#[inline]
pub fn u(id: u64, bits: u64) -> u64 {
    unsafe { raw::sym_u(id, bits) }
}

/// Restricts the inputs under consideration.
#[inline]
pub fn assume(c: bool) {
    unsafe { raw::sym_assume(c) }
}

/// The property: must hold for every input.
#[inline]
pub fn check(c: bool, id: u64) {
    unsafe { raw::sym_assert(c, id) }
}

/// Case-splits on `v`: one job per feasible value; the completeness of the
/// split is itself an obligation.
#[inline]
pub fn split(v: u64) -> u64 {
    unsafe { raw::sym_split(v) }
}

/// Vacuity guard: this point must be reachable.
#[inline]
pub fn reach(id: u64) {
    unsafe { raw::sym_reach(id) }
}

/// A value compared between the symbolic and the native execution.
#[inline]
pub fn observe(tag: u64, v: u64) {
    unsafe { raw::sym_observe(tag, v) }
}

/// An arbitrary value in `0..n`, case-split.
#[inline]
pub fn choose(id: u64, n: u64) -> u64 {
    let v = below(id, n);
    split(v)
}

/// An arbitrary value in `0..n`, left symbolic.
#[inline]
pub fn below(id: u64, n: u64) -> u64 {
    let mut bits = 0;
    while (1u64 << bits) < n {
        bits += 1;
    }
    if bits == 0 {
        return 0;
    }
    let v = u(id, bits);
    if !n.is_power_of_two() {
        assume(v < n);
    }
    v
}
