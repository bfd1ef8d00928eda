//! Exact integer arithmetic of the specification. A `None` is a phantom overflow or a division by zero: the
//! protocol's documented answer to both is that the call fails.
use std::cell::Cell;
pub const S7: i128 = 10_000_000;
pub const S9: i128 = 1_000_000_000;
pub const YEAR: i128 = 31_536_000;
pub const WEEK: u64 = 604_800;
pub const DAY: u64 = 86_400;

thread_local! {
    /// set when an intermediate product came within a factor 2^17 of overflowing: whether such a call succeeds may
    /// legitimately depend on how the arithmetic is arranged, so success is not judged there
    static BIG: Cell<bool> = const { Cell::new(false) };
}
pub fn big_reset() {
    BIG.with(|b| b.set(false));
}
pub fn big() -> bool {
    BIG.with(|b| b.get())
}
fn mul(a: i128, b: i128) -> Option<i128> {
    let r = a.checked_mul(b);
    if r.map_or(true, |x| x.unsigned_abs() >> 110 != 0) {
        BIG.with(|b| b.set(true));
    }
    r
}
pub fn div_floor(r: i128, z: i128) -> Option<i128> {
    if z == 0 {
        return None;
    }
    let q = r.checked_div(z)?;
    Some(if r % z != 0 && ((r < 0) != (z < 0)) { q - 1 } else { q })
}
pub fn div_ceil(r: i128, z: i128) -> Option<i128> {
    if z == 0 {
        return None;
    }
    let q = r.checked_div(z)?;
    Some(if r % z != 0 && ((r < 0) == (z < 0)) { q + 1 } else { q })
}
/// floor(a*b/c)
pub fn mdf(a: i128, b: i128, c: i128) -> Option<i128> {
    div_floor(mul(a, b)?, c)
}
/// ceil(a*b/c)
pub fn mdc(a: i128, b: i128, c: i128) -> Option<i128> {
    div_ceil(mul(a, b)?, c)
}
pub fn pow10(d: u32) -> Option<i128> {
    10i128.checked_pow(d)
}
