//! The facts about f64 which the contracts assume (contracts/00_prelude.rs and the axioms in
//! contracts/*.vc), proved on the machine's own f64 operations for every bit pattern: no
//! harness has a loop or a bound.  The harness names are the ones the axioms cite.
#![cfg(kani)]

// ---- the definitions of contracts/00_prelude.rs, word for word on 64-bit words
fn negb(b: u64) -> bool { b >= 0x8000_0000_0000_0000 }
fn mag(b: u64) -> i128 { if negb(b) { b as i128 - 0x8000_0000_0000_0000i128 } else { b as i128 } }
fn nan(b: u64) -> bool { mag(b) > 0x7ff0_0000_0000_0000 }
fn inf(b: u64) -> bool { mag(b) == 0x7ff0_0000_0000_0000 }
fn finite(b: u64) -> bool { mag(b) < 0x7ff0_0000_0000_0000 }
fn key(b: u64) -> i128 { if negb(b) { -mag(b) } else { mag(b) } }
fn lt(a: u64, b: u64) -> bool { !nan(a) && !nan(b) && key(a) < key(b) }
fn le(a: u64, b: u64) -> bool { !nan(a) && !nan(b) && key(a) <= key(b) }
fn eq(a: u64, b: u64) -> bool { !nan(a) && !nan(b) && key(a) == key(b) }
fn fneg(b: u64) -> u64 { if negb(b) { b - 0x8000_0000_0000_0000 } else { b + 0x8000_0000_0000_0000 } }
fn fsame(a: f64, b: f64) -> bool { a.to_bits() == b.to_bits() || (a.is_nan() && b.is_nan()) }
fn any() -> (f64, u64) { let b: u64 = kani::any(); (f64::from_bits(b), b) }

/// lt_, le_, gt_, ge_, eq_f, ne_f, partial_cmp_
#[kani::proof]
fn cmp() {
    let (x, a) = any();
    let (y, b) = any();
    assert!((x < y) == lt(a, b));
    assert!((x <= y) == le(a, b));
    assert!((x > y) == lt(b, a));
    assert!((x >= y) == le(b, a));
    assert!((x == y) == eq(a, b));
    assert!((x != y) == !eq(a, b));
    match x.partial_cmp(&y) {
        Some(o) => assert!(!nan(a) && !nan(b) && o == key(a).cmp(&key(b))),
        None => assert!(nan(a) || nan(b)),
    }
}
/// is_nan_, is_infinite_, is_finite_, is_sign_positive_, is_sign_negative_, abs_, neg, the constants
#[kani::proof]
fn class() {
    let (x, a) = any();
    assert!(x.is_nan() == nan(a));
    assert!(x.is_infinite() == inf(a));
    assert!(x.is_finite() == finite(a));
    assert!(x.is_sign_positive() == !negb(a));
    assert!(x.is_sign_negative() == negb(a));
    let m = x.abs().to_bits();
    assert!(mag(m) == mag(a) && !negb(m));
    assert!((-x).to_bits() == fneg(a));
    assert!(0.0f64.to_bits() == 0);
    assert!(1.0f64.to_bits() == 0x3ff0_0000_0000_0000);
    assert!((-1.0f64).to_bits() == 0xbff0_0000_0000_0000);
    assert!(f64::INFINITY.to_bits() == 0x7ff0_0000_0000_0000);
    assert!(9007199254740992.0f64.to_bits() == 0x4340_0000_0000_0000);
    assert!(1_000_000_000.0f64.to_bits() == 0x41cd_cd65_0000_0000);
}
/// ax_integral
#[kani::proof]
fn integral() {
    let (c, b) = any();
    kani::assume(le(0, b) && lt(b, 0x4340_0000_0000_0000));
    let small = (c as u64) as f64 == c;
    assert!((c.floor() as u64 == c.ceil() as u64) == small);
    if small {
        assert!(c.floor() as u64 == c as u64);
    }
    assert!((c.floor() == c) == small);
    assert!((c.ceil() == c) == small);
    assert!((c.trunc() == c) == small);
    assert!((c.fract() == 0.0) == small);
}
/// fadd_: the sum does not depend on the order of its operands, not-a-number aside
#[kani::proof]
fn addswap() {
    let (x, _) = any();
    let (y, _) = any();
    assert!(fsame(x + y, y + x));
}
/// min_, max_
#[kani::proof]
fn minmax() {
    let (x, a) = any();
    let (y, b) = any();
    let (n, m) = (x.min(y).to_bits(), x.max(y).to_bits());
    if lt(a, b) { assert!(n == a && m == b); }
    if lt(b, a) { assert!(n == b && m == a); }
    if nan(a) && !nan(b) { assert!(n == b && m == b); }
    if nan(b) && !nan(a) { assert!(n == a && m == a); }
    if eq(a, b) { assert!(eq(n, a) && eq(m, a) && (n == a || n == b) && (m == a || m == b)); }
}
/// to_u64, to_usize of a floor
#[kani::proof]
fn floor_cast() {
    let (x, a) = any();
    if le(0, a) { assert!(x.floor() as u64 == x as u64); }
}
/// ax_fadd_up
#[kani::proof]
fn up() {
    let (x, a) = any();
    let (y, b) = any();
    kani::assume(le(0, a) && le(0, b));
    let s = (x + y).to_bits();
    assert!(le(a, s));
    assert!(le(0, s));
}
/// ax_fadd_mono, first half
#[kani::proof]
fn mono() {
    let (x, a) = any();
    let (y, b) = any();
    let (z, c) = any();
    kani::assume(le(0, a) && le(0, b) && le(0, c) && le(a, b));
    assert!(le((x + z).to_bits(), (y + z).to_bits()));
}
/// ax_fadd_mono, second half: the sum does not depend on the order of two numbers
#[kani::proof]
fn commutes() {
    let (x, a) = any();
    let (y, b) = any();
    kani::assume(le(0, a) && le(0, b));
    assert!((x + y).to_bits() == (y + x).to_bits());
}
/// ax_of_int_mono
#[kani::proof]
fn of_int() {
    let a: u64 = kani::any();
    let b: u64 = kani::any();
    kani::assume(a <= b);
    assert!(le(0, (a as f64).to_bits()));
    assert!(le((a as f64).to_bits(), (b as f64).to_bits()));
}
/// ax_sub
#[kani::proof]
fn sub() {
    let (x, _) = any();
    let (c, _) = any();
    assert!(fsame(x + (-c), x - c));
}
/// ax_seconds
#[kani::proof]
fn seconds() {
    let s: u64 = kani::any();
    let n: u32 = kani::any();
    kani::assume(n < 1_000_000_000);
    let t = s as f64 + (n as f64) / 1_000_000_000.0;
    assert!(le(0, t.to_bits()));
}
/// ax_cnt_of, second half: what is added to a new counter is what it reads
#[kani::proof]
fn counted() {
    let (x, a) = any();
    kani::assume(le(0, a));
    let v = if x < 9007199254740992.0 && (x as u64) as f64 == x { 0.0 + (x as u64) as f64 } else { (0.0 + x) + 0u64 as f64 };
    assert!(v == x);
}
/// ax_cnt_of, first half
#[kani::proof]
fn ratio() {
    let n: u64 = kani::any();
    let t: u64 = kani::any();
    kani::assume(n <= i64::MAX as u64 && 0 < t && t <= i64::MAX as u64);
    assert!(le(0, (n as f64 / t as f64).to_bits()));
}
