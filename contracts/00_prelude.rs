// =====================================================================
// The boundary: what the checks assume about std, atomic_immut and the
// hardware.  Every `external_body` and `axiom` below is part of the trusted
// base and is counted mechanically into the evidence files.
// =====================================================================

// ---------------------------------------------------------------- basics
#[verifier::external_body]
pub struct Opaque { _p: u8 }
#[verifier::external_body]
pub fn diverge() -> ! { panic!() }
#[verifier::external_body]
pub fn diverge_unit() ensures false { panic!() }
#[verifier::external_body]
pub fn clone_val<T>(x: &T) -> (r: T) ensures r == *x { unimplemented!() }
pub fn owned<T>(x: T) -> (r: T) ensures r == x { x }
pub open spec fn int_cmp(a: int, b: int) -> int { if a < b { -1 } else if a > b { 1 } else { 0 } }
pub open spec fn ord_int(o: Ordering) -> int { match o { Ordering::Less => -1int, Ordering::Equal => 0int, Ordering::Greater => 1int } }
pub fn ord_is_lt(o: Ordering) -> (r: bool) ensures r == (ord_int(o) == -1) { match o { Ordering::Less => true, _ => false } }
pub fn ord_is_gt(o: Ordering) -> (r: bool) ensures r == (ord_int(o) == 1) { match o { Ordering::Greater => true, _ => false } }
pub fn ord_is_eq(o: Ordering) -> (r: bool) ensures r == (ord_int(o) == 0) { match o { Ordering::Equal => true, _ => false } }
pub fn ord_reverse(o: Ordering) -> (r: Ordering) ensures ord_int(r) == -ord_int(o) { match o { Ordering::Less => Ordering::Greater, Ordering::Equal => Ordering::Equal, Ordering::Greater => Ordering::Less } }
pub fn ord_then(a: Ordering, b: Ordering) -> (r: Ordering) ensures ord_int(r) == (if ord_int(a) != 0 { ord_int(a) } else { ord_int(b) }) { match a { Ordering::Equal => b, _ => a } }

/// wrapping is what the release build does; the exact sum whenever it fits
#[verifier::external_body]
pub fn u64_add(a: u64, b: u64) -> (r: u64)
    ensures
        a + b < 0x1_0000_0000_0000_0000 ==> r == a + b,
        r == (a + b) % 0x1_0000_0000_0000_0000,
{ unimplemented!() }
#[verifier::external_body]
pub fn u64_wrapping_add(a: u64, b: u64) -> (r: u64) ensures r == (a + b) % 0x1_0000_0000_0000_0000 { unimplemented!() }
pub fn usize_saturating_sub(a: usize, b: usize) -> (r: usize) ensures r == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
pub fn u64_saturating_sub(a: u64, b: u64) -> (r: u64) ensures r == (if a >= b { a - b } else { 0 }) { if a >= b { a - b } else { 0 } }
pub fn u64_saturating_add(a: u64, b: u64) -> (r: u64) ensures r == (if a + b <= u64::MAX { a + b } else { u64::MAX as int }) { if a <= u64::MAX - b { a + b } else { u64::MAX } }
pub fn cast_u32_i64(a: u32) -> (r: i64) ensures r == a { a as i64 }
pub fn cast_u32_u64(a: u32) -> (r: u64) ensures r == a { a as u64 }
pub fn cast_u8_u64(a: u8) -> (r: u64) ensures r == a { a as u64 }
pub fn cast_usize_u64(a: usize) -> (r: u64) ensures r == a { a as u64 }
pub fn cast_u64_usize(a: u64) -> (r: usize) ensures a <= usize::MAX ==> r == a { #[verifier::truncate] (a as usize) }
#[verifier::external_body]
pub fn cast_i64_usize(a: i64) -> (r: usize) ensures a >= 0 ==> r == a { #[verifier::truncate] (a as usize) }
pub fn cast_u64_i64(a: u64) -> (r: i64) ensures a <= i64::MAX ==> r == a { a as i64 }
#[verifier::external_body]
pub fn cast_i64_u64(a: i64) -> (r: u64) ensures a >= 0 ==> r == a { a as u64 }
#[verifier::external_body]
pub fn cast_usize_i32(a: usize) -> (r: i32) ensures a <= i32::MAX ==> r == a { a as i32 }
pub fn u8_as_char(b: u8) -> (r: char) ensures r as u32 == b as u32 { b as char }
pub fn skip_start(n: usize, len: usize) -> (r: usize) ensures r == (if n <= len { n } else { len }) { if n <= len { n } else { len } }

// ---------------------------------------------------------------- equality and order
pub trait PEq { spec fn deq(&self, o: &Self) -> bool; }
pub trait POrd { spec fn dcmp(&self, o: &Self) -> int; }
pub trait PPOrd { spec fn dpcmp(&self, o: &Self) -> Option<int>; }
#[verifier::external_body]
pub fn p_eq<T: PEq + ?Sized>(a: &T, b: &T) -> (r: bool) ensures r == a.deq(b) { unimplemented!() }
#[verifier::external_body]
pub fn p_cmp<T: POrd + ?Sized>(a: &T, b: &T) -> (r: Ordering) ensures ord_int(r) == a.dcmp(b) { unimplemented!() }
#[verifier::external_body]
pub fn p_partial_cmp<T: PPOrd + ?Sized>(a: &T, b: &T) -> (r: Option<Ordering>)
    ensures match r { Some(o) => a.dpcmp(b) == Some(ord_int(o)), None => a.dpcmp(b) is None } { unimplemented!() }
/// std::cmp::max returns the second operand when they are equal, min the first
#[verifier::external_body]
pub fn p_max<T: POrd>(a: T, b: T) -> (r: T) ensures r == (if a.dcmp(&b) > 0 { a } else { b }) { unimplemented!() }
#[verifier::external_body]
pub fn p_min<T: POrd>(a: T, b: T) -> (r: T) ensures r == (if a.dcmp(&b) > 0 { b } else { a }) { unimplemented!() }
impl PEq for u64 { open spec fn deq(&self, o: &Self) -> bool { *self == *o } }
impl PEq for i64 { open spec fn deq(&self, o: &Self) -> bool { *self == *o } }
impl PEq for usize { open spec fn deq(&self, o: &Self) -> bool { *self == *o } }
impl PEq for bool { open spec fn deq(&self, o: &Self) -> bool { *self == *o } }
impl PEq for Ordering { open spec fn deq(&self, o: &Self) -> bool { *self == *o } }
impl PEq for char { open spec fn deq(&self, o: &Self) -> bool { *self == *o } }
impl PEq for F64 { open spec fn deq(&self, o: &Self) -> bool { self.eq(*o) } }
impl PEq for str { open spec fn deq(&self, o: &Self) -> bool { self@ == o@ } }
impl PEq for String { open spec fn deq(&self, o: &Self) -> bool { self@ == o@ } }
impl<'a, T: PEq + ?Sized> PEq for &'a T { open spec fn deq(&self, o: &Self) -> bool { (**self).deq(*o) } }
impl<T: PEq, U: PEq> PEq for (T, U) { open spec fn deq(&self, o: &Self) -> bool { self.0.deq(&o.0) && self.1.deq(&o.1) } }
impl<T: PEq> PEq for Option<T> {
    open spec fn deq(&self, o: &Self) -> bool { match (*self, *o) { (Some(a), Some(b)) => a.deq(&b), (None, None) => true, _ => false } }
}
impl POrd for u64 { open spec fn dcmp(&self, o: &Self) -> int { int_cmp(*self as int, *o as int) } }
impl POrd for i64 { open spec fn dcmp(&self, o: &Self) -> int { int_cmp(*self as int, *o as int) } }
impl POrd for usize { open spec fn dcmp(&self, o: &Self) -> int { int_cmp(*self as int, *o as int) } }
impl POrd for str { open spec fn dcmp(&self, o: &Self) -> int { chars_cmp(self@, o@) } }
impl POrd for String { open spec fn dcmp(&self, o: &Self) -> int { chars_cmp(self@, o@) } }
impl<'a, T: POrd + ?Sized> POrd for &'a T { open spec fn dcmp(&self, o: &Self) -> int { (**self).dcmp(*o) } }
/// lexicographic comparison (Iterator::cmp, Ord of slices and vectors)
pub open spec fn seq_dcmp<T: POrd>(a: Seq<T>, b: Seq<T>) -> int
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } }
    else if b.len() == 0 { 1 }
    else { let c = a[0].dcmp(&b[0]); if c != 0 { c } else { seq_dcmp(a.drop_first(), b.drop_first()) } }
}
impl<T: POrd> POrd for Vec<T> { open spec fn dcmp(&self, o: &Self) -> int { seq_dcmp(self@, o@) } }
impl<T: POrd, U: POrd, V: POrd> POrd for (T, U, V) {
    open spec fn dcmp(&self, o: &Self) -> int {
        let c = self.0.dcmp(&o.0); let d = self.1.dcmp(&o.1);
        if c != 0 { c } else if d != 0 { d } else { self.2.dcmp(&o.2) }
    }
}
impl<T: POrd, U: POrd> POrd for (T, U) {
    open spec fn dcmp(&self, o: &Self) -> int { let c = self.0.dcmp(&o.0); if c != 0 { c } else { self.1.dcmp(&o.1) } }
}
impl<T: POrd> POrd for Option<T> {
    open spec fn dcmp(&self, o: &Self) -> int {
        match (*self, *o) { (Some(a), Some(b)) => a.dcmp(&b), (None, None) => 0int, (None, Some(_)) => -1int, (Some(_), None) => 1int }
    }
}
impl PPOrd for F64 {
    open spec fn dpcmp(&self, o: &Self) -> Option<int> { if self.nan() || o.nan() { None } else { Some(int_cmp(self.key(), o.key())) } }
}
/// lexicographic order of code points, which is the byte order of UTF-8
pub open spec fn chars_cmp(a: Seq<char>, b: Seq<char>) -> int
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } }
    else if b.len() == 0 { 1 }
    else if a[0] as u32 as int != b[0] as u32 as int { int_cmp(a[0] as u32 as int, b[0] as u32 as int) }
    else { chars_cmp(a.drop_first(), b.drop_first()) }
}

// ---------------------------------------------------------------- floating point
/// an f64, by its bits.  The facts below which are `external_body` are checked
/// on the machine's own f64 for every bit pattern by the Kani harnesses in
/// /verif/floats (harness name in the comment), or are definitions.
#[derive(Clone, Copy)]
pub struct F64 { pub bits: u64 }
impl F64 {
    pub open spec fn negb(self) -> bool { self.bits >= 0x8000_0000_0000_0000 }
    pub open spec fn mag(self) -> int { if self.negb() { self.bits - 0x8000_0000_0000_0000 } else { self.bits as int } }
    pub open spec fn nan(self) -> bool { self.mag() > 0x7ff0_0000_0000_0000 }
    pub open spec fn inf(self) -> bool { self.mag() == 0x7ff0_0000_0000_0000 }
    pub open spec fn finite(self) -> bool { self.mag() < 0x7ff0_0000_0000_0000 }
    /// numbers are ordered as their keys
    pub open spec fn key(self) -> int { if self.negb() { -self.mag() } else { self.mag() } }
    pub open spec fn lt(self, o: F64) -> bool { !self.nan() && !o.nan() && self.key() < o.key() }
    pub open spec fn le(self, o: F64) -> bool { !self.nan() && !o.nan() && self.key() <= o.key() }
    pub open spec fn eq(self, o: F64) -> bool { !self.nan() && !o.nan() && self.key() == o.key() }

    #[verifier::external_body]
    pub fn lt_(a: F64, b: F64) -> (r: bool) ensures r == a.lt(b) { unimplemented!() }            // kani: cmp
    #[verifier::external_body]
    pub fn le_(a: F64, b: F64) -> (r: bool) ensures r == a.le(b) { unimplemented!() }            // kani: cmp
    #[verifier::external_body]
    pub fn gt_(a: F64, b: F64) -> (r: bool) ensures r == b.lt(a) { unimplemented!() }            // kani: cmp
    #[verifier::external_body]
    pub fn ge_(a: F64, b: F64) -> (r: bool) ensures r == b.le(a) { unimplemented!() }            // kani: cmp
    #[verifier::external_body]
    pub fn eq_f(a: F64, b: F64) -> (r: bool) ensures r == a.eq(b) { unimplemented!() }           // kani: cmp
    #[verifier::external_body]
    pub fn ne_f(a: F64, b: F64) -> (r: bool) ensures r == !a.eq(b) { unimplemented!() }          // kani: cmp
    #[verifier::external_body]
    pub fn partial_cmp_(a: F64, b: F64) -> (r: Option<Ordering>)
        ensures match r { Some(o) => !a.nan() && !b.nan() && ord_int(o) == int_cmp(a.key(), b.key()), None => a.nan() || b.nan() }
        { unimplemented!() }                                                                     // kani: cmp
    #[verifier::external_body]
    pub fn is_nan_(a: F64) -> (r: bool) ensures r == a.nan() { unimplemented!() }                // kani: class
    #[verifier::external_body]
    pub fn is_infinite_(a: F64) -> (r: bool) ensures r == a.inf() { unimplemented!() }           // kani: class
    #[verifier::external_body]
    pub fn is_finite_(a: F64) -> (r: bool) ensures r == a.finite() { unimplemented!() }          // kani: class
    #[verifier::external_body]
    pub fn is_sign_positive_(a: F64) -> (r: bool) ensures r == !a.negb() { unimplemented!() }    // kani: class
    #[verifier::external_body]
    pub fn is_sign_negative_(a: F64) -> (r: bool) ensures r == a.negb() { unimplemented!() }     // kani: class
    #[verifier::external_body]
    pub fn abs_(a: F64) -> (r: F64) ensures r.mag() == a.mag(), !r.negb() { unimplemented!() }   // kani: class
    #[verifier::external_body]
    pub fn neg(a: F64) -> (r: F64) ensures r == fneg(a) { unimplemented!() }                     // kani: class
    pub fn to_bits_(a: F64) -> (r: u64) ensures r == a.bits { a.bits }
    pub fn from_bits(b: u64) -> (r: F64) ensures r == (F64 { bits: b }) { F64 { bits: b } }
    /// kani: addswap -- the order of the operands does not matter (not-a-number is one value here)
    #[verifier::external_body]
    pub fn fadd_(a: F64, b: F64) -> (r: F64) ensures r == fadd(a, b), r == fadd(b, a) { unimplemented!() }
    #[verifier::external_body]
    pub fn fsub_(a: F64, b: F64) -> (r: F64) ensures r == fsub(a, b) { unimplemented!() }        // definition
    /// assumed: IEEE 754 products do not depend on the order of the operands (too hard for CBMC)
    #[verifier::external_body]
    pub fn fmul_(a: F64, b: F64) -> (r: F64) ensures r == fmul(a, b), r == fmul(b, a) { unimplemented!() }
    #[verifier::external_body]
    pub fn fdiv_(a: F64, b: F64) -> (r: F64) ensures r == fdiv(a, b) { unimplemented!() }        // definition
    #[verifier::external_body]
    pub fn powi_(a: F64, b: i32) -> (r: F64) ensures r == fpowi(a, b as int) { unimplemented!() }// definition
    #[verifier::external_body]
    pub fn floor_(a: F64) -> (r: F64) ensures r == ffloor(a) { unimplemented!() }                // definition
    #[verifier::external_body]
    pub fn ceil_(a: F64) -> (r: F64) ensures r == fceil(a) { unimplemented!() }                  // definition
    #[verifier::external_body]
    pub fn trunc_(a: F64) -> (r: F64) ensures r == ftrunc(a) { unimplemented!() }                // definition
    #[verifier::external_body]
    pub fn fract_(a: F64) -> (r: F64) ensures r == ffract(a) { unimplemented!() }                // definition
    #[verifier::external_body]
    pub fn round_(a: F64) -> (r: F64) ensures r == fround(a) { unimplemented!() }                // definition
    #[verifier::external_body]
    pub fn fmax_(a: F64, b: F64) -> (r: F64) ensures r == fmaxs(a, b), a.lt(b) ==> r == b, b.lt(a) ==> r == a, a.nan() && !b.nan() ==> r == b, b.nan() && !a.nan() ==> r == a, a.eq(b) ==> r.eq(a) && (r == a || r == b) { unimplemented!() }  // kani: minmax
    #[verifier::external_body]
    pub fn fmin_(a: F64, b: F64) -> (r: F64) ensures r == fmins(a, b), a.lt(b) ==> r == a, b.lt(a) ==> r == b, a.nan() && !b.nan() ==> r == b, b.nan() && !a.nan() ==> r == a, a.eq(b) ==> r.eq(a) && (r == a || r == b) { unimplemented!() }  // kani: minmax
    #[verifier::external_body]
    pub fn max_(a: F64, b: F64) -> (r: F64) ensures r == fmaxs(a, b), a.lt(b) ==> r == b, b.lt(a) ==> r == a, a.nan() && !b.nan() ==> r == b, b.nan() && !a.nan() ==> r == a, a.eq(b) ==> r.eq(a) && (r == a || r == b) { unimplemented!() }  // kani: minmax
    #[verifier::external_body]
    pub fn min_(a: F64, b: F64) -> (r: F64) ensures r == fmins(a, b), a.lt(b) ==> r == a, b.lt(a) ==> r == b, a.nan() && !b.nan() ==> r == b, b.nan() && !a.nan() ==> r == a, a.eq(b) ==> r.eq(a) && (r == a || r == b) { unimplemented!() }  // kani: minmax
    #[verifier::external_body]
    pub fn from_u64(a: u64) -> (r: F64) ensures r == of_int(a as int) { unimplemented!() }       // definition
    #[verifier::external_body]
    pub fn from_usize(a: usize) -> (r: F64) ensures r == of_int(a as int) { unimplemented!() }   // definition
    #[verifier::external_body]
    pub fn from_u32(a: u32) -> (r: F64) ensures r == of_int(a as int) { unimplemented!() }       // definition
    #[verifier::external_body]
    pub fn from_i32(a: i32) -> (r: F64) ensures r == of_int(a as int) { unimplemented!() }       // definition
    #[verifier::external_body]
    pub fn from_i64(a: i64) -> (r: F64) ensures r == of_int(a as int) { unimplemented!() }       // definition
    #[verifier::external_body]
    pub fn to_u64(a: F64) -> (r: u64) ensures r == fto_u64(a) { unimplemented!() }               // definition
    #[verifier::external_body]
    pub fn to_usize(a: F64) -> (r: usize) ensures r == fto_usize(a) { unimplemented!() }         // definition
    #[verifier::external_body]
    pub fn to_i64(a: F64) -> (r: i64) ensures r == fto_i64(a) { unimplemented!() }               // definition
    /// the f64 iterator sum starts from negative zero
    pub fn zero() -> (r: F64) ensures r == f0() { F64 { bits: 0 } }
    pub fn one() -> (r: F64) ensures r == f1() { F64 { bits: 0x3ff0_0000_0000_0000 } }
    pub fn minus_one() -> (r: F64) ensures r == fm1() { F64 { bits: 0xbff0_0000_0000_0000 } }
    pub fn sum_zero() -> (r: F64) ensures r == fsum_zero() { F64 { bits: 0x8000_0000_0000_0000 } }
}
pub open spec fn fneg(a: F64) -> F64 { F64 { bits: (if a.negb() { a.bits - 0x8000_0000_0000_0000 } else { a.bits + 0x8000_0000_0000_0000 }) as u64 } }
pub open spec fn fsum_zero() -> F64 { F64 { bits: 0x8000_0000_0000_0000 } }
pub uninterp spec fn fadd(a: F64, b: F64) -> F64;
pub uninterp spec fn fsub(a: F64, b: F64) -> F64;
pub uninterp spec fn fmul(a: F64, b: F64) -> F64;
pub uninterp spec fn fdiv(a: F64, b: F64) -> F64;
pub uninterp spec fn fpowi(a: F64, b: int) -> F64;
pub uninterp spec fn ffloor(a: F64) -> F64;
pub uninterp spec fn fceil(a: F64) -> F64;
pub uninterp spec fn ftrunc(a: F64) -> F64;
pub uninterp spec fn ffract(a: F64) -> F64;
pub uninterp spec fn fround(a: F64) -> F64;
pub uninterp spec fn fmaxs(a: F64, b: F64) -> F64;
pub uninterp spec fn fmins(a: F64, b: F64) -> F64;
pub uninterp spec fn of_int(a: int) -> F64;
pub uninterp spec fn fto_u64(a: F64) -> u64;
pub uninterp spec fn fto_usize(a: F64) -> usize;
pub uninterp spec fn fto_i64(a: F64) -> i64;
pub open spec fn f_of(bits: int) -> F64 { F64 { bits: bits as u64 } }
pub open spec fn f0() -> F64 { F64 { bits: 0 } }
pub open spec fn f1() -> F64 { F64 { bits: 0x3ff0_0000_0000_0000 } }
pub open spec fn fm1() -> F64 { F64 { bits: 0xbff0_0000_0000_0000 } }
pub open spec fn finf() -> F64 { F64 { bits: 0x7ff0_0000_0000_0000 } }
/// 2^53
pub open spec fn f2p53() -> F64 { F64 { bits: 0x4340_0000_0000_0000 } }
pub open spec fn f1e9() -> F64 { F64 { bits: 0x41cd_cd65_0000_0000 } }
/// an integral number in [0, 2^53)
pub open spec fn small_integral(c: F64) -> bool { f0().le(c) && c.lt(f2p53()) && of_int(fto_u64(c) as int).eq(c) }
/// kani: integral.  For 0 <= c < 2^53, floor and ceiling (as integers) agree exactly
/// when c is integral, and then they are c.
pub axiom fn ax_integral(c: F64)
    requires f0().le(c), c.lt(f2p53()),
    ensures
        (fto_u64(ffloor(c)) == fto_u64(fceil(c))) == small_integral(c),
        small_integral(c) ==> fto_u64(ffloor(c)) == fto_u64(c),
        ffloor(c).eq(c) == small_integral(c),
        fceil(c).eq(c) == small_integral(c),
        ftrunc(c).eq(c) == small_integral(c),
        ffract(c).eq(f0()) == small_integral(c),
;

// ---------------------------------------------------------------- the world
pub type LV = (Seq<char>, Seq<char>);
/// The state shared between threads, seen by one thread through a linear token.
/// `cur`/`lab`/`smp`: the present contents of each cell; `ev`/`lev`/`sev`: every write
/// this thread made to the cell, as (contents just before, contents just after).
/// `quiet`: no other thread writes, so a read sees `cur`.
pub tracked struct World {
    pub ghost quiet: bool,
    pub ghost cur: Map<int, int>,
    pub ghost ev: Map<int, Seq<(int, int)>>,
    pub ghost lab: Map<int, Seq<LV>>,
    pub ghost lev: Map<int, Seq<(Seq<LV>, Seq<LV>)>>,
    pub ghost smp: Map<int, Seq<(int, F64)>>,
    pub ghost sev: Map<int, Seq<(Seq<(int, F64)>, Seq<(int, F64)>)>>,
    pub ghost times: Seq<int>,
    pub ghost sent: Seq<(int, int)>,
    pub ghost queue: Map<int, Seq<int>>,
    pub ghost polls: Seq<(int, Option<Seq<crate::metric::Metric>>)>,
    pub ghost ran: Seq<int>,
    pub ghost os: Seq<OsEv>,
}
/// exactly one indivisible step on the numeric cell `id`, taking its contents x to f(x)
pub open spec fn step(o: World, n: World, id: int, f: spec_fn(int) -> int) -> bool {
    let a = n.ev[id].last().0;
    let b = f(a);
    &&& n == World { cur: o.cur.insert(id, b), ev: o.ev.insert(id, o.ev[id].push((a, b))), ..o }
    &&& (o.quiet ==> a == o.cur[id])
    &&& n.ev[id].last() == (a, b)
}
/// no effect at all
pub open spec fn same(o: World, n: World) -> bool { n == o }
/// a new cell
pub open spec fn born(o: World, n: World, id: int, v: int) -> bool {
    &&& !o.cur.dom().contains(id)
    &&& n == World { cur: o.cur.insert(id, v), ev: o.ev.insert(id, Seq::empty()), ..o }
}

// ---------------------------------------------------------------- atomics
#[derive(Clone, Copy)]
pub enum MemOrd { Relaxed, Release, Acquire, AcqRel, SeqCst }
#[verifier::external_body]
pub struct StdAtomicU64 { _p: u8 }
impl StdAtomicU64 {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: u64, Tracked(w): Tracked<&mut World>) -> (r: StdAtomicU64) ensures born(*old(w), *final(w), r.id(), v as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: MemOrd, Tracked(w): Tracked<&mut World>) -> (r: u64)
        requires o is Relaxed || o is Acquire || o is SeqCst,
        ensures same(*old(w), *final(w)), old(w).quiet ==> r == old(w).cur[self.id()] { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: u64, o: MemOrd, Tracked(w): Tracked<&mut World>)
        requires o is Relaxed || o is Release || o is SeqCst,
        ensures step(*old(w), *final(w), self.id(), |x: int| v as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: u64, o: MemOrd, Tracked(w): Tracked<&mut World>) -> (r: u64)
        ensures step(*old(w), *final(w), self.id(), |x: int| v as int), final(w).ev[self.id()].last().0 == r { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_add(&self, v: u64, o: MemOrd, Tracked(w): Tracked<&mut World>) -> (r: u64)
        ensures step(*old(w), *final(w), self.id(), |x: int| (x + v) % 0x1_0000_0000_0000_0000), final(w).ev[self.id()].last().0 == r { unimplemented!() }
    #[verifier::external_body]
    pub fn fetch_sub(&self, v: u64, o: MemOrd, Tracked(w): Tracked<&mut World>) -> (r: u64)
        ensures step(*old(w), *final(w), self.id(), |x: int| (x - v) % 0x1_0000_0000_0000_0000), final(w).ev[self.id()].last().0 == r { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange_weak(&self, cur: u64, new: u64, o1: MemOrd, o2: MemOrd, Tracked(w): Tracked<&mut World>) -> (r: Result<u64, u64>)
        requires o2 is Relaxed || o2 is Acquire || o2 is SeqCst,
        ensures match r {
            Ok(v) => v == cur && step(*old(w), *final(w), self.id(), |x: int| new as int) && final(w).ev[self.id()].last().0 == cur,
            Err(v) => same(*old(w), *final(w)) && (old(w).quiet ==> v == old(w).cur[self.id()]),
        } { unimplemented!() }
    #[verifier::external_body]
    pub fn compare_exchange(&self, cur: u64, new: u64, o1: MemOrd, o2: MemOrd, Tracked(w): Tracked<&mut World>) -> (r: Result<u64, u64>)
        requires o2 is Relaxed || o2 is Acquire || o2 is SeqCst,
        ensures match r {
            Ok(v) => v == cur && step(*old(w), *final(w), self.id(), |x: int| new as int) && final(w).ev[self.id()].last().0 == cur,
            Err(v) => v != cur && same(*old(w), *final(w)) && (old(w).quiet ==> v == old(w).cur[self.id()]),
        } { unimplemented!() }
}
#[verifier::external_body]
pub struct StdAtomicI64 { _p: u8 }
impl StdAtomicI64 {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: i64, Tracked(w): Tracked<&mut World>) -> (r: StdAtomicI64) ensures born(*old(w), *final(w), r.id(), v as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, o: MemOrd, Tracked(w): Tracked<&mut World>) -> (r: i64)
        requires o is Relaxed || o is Acquire || o is SeqCst,
        ensures same(*old(w), *final(w)), old(w).quiet ==> r == old(w).cur[self.id()] { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: i64, o: MemOrd, Tracked(w): Tracked<&mut World>)
        requires o is Relaxed || o is Release || o is SeqCst,
        ensures step(*old(w), *final(w), self.id(), |x: int| v as int) { unimplemented!() }
    #[verifier::external_body]
    pub fn swap(&self, v: i64, o: MemOrd, Tracked(w): Tracked<&mut World>) -> (r: i64)
        ensures step(*old(w), *final(w), self.id(), |x: int| v as int), final(w).ev[self.id()].last().0 == r { unimplemented!() }
}

// ---------------------------------------------------------------- time
#[derive(Clone, Copy)]
pub struct Duration { pub secs: u64, pub nanos: u32 }
impl Duration {
    pub open spec fn wf(self) -> bool { self.nanos < 1_000_000_000 }
    pub open spec fn total(self) -> int { self.secs * 1_000_000_000 + self.nanos }
    pub fn as_secs(&self) -> (r: u64) ensures r == self.secs { self.secs }
    #[verifier::external_body]
    pub fn subsec_nanos(&self) -> (r: u32) ensures r == self.nanos, r < 1_000_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_micros(&self) -> (r: u32) ensures r == self.nanos / 1000, r < 1_000_000 { unimplemented!() }
    #[verifier::external_body]
    pub fn subsec_millis(&self) -> (r: u32) ensures r == self.nanos / 1_000_000, r < 1000 { unimplemented!() }
    #[verifier::external_body]
    pub fn new_(secs: u64, nanos: u32) -> (r: Duration) ensures nanos < 1_000_000_000 ==> r.secs == secs && r.nanos == nanos { unimplemented!() }
    pub fn from_secs_(secs: u64) -> (r: Duration) ensures r.secs == secs, r.nanos == 0 { Duration { secs, nanos: 0 } }
    #[verifier::external_body]
    pub fn as_millis(&self) -> (r: u128) ensures r == self.secs * 1000 + self.nanos / 1_000_000, self.nanos < 1_000_000_000 { unimplemented!() }
}
impl PEq for Duration { open spec fn deq(&self, o: &Self) -> bool { self.total() == o.total() } }
impl POrd for Duration { open spec fn dcmp(&self, o: &Self) -> int { int_cmp(self.total(), o.total()) } }
#[verifier::external_body]
pub struct SystemTimeError { _p: u8 }
/// whole milliseconds of a time in nanoseconds, the fraction cut toward zero
pub open spec fn to_ms(ns: int) -> int { if ns >= 0 { ns / 1_000_000 } else { -((-ns) / 1_000_000) } }
/// the milliseconds fit in 64 bits (and are not the reserved minimum)
pub open spec fn ms_fits(ns: int) -> bool { i64::MIN < to_ms(ns) <= i64::MAX }
#[derive(Clone, Copy)]
pub struct SystemTime { pub ns: Ghost<int> }
impl SystemTime {
    /// nanoseconds since the epoch
    pub open spec fn t(self) -> int { self.ns@ }
    #[verifier::external_body]
    pub fn now(Tracked(w): Tracked<&mut World>) -> (r: SystemTime) ensures ms_fits(r.t()), *final(w) == (World { times: old(w).times.push(r.t()), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn duration_since(self, o: SystemTime) -> (r: Result<Duration, SystemTimeError>)
        ensures match r { Ok(d) => self.t() >= o.t() && d.wf() && d.total() == self.t() - o.t(), Err(_) => self.t() < o.t() } { unimplemented!() }
}
impl PEq for SystemTime { open spec fn deq(&self, o: &Self) -> bool { self.t() == o.t() } }
impl POrd for SystemTime { open spec fn dcmp(&self, o: &Self) -> int { int_cmp(self.t(), o.t()) } }
#[verifier::external_body]
pub fn UNIX_EPOCH() -> (r: SystemTime) ensures r.t() == 0 { unimplemented!() }
#[verifier::external_body]
pub struct Instant { _p: u8 }
impl Instant {
    #[verifier::external_body]
    pub fn now(Tracked(w): Tracked<&mut World>) -> (r: Instant) ensures same(*old(w), *final(w)) { unimplemented!() }
    #[verifier::external_body]
    pub fn elapsed(&self, Tracked(w): Tracked<&mut World>) -> (r: Duration) ensures r.wf(), same(*old(w), *final(w)) { unimplemented!() }
}
/// a caller's closure FnOnce() -> T; what it does to the world is unknown, but its
/// result is known to come from its single run
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct Work<T> { _p: core::marker::PhantomData<T> }
impl<T> Work<T> {
    pub uninterp spec fn id(&self) -> int;
    pub uninterp spec fn result(&self, w: World) -> T;
    pub uninterp spec fn after(&self, w: World) -> World;
    #[verifier::external_body]
    pub fn run(self, Tracked(w): Tracked<&mut World>) -> (r: T) ensures *final(w) == self.after(*old(w)), r == self.result(*old(w)) { unimplemented!() }
}

// ---------------------------------------------------------------- text
pub fn string_new() -> (r: String) ensures r@ == Seq::<char>::empty() { String::new() }
#[verifier::external_body]
pub fn string_push(s: &mut String, c: char) ensures final(s)@ == old(s)@.push(c) { unimplemented!() }
#[verifier::external_body]
pub fn string_push_str(s: &mut String, t: &str) ensures final(s)@ == old(s)@ + t@ { unimplemented!() }
#[verifier::external_body]
pub fn string_take(s: &mut String) -> (r: String) ensures r@ == old(s)@, final(s)@ == Seq::<char>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn str_to_string(s: &str) -> (r: String) ensures r@ == s@ { unimplemented!() }
#[verifier::external_body]
pub fn str_eq(a: &str, b: &str) -> (r: bool) ensures r == (a@ == b@) { unimplemented!() }
#[verifier::external_body]
pub fn str_is_empty(s: &str) -> (r: bool) ensures r == (s@.len() == 0) { unimplemented!() }
pub open spec fn starts(s: Seq<char>, p: Seq<char>) -> bool { p.len() <= s.len() && forall|i: int| 0 <= i < p.len() ==> #[trigger] s[i] == p[i] }
#[verifier::external_body]
pub fn str_starts_with(s: &str, p: &str) -> (r: bool) ensures r == starts(s@, p@) { unimplemented!() }
#[verifier::external_body]
pub fn str_starts_with_char(s: &str, p: char) -> (r: bool) ensures r == (s@.len() > 0 && s@[0] == p) { unimplemented!() }
/// the first byte of a non-empty string is its first character if that is ASCII, and above 127 otherwise
#[verifier::external_body]
pub fn str_byte_at(s: &str, i: usize) -> (r: u8)
    requires i == 0, s@.len() > 0,
    ensures (s@[0] as u32) < 128 ==> r as u32 == s@[0] as u32, (s@[0] as u32) >= 128 ==> r >= 128,
{ unimplemented!() }
#[verifier::external_body]
pub fn str_chars(s: &str) -> (r: Vec<char>) ensures r@ == s@ { unimplemented!() }
/// what a list of texts shows
pub open spec fn texts(v: Seq<&str>) -> Seq<Seq<char>> { v.map_values(|s: &str| s@) }
/// the lines of a text: line feeds end them (with a carriage return before one), and nothing follows the last
pub open spec fn lines_of(s: Seq<char>) -> Seq<Seq<char>>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() }
    else if s.last() != '\n' && !s.contains('\n') { seq![s] }
    else {
        let k = s.index_of('\n');
        let l = s.take(k);
        if 0 <= k < s.len() { seq![if l.len() > 0 && l.last() == '\r' { l.drop_last() } else { l }] + lines_of(s.skip(k + 1)) } else { Seq::empty() }
    }
}
#[verifier::external_body]
pub fn str_lines(s: &str) -> (r: Vec<&str>) ensures texts(r@) == lines_of(s@) { unimplemented!() }
/// the bytes of a text (UTF-8)
pub open spec fn bytes_of(s: Seq<char>) -> nat
    decreases s.len()
{
    if s.len() == 0 { 0 } else {
        let c = s.last() as u32;
        bytes_of(s.drop_last()) + (if c < 0x80 { 1nat } else if c < 0x800 { 2 } else if c < 0x1_0000 { 3 } else { 4 })
    }
}
#[verifier::external_body]
pub fn str_len(s: &str) -> (r: usize) ensures r == bytes_of(s@) { unimplemented!() }
/// `&s[k..]`
#[verifier::external_body]
pub fn str_from<'a>(s: &'a str, k: usize) -> (r: &'a str)
    requires exists|j: int| 0 <= j <= s@.len() && #[trigger] bytes_of(s@.take(j)) == k,
    ensures forall|j: int| 0 <= j <= s@.len() && #[trigger] bytes_of(s@.take(j)) == k ==> r@ == s@.skip(j),
{ unimplemented!() }
/// a text's beginning takes the bytes of what it is
pub broadcast proof fn b_starts(s: Seq<char>, p: Seq<char>)
    ensures #[trigger] starts(s, p) ==> s.take(p.len() as int) == p && bytes_of(s.take(p.len() as int)) == bytes_of(p),
{ if starts(s, p) { assert(s.take(p.len() as int) =~= p); } }
#[verifier::external_body]
pub fn str_strip_prefix<'a>(s: &'a str, p: &str) -> (r: Option<&'a str>)
    ensures r is Some <==> starts(s@, p@), r matches Some(t) ==> t@ == s@.skip(p@.len() as int) { unimplemented!() }
/// white space in Unicode's sense
pub uninterp spec fn is_space(c: char) -> bool;
pub open spec fn ltrim(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_space(s[0]) { ltrim(s.skip(1)) } else { s } }
pub open spec fn rtrim(s: Seq<char>) -> Seq<char>
    decreases s.len()
{ if s.len() > 0 && is_space(s.last()) { rtrim(s.drop_last()) } else { s } }
#[verifier::external_body]
pub fn str_trim<'a>(s: &'a str) -> (r: &'a str) ensures r@ == rtrim(ltrim(s@)) { unimplemented!() }
#[verifier::external_body]
pub fn str_trim_start<'a>(s: &'a str) -> (r: &'a str) ensures r@ == ltrim(s@) { unimplemented!() }
#[verifier::external_body]
pub fn str_trim_end<'a>(s: &'a str) -> (r: &'a str) ensures r@ == rtrim(s@) { unimplemented!() }
/// the number which decimal digits stand for
pub open spec fn digits(s: Seq<char>) -> Option<nat>
    decreases s.len()
{
    if s.len() == 0 { Some(0) } else {
        match digits(s.drop_last()) {
            Some(n) => if '0' <= s.last() <= '9' { Some(10 * n + (s.last() as u32 - '0' as u32) as nat) } else { None },
            None => None,
        }
    }
}
/// how std reads a u64: digits, with an optional plus sign, of a number below 2^64
pub open spec fn u64_of(s: Seq<char>) -> Option<u64> {
    let t = if s.len() > 0 && s[0] == '+' { s.skip(1) } else { s };
    match digits(t) { Some(n) => if t.len() > 0 && n <= u64::MAX { Some(n as u64) } else { None }, None => None }
}
#[verifier::external_body]
pub struct ParseErr { _p: u8 }
#[verifier::external_body]
pub fn str_parse_u64(s: &str) -> (r: core::result::Result<u64, ParseErr>) ensures ok_of(r) == u64_of(s@) { unimplemented!() }

pub struct FmtError {}
pub type FmtResult = core::result::Result<(), FmtError>;
/// what is written to a formatter; `sure` when the writer behind it never fails (a String)
pub struct Fmt { pub t: Ghost<Seq<char>>, pub s: Ghost<bool> }
pub open spec fn wrote(o: Fmt, n: Fmt, r: FmtResult, t: Seq<char>) -> bool {
    n.sure() == o.sure() && (o.sure() ==> r is Ok) && (r is Ok ==> n@ =~= o@ + t)
}
/// whatever was written, writing to a String does not fail
pub open spec fn wrote_some(o: Fmt, n: Fmt, r: FmtResult) -> bool { n.sure() == o.sure() && (o.sure() ==> r is Ok) }
pub uninterp spec fn f64_text(x: F64) -> Seq<char>;
pub uninterp spec fn int_text(x: int) -> Seq<char>;
impl Fmt {
    pub open spec fn view(&self) -> Seq<char> { self.t@ }
    pub open spec fn sure(&self) -> bool { self.s@ }
    #[verifier::external_body]
    pub fn buffer() -> (r: Fmt) ensures r@ == Seq::<char>::empty(), r.sure() { unimplemented!() }
    #[verifier::external_body]
    pub fn of(s: String) -> (r: Fmt) ensures r@ == s@, r.sure() { unimplemented!() }
    #[verifier::external_body]
    pub fn into_string(self) -> (r: String) ensures r@ == self@ { unimplemented!() }
    #[verifier::external_body]
    pub fn write_str_(&mut self, s: &str) -> (r: FmtResult) ensures wrote(*old(self), *final(self), r, s@) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_char_(&mut self, c: char) -> (r: FmtResult) ensures wrote(*old(self), *final(self), r, seq![c]) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_f64_(&mut self, x: F64) -> (r: FmtResult) ensures wrote(*old(self), *final(self), r, f64_text(x)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_u64_(&mut self, x: u64) -> (r: FmtResult) ensures wrote(*old(self), *final(self), r, int_text(x as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_i64_(&mut self, x: i64) -> (r: FmtResult) ensures wrote(*old(self), *final(self), r, int_text(x as int)) { unimplemented!() }
    #[verifier::external_body]
    pub fn write_usize_(&mut self, x: usize) -> (r: FmtResult) ensures wrote(*old(self), *final(self), r, int_text(x as int)) { unimplemented!() }
}
pub fn fmt_ok() -> (r: FmtResult) ensures r is Ok { Ok(()) }

// ---------------------------------------------------------------- sequences
pub struct SliceIter<'a, T> { pub s: &'a [T], pub pos: usize }
impl<'a, T> SliceIter<'a, T> {
    pub fn new(s: &'a [T]) -> (r: Self) ensures r.s@ == s@, r.pos == 0 { SliceIter { s, pos: 0 } }
    pub open spec fn wf(&self) -> bool { self.pos <= self.s@.len() }
    /// what is still to come
    pub open spec fn rest(&self) -> Seq<T> { if self.pos == 0 { self.s@ } else { self.s@.skip(self.pos as int) } }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).s == old(self).s,
            match r {
                Some(x) => old(self).pos < old(self).s@.len() && *x == old(self).s@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
                None => final(self).pos == old(self).pos && old(self).pos == old(self).s@.len(),
            },
    {
        if self.pos < self.s.len() { let r = &self.s[self.pos]; self.pos = self.pos + 1; Some(r) } else { None }
    }
}
pub struct PeekIter<'a, T> { pub s: &'a [T], pub pos: usize }
impl<'a, T> PeekIter<'a, T> {
    pub open spec fn wf(&self) -> bool { self.pos <= self.s@.len() }
    pub fn of(i: SliceIter<'a, T>) -> (r: Self) ensures r.s == i.s, r.pos == i.pos { PeekIter { s: i.s, pos: i.pos } }
    pub fn peek(&self) -> (r: Option<&&'a T>)
        requires self.wf(),
        ensures match r { Some(x) => self.pos < self.s@.len() && **x == self.s@[self.pos as int], None => self.pos == self.s@.len() },
    { self.peek_() }
    #[verifier::external_body]
    fn peek_(&self) -> (r: Option<&&'a T>)
        ensures self.wf() ==> match r { Some(x) => self.pos < self.s@.len() && **x == self.s@[self.pos as int], None => self.pos == self.s@.len() },
    { unimplemented!() }
    pub fn next(&mut self) -> (r: Option<&'a T>)
        requires old(self).wf(),
        ensures final(self).wf(), final(self).s == old(self).s,
            match r {
                Some(x) => old(self).pos < old(self).s@.len() && *x == old(self).s@[old(self).pos as int] && final(self).pos == old(self).pos + 1,
                None => final(self).pos == old(self).pos && old(self).pos == old(self).s@.len(),
            },
    {
        if self.pos < self.s.len() { let r = &self.s[self.pos]; self.pos = self.pos + 1; Some(r) } else { None }
    }
}
pub struct OnceIter<T> { pub v: T }
impl<T> OnceIter<T> {
    pub fn new(v: T) -> (r: Self) ensures r.v == v { OnceIter { v } }
    #[verifier::external_body]
    pub fn into_vec(self) -> (r: Vec<T>) ensures r@ == seq![self.v] { unimplemented!() }
}
/// a vector consumed from the front
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct OwnedIter<T> { v: Vec<T> }
impl<T> OwnedIter<T> {
    pub uninterp spec fn seq(&self) -> Seq<T>;
    pub uninterp spec fn pos(&self) -> int;
    pub open spec fn wf(&self) -> bool { 0 <= self.pos() <= self.seq().len() }
    #[verifier::external_body]
    pub fn new(v: Vec<T>) -> (r: Self) ensures r.seq() == v@, r.pos() == 0, r.wf() { unimplemented!() }
    #[verifier::external_body]
    pub fn more(&self) -> (r: bool) requires self.wf(), ensures r == (self.pos() < self.seq().len()) { unimplemented!() }
    #[verifier::external_body]
    pub fn take(&mut self) -> (r: T)
        requires old(self).wf(), old(self).pos() < old(self).seq().len(),
        ensures r == old(self).seq()[old(self).pos()], final(self).seq() == old(self).seq(), final(self).pos() == old(self).pos() + 1, final(self).wf() { unimplemented!() }
}
#[verifier::external_body]
pub fn vec_append<T>(v: &mut Vec<T>, o: &mut Vec<T>) ensures final(v)@ == old(v)@ + old(o)@, final(o)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn vec_extend_from_slice<T>(v: &mut Vec<T>, o: &[T]) ensures final(v)@ == old(v)@ + o@ { unimplemented!() }
pub fn vslice<T>(v: &Vec<T>) -> (r: &[T]) ensures r@ == v@ { v.as_slice() }
#[verifier::external_body]
pub fn vec_swap_remove<T>(v: &mut Vec<T>, i: usize) -> (r: T)
    requires i < old(v)@.len(),
    ensures r == old(v)@[i as int], final(v)@ == swap_removed(old(v)@, i as int) { unimplemented!() }
pub open spec fn swap_removed<T>(s: Seq<T>, i: int) -> Seq<T> { s.update(i, s.last()).drop_last() }
#[verifier::external_body]
pub fn vec_take<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn mem_take_vec<T>(v: &mut Vec<T>) -> (r: Vec<T>) ensures r@ == old(v)@, final(v)@ == Seq::<T>::empty() { unimplemented!() }
#[verifier::external_body]
pub fn mem_replace<T>(v: &mut T, n: T) -> (r: T) ensures r == *old(v), *final(v) == n { unimplemented!() }
pub fn vec_last<T>(v: &Vec<T>) -> (r: Option<&T>) ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 }
{ if v.len() > 0 { Some(&v[v.len() - 1]) } else { None } }
pub fn slice_last<T>(v: &[T]) -> (r: Option<&T>) ensures match r { Some(x) => v@.len() > 0 && *x == v@.last(), None => v@.len() == 0 }
{ if v.len() > 0 { Some(&v[v.len() - 1]) } else { None } }
pub fn slice_first<T>(v: &[T]) -> (r: Option<&T>) ensures match r { Some(x) => v@.len() > 0 && *x == v@[0], None => v@.len() == 0 }
{ if v.len() > 0 { Some(&v[0]) } else { None } }
pub fn slice_get<T>(v: &[T], i: usize) -> (r: Option<&T>) ensures match r { Some(x) => i < v@.len() && *x == v@[i as int], None => i >= v@.len() }
{ if i < v.len() { Some(&v[i]) } else { None } }
#[verifier::external_body]
pub fn slice_to_vec<T>(v: &[T]) -> (r: Vec<T>) ensures r@ == v@ { unimplemented!() }
/// `c` is a total preorder on the elements of `s` (what sorting needs of a comparison)
pub open spec fn preorder<T>(c: spec_fn(T, T) -> int, s: Seq<T>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> #[trigger] c(s[i], s[j]) <= 0 || c(s[j], s[i]) <= 0
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (#[trigger] c(s[i], s[j]) > 0 ==> c(s[j], s[i]) < 0)
    &&& forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() ==> (#[trigger] c(s[i], s[j]) == 0 ==> c(s[j], s[i]) == 0)
    &&& forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] c(s[i], s[j]) <= 0 && #[trigger] c(s[j], s[k]) <= 0 ==> c(s[i], s[k]) <= 0
}
pub open spec fn sorted_by_cmp<T>(s: Seq<T>, c: spec_fn(T, T) -> int) -> bool {
    forall|i: int, j: int| 0 <= i < j < s.len() ==> #[trigger] c(s[i], s[j]) <= 0
}
/// p is a permutation of 0..n
pub open spec fn is_perm(p: Seq<int>, n: int) -> bool {
    &&& p.len() == n
    &&& forall|i: int| 0 <= i < n ==> 0 <= #[trigger] p[i] < n
    &&& forall|i: int, j: int| 0 <= i < j < n ==> #[trigger] p[i] != #[trigger] p[j]
}
/// the arrangement found by sorting: a permutation of the positions
pub uninterp spec fn sort_perm<T>(s: Seq<T>, c: spec_fn(T, T) -> int) -> Seq<int>;
pub open spec fn arranged<T>(s: Seq<T>, p: Seq<int>) -> Seq<T> { Seq::new(s.len(), |i: int| s[p[i]]) }
pub open spec fn sorted_from<T>(o: Seq<T>, n: Seq<T>, c: spec_fn(T, T) -> int) -> bool {
    &&& n.len() == o.len()
    &&& n.to_multiset() == o.to_multiset()
    &&& is_perm(sort_perm(o, c), o.len() as int)
    &&& n == arranged(o, sort_perm(o, c))
    &&& sorted_by_cmp(n, c)
}
#[verifier::external_body]
pub fn vec_sort_by<T>(v: &mut Vec<T>, c: Ghost<spec_fn(T, T) -> int>)
    requires preorder(c@, old(v)@),
    ensures sorted_from(old(v)@, final(v)@, c@),
{ unimplemented!() }
pub open spec fn ord_of<T: POrd>() -> spec_fn(T, T) -> int { |a: T, b: T| a.dcmp(&b) }
#[verifier::external_body]
pub fn vec_sort<T: POrd>(v: &mut Vec<T>)
    requires preorder(ord_of::<T>(), old(v)@),
    ensures sorted_from(old(v)@, final(v)@, ord_of::<T>()),
{ unimplemented!() }
/// sort_by_cached_key: the keys were taken once each, in order
#[verifier::external_body]
pub fn vec_sort_by_keys<T, K: POrd>(v: &mut Vec<T>, k: Vec<K>)
    requires k@.len() == old(v)@.len(), preorder(ord_of::<K>(), k@),
    ensures ({
        let p = sort_perm(k@, ord_of::<K>());
        &&& is_perm(p, k@.len() as int)
        &&& final(v)@ == arranged(old(v)@, p)
        &&& final(v)@.to_multiset() == old(v)@.to_multiset()
        &&& sorted_by_cmp(arranged(k@, p), ord_of::<K>())
    }),
{ unimplemented!() }
#[verifier::external_body]
pub fn slice_binary_search_by<T>(s: &[T], c: Ghost<spec_fn(T) -> int>) -> (r: Result<usize, usize>)
    requires forall|i: int, j: int| #![trigger s@[i], s@[j]] 0 <= i < j < s@.len() ==> c@(s@[i]) <= c@(s@[j]),
    ensures match r {
        Ok(i) => i < s@.len() && c@(s@[i as int]) == 0,
        Err(i) => i <= s@.len() && (forall|j: int| #![trigger s@[j]] 0 <= j < i ==> c@(s@[j]) < 0) && (forall|j: int| #![trigger s@[j]] i <= j < s@.len() ==> c@(s@[j]) > 0),
    } { unimplemented!() }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct VDeque<T> { v: Vec<T> }
impl<T> VDeque<T> {
    pub uninterp spec fn view(&self) -> Seq<T>;
    #[verifier::external_body]
    pub fn new() -> (r: Self) ensures r@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn push_back(&mut self, x: T) ensures final(self)@ == old(self)@.push(x) { unimplemented!() }
    #[verifier::external_body]
    pub fn push_front(&mut self, x: T) ensures final(self)@ == seq![x] + old(self)@ { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_front(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@[0] && final(self)@ == old(self)@.drop_first(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn pop_back(&mut self) -> (r: Option<T>)
        ensures match r { Some(x) => old(self)@.len() > 0 && x == old(self)@.last() && final(self)@ == old(self)@.drop_last(), None => old(self)@.len() == 0 && final(self)@ == old(self)@ } { unimplemented!() }
    #[verifier::external_body]
    pub fn front(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@[0], None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn back(&self) -> (r: Option<&T>) ensures match r { Some(x) => self@.len() > 0 && *x == self@.last(), None => self@.len() == 0 } { unimplemented!() }
    #[verifier::external_body]
    pub fn len(&self) -> (r: usize) ensures r == self@.len() { unimplemented!() }
    #[verifier::external_body]
    pub fn is_empty(&self) -> (r: bool) ensures r == (self@.len() == 0) { unimplemented!() }
    #[verifier::external_body]
    pub fn clear(&mut self) ensures final(self)@ == Seq::<T>::empty() { unimplemented!() }
    #[verifier::external_body]
    pub fn as_slice_(&self) -> (r: &[T]) ensures r@ == self@ { unimplemented!() }
}

// ---------------------------------------------------------------- shared label lists
#[verifier::external_body]
pub struct StdAtomicImmut { _p: u8 }
pub open spec fn lview(l: crate::label::Label) -> LV { (l.name@, l.value@) }
pub open spec fn lviews(s: Seq<crate::label::Label>) -> Seq<LV> { s.map_values(|l: crate::label::Label| lview(l)) }
pub open spec fn lstep(o: World, n: World, id: int, b: Seq<LV>) -> bool {
    let a = n.lev[id].last().0;
    &&& n == World { lab: o.lab.insert(id, b), lev: o.lev.insert(id, o.lev[id].push((a, b))), ..o }
    &&& (o.quiet ==> a == o.lab[id])
    &&& n.lev[id].last() == (a, b)
}
impl StdAtomicImmut {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: Vec<crate::label::Label>, Tracked(w): Tracked<&mut World>) -> (r: StdAtomicImmut)
        ensures !old(w).lab.dom().contains(r.id()),
            *final(w) == (World { lab: old(w).lab.insert(r.id(), lviews(v@)), lev: old(w).lev.insert(r.id(), Seq::empty()), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn load(&self, Tracked(w): Tracked<&mut World>) -> (r: Arc<Vec<crate::label::Label>>)
        ensures same(*old(w), *final(w)), old(w).quiet ==> lviews(r@) == old(w).lab[self.id()] { unimplemented!() }
    #[verifier::external_body]
    pub fn store(&self, v: Vec<crate::label::Label>, Tracked(w): Tracked<&mut World>)
        ensures lstep(*old(w), *final(w), self.id(), lviews(v@)) { unimplemented!() }
    /// `update` runs the closure on the contents until they are unchanged at the exchange:
    /// its last run sees the very contents it replaces
    #[verifier::external_body]
    pub fn update_begin(&self, Tracked(w): Tracked<&mut World>) -> (r: Snapshot)
        ensures same(*old(w), *final(w)), old(w).quiet ==> lviews(r@) == old(w).lab[self.id()] { unimplemented!() }
    #[verifier::external_body]
    pub fn update_end(&self, s: Snapshot, v: Vec<crate::label::Label>, Tracked(w): Tracked<&mut World>)
        ensures lstep(*old(w), *final(w), self.id(), lviews(v@)), final(w).lev[self.id()].last().0 == lviews(s@) { unimplemented!() }
}
#[verifier::external_body]
pub struct Snapshot { _p: u8 }
impl Snapshot {
    pub uninterp spec fn view(&self) -> Seq<crate::label::Label>;
    #[verifier::external_body]
    pub fn as_vec(&self) -> (r: &Vec<crate::label::Label>) ensures r@ == self@ { unimplemented!() }
}
/// the transmute in Labels::iter lengthens the borrow (see C19); the iterator itself is unchanged
#[verifier::external_body]
pub fn transmute_iter<'a, 'b, T>(i: SliceIter<'a, T>) -> (r: SliceIter<'b, T>) ensures r.s@ == i.s@, r.pos == i.pos { unimplemented!() }

// ---------------------------------------------------------------- locks
/// Mutex<VecDeque<(SystemTime, f64)>>.  Never poisoned: the code run under the lock is all in this
/// text and is checked not to panic
#[verifier::external_body]
pub struct StdMutex { _p: u8 }
pub struct StdGuard { pub v: VDeque<(SystemTime, F64)>, pub m: Ghost<int>, pub at: Ghost<Seq<(int, F64)>> }
#[verifier::external_body]
pub struct Poison { _p: u8 }
pub open spec fn sviews(s: Seq<(SystemTime, F64)>) -> Seq<(int, F64)> { s.map_values(|x: (SystemTime, F64)| (x.0.t(), x.1)) }
pub open spec fn sstep(o: World, n: World, id: int, a: Seq<(int, F64)>, b: Seq<(int, F64)>) -> bool {
    &&& n == World { smp: o.smp.insert(id, b), sev: o.sev.insert(id, o.sev[id].push((a, b))), ..o }
    &&& (o.quiet ==> a == o.smp[id])
}
impl StdMutex {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn new(v: VDeque<(SystemTime, F64)>, Tracked(w): Tracked<&mut World>) -> (r: StdMutex)
        ensures !old(w).smp.dom().contains(r.id()),
            *final(w) == (World { smp: old(w).smp.insert(r.id(), sviews(v@)), sev: old(w).sev.insert(r.id(), Seq::empty()), ..*old(w) }) { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<StdGuard, Poison>)
        ensures same(*old(w), *final(w)), r is Ok,
            match r { Ok(g) => g.m@ == self.id() && sviews(g.v@) == g.at@ && (old(w).quiet ==> g.at@ == old(w).smp[self.id()]), Err(_) => true } { unimplemented!() }
}
impl StdGuard {
    #[verifier::external_body]
    pub fn unlock(self, Tracked(w): Tracked<&mut World>)
        ensures sstep(*old(w), *final(w), self.m@, self.at@, sviews(self.v@)) { unimplemented!() }
}

// ---------------------------------------------------------------- handles
/// `alive(w, x)`: some strong handle to x exists (what Weak::upgrade reports)
pub uninterp spec fn alive<T>(w: World, x: T) -> bool;
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct StdWeak<T> { _p: core::marker::PhantomData<T> }
impl<T> StdWeak<T> {
    pub uninterp spec fn target(&self) -> T;
    #[verifier::external_body]
    pub fn downgrade(a: &Arc<T>) -> (r: StdWeak<T>) ensures r.target() == **a { unimplemented!() }
    #[verifier::external_body]
    pub fn upgrade(&self, Tracked(w): Tracked<&mut World>) -> (r: Option<Arc<T>>)
        ensures same(*old(w), *final(w)), r is Some <==> alive(*old(w), self.target()), match r { Some(x) => *x == self.target(), None => true } { unimplemented!() }
}

// ---------------------------------------------------------------- collectors
pub type Answer = Option<Seq<crate::metric::Metric>>;
/// collector `id` was asked once and answered `a`; what else it did is up to its author
/// (gathering from within a collector is left out)
pub open spec fn polled(o: World, n: World, id: int, a: Answer) -> bool {
    n.polls == o.polls.push((id, a)) && n.quiet == o.quiet
}
/// what a collector's answer adds to the metrics
pub open spec fn answered(a: Answer) -> Seq<crate::metric::Metric> { match a { Some(s) => s, None => Seq::empty() } }
/// the contract of a stored collector closure
pub open spec fn served(o: World, n: World, id: int, om: Seq<crate::metric::Metric>, nm: Seq<crate::metric::Metric>, r: bool) -> bool {
    let a = n.polls.last().1;
    polled(o, n, id, a) && nm =~= om + answered(a) && r == (a is Some)
}
/// what a collector returns, consumed as an iterator
pub struct UserMetrics { pub v: Vec<crate::metric::Metric> }
impl UserMetrics { pub fn into_vec(self) -> (r: Vec<crate::metric::Metric>) ensures r@ == self.v@ { self.v } }
/// an arbitrary C: Collect of the user
#[verifier::external_body]
pub struct UserCollector { _p: u8 }
impl UserCollector {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn collect_(&mut self, Tracked(w): Tracked<&mut World>) -> (r: Option<UserMetrics>)
        ensures final(self).id() == old(self).id(), polled(*old(w), *final(w), old(self).id(), match r { Some(v) => Some(v.v@), None => None }) { unimplemented!() }
}
/// the identity of the collector of one of the crate's own metrics: that of the metric's data
pub uninterp spec fn handle_id<T>(x: T) -> int;
pub open spec fn arc_id<T>(a: &Arc<T>) -> int { handle_id(**a) }
pub trait OwnCollector { spec fn cid(&self) -> int; }
/// one of the crate's own collectors used as a C: Collect
#[verifier::external_body]
pub fn as_user<T: OwnCollector>(c: T) -> (r: UserCollector) ensures r.id() == c.cid() { unimplemented!() }
/// Box<dyn FnMut(&mut Vec<Metric>) -> bool + Send>; the only way to make one is `of`,
/// whose closure is verified against `served`
#[verifier::external_body]
pub struct DynCollector { _p: u8 }
impl DynCollector {
    pub uninterp spec fn id(&self) -> int;
    #[verifier::external_body]
    pub fn of(c: UserCollector) -> (r: DynCollector) ensures r.id() == c.id() { unimplemented!() }
    #[verifier::external_body]
    pub fn call(&mut self, m: &mut Vec<crate::metric::Metric>, Tracked(w): Tracked<&mut World>) -> (r: bool)
        ensures final(self).id() == old(self).id(), served(*old(w), *final(w), old(self).id(), old(m)@, final(m)@, r) { unimplemented!() }
}
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct StdSender<T> { _p: core::marker::PhantomData<T> }
#[verifier::external_body]
#[verifier::reject_recursive_types(T)]
pub struct StdReceiver<T> { _p: core::marker::PhantomData<T> }
/// the mutex of the default gatherer.  ASSUMED: what it is initialised with stays in it (nobody puts another gatherer there)
#[verifier::external_body]
pub struct StdGMutex { _p: u8 }
/// where the default gatherer receives
pub uninterp spec fn default_ch() -> int;
/// somebody panicked while holding the default gatherer
pub uninterp spec fn default_poisoned() -> bool;
impl StdGMutex {
    pub uninterp spec fn ch(&self) -> int;
    #[verifier::external_body]
    pub fn new(g: crate::registry::Gatherer) -> (r: StdGMutex)
        requires g.tx.ch() == g.rx.ch(), g.collectors@.len() == 0,
        ensures r.ch() == g.rx.ch() { unimplemented!() }
    #[verifier::external_body]
    pub fn lock(&self) -> (r: Result<&'static crate::registry::Gatherer, Poison>)
        ensures r matches Ok(g) ==> g.tx.ch() == self.ch() && g.rx.ch() == self.ch(), r is Err ==> default_poisoned() { unimplemented!() }
}
#[verifier::external_body]
pub fn the_gatherer() -> (r: &'static StdGMutex) ensures r.ch() == default_ch() { unimplemented!() }
#[verifier::external_body]
pub struct SendErr { _p: u8 }
#[verifier::external_body]
pub struct RecvErr { _p: u8 }
/// `sent` records every (channel, collector) sent by this thread; `queue` what waits in each channel
pub open spec fn sent1(o: World, n: World, ch: int, c: int) -> bool {
    n == World { sent: o.sent.push((ch, c)), queue: o.queue.insert(ch, o.queue[ch].push(c)), ..o }
}
impl StdSender<crate::registry::Collector> {
    pub uninterp spec fn ch(&self) -> int;
    #[verifier::external_body]
    pub fn send(&self, c: crate::registry::Collector, Tracked(w): Tracked<&mut World>) -> (r: Result<(), SendErr>)
        ensures sent1(*old(w), *final(w), self.ch(), c.0.id()) { unimplemented!() }
}
impl StdReceiver<crate::registry::Collector> {
    pub uninterp spec fn ch(&self) -> int;
    #[verifier::external_body]
    pub fn try_recv(&self, Tracked(w): Tracked<&mut World>) -> (r: Result<crate::registry::Collector, RecvErr>)
        ensures match r {
            Ok(c) => *final(w) == (World { queue: final(w).queue, ..*old(w) }) && (old(w).quiet ==> old(w).queue[self.ch()].len() > 0 && c.0.id() == old(w).queue[self.ch()][0]
                && final(w).queue == old(w).queue.insert(self.ch(), old(w).queue[self.ch()].drop_first())),
            Err(_) => same(*old(w), *final(w)) && (old(w).quiet ==> old(w).queue[self.ch()].len() == 0),
        } { unimplemented!() }
}
#[verifier::external_body]
pub fn std_channel(Tracked(w): Tracked<&mut World>) -> (r: (StdSender<crate::registry::Collector>, StdReceiver<crate::registry::Collector>))
    ensures r.0.ch() == r.1.ch(), !old(w).queue.dom().contains(r.0.ch()),
        *final(w) == (World { queue: old(w).queue.insert(r.0.ch(), Seq::empty()), ..*old(w) }) { unimplemented!() }

// ---------------------------------------------------------------- orders written by hand in the crate
/// types whose Ord is an impl of the crate: `dcmp` is what its contract says it is, for values satisfying `ok`
pub trait UserOrd: POrd { spec fn ok(&self) -> bool; }
#[verifier::external_body]
pub fn vec_sort_user<T: UserOrd>(v: &mut Vec<T>)
    requires preorder(ord_of::<T>(), old(v)@), forall|i: int| 0 <= i < old(v)@.len() ==> (#[trigger] old(v)@[i]).ok(),
    ensures sorted_from(old(v)@, final(v)@, ord_of::<T>()),
{ unimplemented!() }
#[verifier::external_body]
pub fn label_iter_eq(a: crate::label::Iter, b: crate::label::Iter) -> (r: bool)
    ensures r == (lviews(a.inner.rest()) == lviews(b.inner.rest())) { unimplemented!() }
#[verifier::external_body]
pub fn label_iter_cmp(a: crate::label::Iter, b: crate::label::Iter) -> (r: Ordering)
    ensures ord_int(r) == seq_dcmp(a.inner.rest(), b.inner.rest()) { unimplemented!() }

// ---------------------------------------------------------------- the operating system
/// what was asked of the operating system, and its answer (None: it could not be read)
pub enum OsEv { Limits(Option<Limits>), Stat(Option<Stat>), Dir(Seq<char>, Option<usize>), Text(Seq<char>, Option<Seq<char>>) }
#[verifier::external_body]
pub struct IoErr { _p: u8 }
/// the fields of procinfo's Limits and Stat which this model has
pub struct Limit { pub soft: Option<usize>, pub hard: Option<usize> }
pub struct Limits {
    pub max_data_size: Limit, pub max_stack_size: Limit, pub max_core_file_size: Limit, pub max_resident_set: Limit, pub max_processes: Limit,
    pub max_open_files: Limit, pub max_locked_memory: Limit, pub max_address_space: Limit, pub max_file_locks: Limit, pub max_pending_signals: Limit,
}
pub struct Stat {
    pub minflt: usize, pub cminflt: usize, pub majflt: usize, pub cmajflt: usize,
    pub utime: i64, pub stime: i64, pub cutime: i64, pub cstime: i64, pub guest_time: i64, pub cguest_time: i64,
    pub priority: i32, pub nice: i32, pub num_threads: i32, pub start_time: u64,
    pub vsize: usize, pub rss: usize, pub rsslim: usize, pub delayacct_blkio_ticks: u64,
}
pub uninterp spec fn sysconf_answer(name: int) -> i64;
/// ASSUMED: the operating system has positive clock ticks per second and page size
pub axiom fn ax_sysconf()
    ensures sysconf_answer(2) > 0, sysconf_answer(30) > 0;
#[verifier::external_body]
pub fn os_sysconf(name: i32) -> (r: i64) ensures r == sysconf_answer(name as int) { unimplemented!() }
pub open spec fn ok_of<T, E>(r: core::result::Result<T, E>) -> Option<T> { match r { Ok(l) => Some(l), Err(_) => None } }
pub open spec fn os_asked(o: World, n: World, e: OsEv) -> bool { n == World { os: o.os.push(e), ..o } }
#[verifier::external_body]
pub fn os_limits(Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<Limits, IoErr>)
    ensures os_asked(*old(w), *final(w), OsEv::Limits(ok_of(r))) { unimplemented!() }
/// ASSUMED: times are not negative, and neither the CPU time nor the resident bytes overflow 64 bits
#[verifier::external_body]
pub fn os_stat(Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<Stat, IoErr>)
    ensures
        os_asked(*old(w), *final(w), OsEv::Stat(ok_of(r))),
        r matches Ok(s) ==> s.utime >= 0 && s.stime >= 0 && s.cutime >= 0 && s.cstime >= 0 && s.guest_time >= 0 && s.cguest_time >= 0
            && s.utime + s.stime + s.cutime + s.cstime + s.guest_time + s.cguest_time <= i64::MAX && s.rss * sysconf_answer(30) <= usize::MAX { unimplemented!() }
#[verifier::external_body]
pub struct DirIter { _p: u8 }
impl DirIter {
    pub uninterp spec fn n(&self) -> usize;
    #[verifier::external_body]
    pub fn count_(self) -> (r: usize) ensures r == self.n() { unimplemented!() }
}
#[verifier::external_body]
pub fn os_read_text(p: &str, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<String, IoErr>)
    ensures os_asked(*old(w), *final(w), OsEv::Text(p@, match r { Ok(t) => Some(t@), Err(_) => None })) { unimplemented!() }
#[verifier::external_body]
pub fn os_read_dir(p: &str, Tracked(w): Tracked<&mut World>) -> (r: core::result::Result<DirIter, IoErr>)
    ensures os_asked(*old(w), *final(w), OsEv::Dir(p@, match r { Ok(d) => Some(d.n()), Err(_) => None })) { unimplemented!() }
