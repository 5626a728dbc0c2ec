//@ spec
// ------------------------------------------------------------ atomic cells
pub open spec fn bits(x: int) -> F64 { f_of(x) }
/// the number added to a word of 64 bits
pub open spec fn plus64(v: int) -> spec_fn(int) -> int { |x: int| (x + v) % 0x1_0000_0000_0000_0000 }
/// one floating-point addition applied to a word of 64 bits
pub open spec fn plusf(v: F64) -> spec_fn(int) -> int { |x: int| fadd(f_of(x), v).bits as int }
pub open spec fn setw(v: int) -> spec_fn(int) -> int { |x: int| v }

//@ fn atomic::AtomicU64::new(v) props=C06,C07,C08,C10,C13,C18
    ensures born(*old(w), *final(w), r.0.id(), v as int),
//@ fn atomic::AtomicU64::get() props=C06,C07,C10,C11,C13
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == old(w).cur[self.0.id()],
//@ fn atomic::AtomicU64::inc() props=C06,C07,C10,C13
    ensures step(*old(w), *final(w), self.0.id(), plus64(1)),
//@ fn atomic::AtomicU64::add(v) props=C06,C07,C10,C13
    ensures step(*old(w), *final(w), self.0.id(), plus64(v as int)),
//@ fn atomic::AtomicU64::set(v) props=C07
    ensures step(*old(w), *final(w), self.0.id(), setw(v as int)),
//@ fn atomic::AtomicI64::new(v) props=C15,C17,C18
    ensures born(*old(w), *final(w), r.0.id(), v as int),
//@ fn atomic::AtomicI64::get() props=C07,C15,C17
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == old(w).cur[self.0.id()],
//@ fn atomic::AtomicI64::set(v) props=C07,C17
    ensures step(*old(w), *final(w), self.0.id(), setw(v as int)),
//@ fn atomic::AtomicF64::new(v) props=C06,C07,C08,C10,C13,C18
    ensures born(*old(w), *final(w), r.0.id(), v.bits as int),
//@ fn atomic::AtomicF64::get() props=C06,C07,C08,C10,C13
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == f_of(old(w).cur[self.0.id()]),
//@ fn atomic::AtomicF64::inc() props=C07
    ensures step(*old(w), *final(w), self.0.id(), plusf(f1())),
//@ fn atomic::AtomicF64::add(v) props=C06,C07,C08,C10,C13
    ensures step(*old(w), *final(w), self.0.id(), plusf(v)),
//@ loop 0 loop
    *w == *old(w),
//@ fn atomic::AtomicF64::set(v) props=C07,C08
    ensures step(*old(w), *final(w), self.0.id(), setw(v.bits as int)),
