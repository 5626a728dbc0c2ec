//! Interposes clock_gettime (the definition in the executable wins over libc's) so that the
//! histories can drive SystemTime::now and Instant::now of the code under test.
use std::sync::atomic::{AtomicBool, AtomicI64, Ordering::SeqCst};
#[repr(C)]
pub struct TimeSpec {
    sec: i64,
    nsec: i64,
}
static ON: AtomicBool = AtomicBool::new(false);
static SEC: AtomicI64 = AtomicI64::new(0);
static NSEC: AtomicI64 = AtomicI64::new(0);
static MONO_ON: AtomicBool = AtomicBool::new(false);
static MSEC: AtomicI64 = AtomicI64::new(0);
static MNSEC: AtomicI64 = AtomicI64::new(0);

extern "C" {
    fn syscall(n: i64, ...) -> i64;
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: i32, ts: *mut TimeSpec) -> i32 {
    if clk == 0 && ON.load(SeqCst) {
        (*ts).sec = SEC.load(SeqCst);
        (*ts).nsec = NSEC.load(SeqCst);
        return 0;
    }
    if clk == 1 && MONO_ON.load(SeqCst) {
        (*ts).sec = MSEC.load(SeqCst);
        (*ts).nsec = MNSEC.load(SeqCst);
        return 0;
    }
    #[cfg(target_arch = "x86_64")]
    const NR: i64 = 228;
    #[cfg(target_arch = "aarch64")]
    const NR: i64 = 113;
    syscall(NR, clk as i64, ts) as i32
}
/// Sets the wall clock to `ns` nanoseconds after (before, when negative) the epoch.
pub fn set_wall(ns: i128) {
    SEC.store(ns.div_euclid(1_000_000_000) as i64, SeqCst);
    NSEC.store(ns.rem_euclid(1_000_000_000) as i64, SeqCst);
    ON.store(true, SeqCst);
}
pub fn real_wall() {
    ON.store(false, SeqCst);
}
pub fn set_mono(ns: u128) {
    MSEC.store((ns / 1_000_000_000) as i64, SeqCst);
    MNSEC.store((ns % 1_000_000_000) as i64, SeqCst);
    MONO_ON.store(true, SeqCst);
}
pub fn real_mono() {
    MONO_ON.store(false, SeqCst);
}
/// The interposition works: what the clock was set to is what std reads.
pub fn self_test() -> bool {
    set_wall(1_234_567_890_123_456_789);
    let ok = std::time::SystemTime::now()
        .duration_since(std::time::UNIX_EPOCH)
        .map(|d| d.as_nanos() == 1_234_567_890_123_456_789)
        .unwrap_or(false);
    real_wall();
    ok
}
