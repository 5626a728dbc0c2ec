//@ spec
/// what a timestamp cell's word means
pub open spec fn ts_of(x: int) -> Option<int> { if x == i64::MIN { None } else { Some(x) } }
pub open spec fn ts_word(t: Option<i64>) -> int { match t { Some(v) => v as int, None => i64::MIN as int } }
pub open spec fn oi(t: Option<i64>) -> Option<int> { match t { Some(v) => Some(v as int), None => None } }
/// seconds + nanoseconds / 1e9
pub open spec fn seconds_of(d: Duration) -> F64 { fadd(of_int(d.secs as int), fdiv(of_int(d.nanos as int), f1e9())) }
/// x is the time t in seconds since the epoch, negative before it
pub open spec fn now_is(t: int, x: F64) -> bool {
    exists|d: Duration| d.wf() && d.total() == (if t >= 0 { t } else { -t }) && x == (if t >= 0 { #[trigger] seconds_of(d) } else { fneg(seconds_of(d)) })
}
/// kani: seconds
pub axiom fn ax_seconds()
    ensures forall|d: Duration| d.wf() ==> f0().le(#[trigger] seconds_of(d));

//@ fn timestamp::Timestamp::new() props=C17,C18
    ensures born(*old(w), *final(w), r.0.0.id(), i64::MIN as int),
//@ fn timestamp::Timestamp::from_value(v) props=C15
    ensures born(*old(w), *final(w), r.0.0.id(), ts_word(v)),
//@ fn timestamp::Timestamp::get() props=C05,C15,C17
    ensures same(*old(w), *final(w)), r != Some(i64::MIN), old(w).quiet ==> oi(r) == ts_of(old(w).cur[self.0.0.id()]),
//@ fn timestamp::Timestamp::clear() props=C17
    ensures step(*old(w), *final(w), self.0.0.id(), setw(i64::MIN as int)),
//@ fn timestamp::Timestamp::set(timestamp) props=C17
    ensures step(*old(w), *final(w), self.0.0.id(), setw(timestamp as int)), timestamp != i64::MIN,
//@ panics timestamp == i64::MIN
//@ fn timestamp::Timestamp::set_time(time) props=C17
    requires ms_fits(time.t()),
    ensures step(*old(w), *final(w), self.0.0.id(), setw(to_ms(time.t()))),
//@ fn timestamp::Timestamp::set_now() props=C17
    ensures ({ let t = final(w).times.last(); step(World { times: old(w).times.push(t), ..*old(w) }, *final(w), self.0.0.id(), setw(to_ms(t))) }),
//@ fn timestamp::TimestampMut::new(inner) props=C17
    ensures r.0 == inner,
//@ fn timestamp::TimestampMut::set(timestamp) props=C17
    ensures final(self).0 == old(self).0, step(*old(w), *final(w), old(self).0.0.0.id(), setw(timestamp as int)),
//@ panics timestamp == i64::MIN
//@ fn timestamp::TimestampMut::set_time(time) props=C17
    requires ms_fits(time.t()),
    ensures final(self).0 == old(self).0, step(*old(w), *final(w), old(self).0.0.0.id(), setw(to_ms(time.t()))),
//@ fn timestamp::TimestampMut::set_now() props=C17
    ensures final(self).0 == old(self).0, ({ let t = final(w).times.last(); step(World { times: old(w).times.push(t), ..*old(w) }, *final(w), old(self).0.0.0.id(), setw(to_ms(t))) }),
//@ fn timestamp::TimestampMut::clear() props=C17
    ensures final(self).0 == old(self).0, step(*old(w), *final(w), old(self).0.0.0.id(), setw(i64::MIN as int)),
//@ fn timestamp::TimestampMut::deref() props=C17
    ensures *r == *self.0,
//@ fn timestamp::now_unixtime_seconds() props=C08,C17
    ensures ({
        let t = final(w).times.last();
        &&& *final(w) == (World { times: old(w).times.push(t), ..*old(w) })
        &&& now_is(t, r)
    }),
//@ fn timestamp::duration_to_seconds(d) props=C08,C10,C17
    ensures r == seconds_of(d),
