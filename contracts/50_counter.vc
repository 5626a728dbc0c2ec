//@ spec
// ------------------------------------------------------------ counter
pub open spec fn cnt_f(v: crate::metrics::counter::Value) -> int { v.f64.0.id() }
pub open spec fn cnt_u(v: crate::metrics::counter::Value) -> int { v.u64.0.id() }
/// the value of a counter in a world
pub open spec fn cnt_val(w: World, v: crate::metrics::counter::Value) -> F64 { fadd(f_of(w.cur[cnt_f(v)]), of_int(w.cur[cnt_u(v)])) }
/// adding the number c: one step on one of the two cells
pub open spec fn cnt_added(o: World, n: World, v: crate::metrics::counter::Value, c: F64) -> bool {
    if small_integral(c) { step(o, n, cnt_u(v), plus64(fto_u64(c) as int)) } else { step(o, n, cnt_f(v), plusf(c)) }
}
/// kani: up -- adding a non-negative number never decreases
pub axiom fn ax_fadd_up(a: F64, b: F64)
    requires f0().le(a), f0().le(b),
    ensures a.le(fadd(a, b)), f0().le(fadd(a, b));
/// kani: mono, commutes -- rounding never reverses an order
pub axiom fn ax_fadd_mono(a: F64, b: F64, c: F64)
    requires f0().le(a), f0().le(b), f0().le(c), a.le(b),
    ensures fadd(a, c).le(fadd(b, c)), fadd(c, a).le(fadd(c, b));
/// kani: of_int
pub axiom fn ax_of_int_mono(a: int, b: int)
    requires 0 <= a <= b <= u64::MAX,
    ensures f0().le(of_int(a)), of_int(a).le(of_int(b));
/// what holds of a counter's cells from its creation on
pub open spec fn cnt_ok(w: World, v: crate::metrics::counter::Value) -> bool {
    let x = w.cur[cnt_f(v)];
    cnt_f(v) != cnt_u(v) && 0 <= x <= u64::MAX && f0().le(f_of(x)) && 0 <= w.cur[cnt_u(v)] <= u64::MAX
}
/// C06: adding an integer never lowers the value and raises the integral part by exactly it, while that stays below 2^64
pub proof fn counter_int_up(o: World, n: World, v: crate::metrics::counter::Value, k: int)
    requires cnt_ok(o, v), o.quiet, 0 <= k, o.cur[cnt_u(v)] + k <= u64::MAX, step(o, n, cnt_u(v), plus64(k)),
    ensures cnt_ok(n, v), cnt_val(o, v).le(cnt_val(n, v)), n.cur[cnt_u(v)] == o.cur[cnt_u(v)] + k, n.cur[cnt_f(v)] == o.cur[cnt_f(v)],
{
    let a = o.cur[cnt_u(v)];
    assert(n.cur[cnt_u(v)] == (a + k) % 0x1_0000_0000_0000_0000);
    assert(n.cur[cnt_u(v)] == a + k);
    ax_of_int_mono(a, a + k);
    ax_of_int_mono(0, a);
    ax_fadd_mono(of_int(a), of_int(a + k), f_of(o.cur[cnt_f(v)]));
}
/// C06: adding a non-negative number never lowers the value
pub proof fn counter_num_up(o: World, n: World, v: crate::metrics::counter::Value, c: F64)
    requires cnt_ok(o, v), o.quiet, f0().le(c), small_integral(c) ==> o.cur[cnt_u(v)] + fto_u64(c) <= u64::MAX, cnt_added(o, n, v, c),
    ensures cnt_ok(n, v), cnt_val(o, v).le(cnt_val(n, v)),
        small_integral(c) ==> n.cur[cnt_u(v)] == o.cur[cnt_u(v)] + fto_u64(c),
        !small_integral(c) ==> f_of(n.cur[cnt_f(v)]) == fadd(f_of(o.cur[cnt_f(v)]), c) && n.cur[cnt_u(v)] == o.cur[cnt_u(v)],
{
    if small_integral(c) {
        counter_int_up(o, n, v, fto_u64(c) as int);
    } else {
        let x = f_of(o.cur[cnt_f(v)]);
        ax_fadd_up(x, c);
        ax_of_int_mono(0, o.cur[cnt_u(v)]);
        ax_fadd_mono(x, fadd(x, c), of_int(o.cur[cnt_u(v)]));
        assert(f_of(fadd(x, c).bits as int) == fadd(x, c));
    }
}
/// a new counter is in order and reads zero plus zero
pub proof fn counter_born(w: World, v: crate::metrics::counter::Value)
    requires cnt_f(v) != cnt_u(v), w.cur[cnt_f(v)] == 0, w.cur[cnt_u(v)] == 0,
    ensures cnt_ok(w, v), cnt_val(w, v) == fadd(f0(), of_int(0)),
{}
impl OwnCollector for crate::metrics::counter::CounterCollector { open spec fn cid(&self) -> int { handle_id(self.0.target()) } }

//@ fn metrics::counter::Value::new() props=C06,C18
    ensures cnt_f(r) != cnt_u(r), !old(w).cur.dom().contains(cnt_f(r)), !old(w).cur.dom().contains(cnt_u(r)),
        *final(w) == (World {
            cur: old(w).cur.insert(cnt_f(r), f0().bits as int).insert(cnt_u(r), 0),
            ev: old(w).ev.insert(cnt_f(r), Seq::empty()).insert(cnt_u(r), Seq::empty()), ..*old(w) }),
//@ fn metrics::counter::Value::get() props=C06,C07
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == cnt_val(*old(w), *self),
//@ fn metrics::counter::Value::increment() props=C06,C07
    ensures step(*old(w), *final(w), cnt_u(*self), plus64(1)),
//@ fn metrics::counter::Value::add(count) props=C06,C07
    requires f0().le(count),
    ensures cnt_added(*old(w), *final(w), *self, count),
//@ entry
    proof { if count.lt(f2p53()) { ax_integral(count); } }
//@ fn metrics::counter::Value::add_u64(count) props=C06,C07
    ensures step(*old(w), *final(w), cnt_u(*self), plus64(count as int)),
//@ fn metrics::counter::Counter::value() props=C06,C07
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == cnt_val(*old(w), self.0.value),
//@ fn metrics::counter::Counter::increment() props=C06,C07
    ensures step(*old(w), *final(w), cnt_u(self.0.value), plus64(1)),
//@ fn metrics::counter::Counter::add(count) props=C06,C07
    ensures
        r is Ok <==> f0().le(count),
        r is Ok ==> cnt_added(*old(w), *final(w), self.0.value, count),
        r is Err ==> r->Err_0 is InvalidInput && same(*old(w), *final(w)),
//@ fn metrics::counter::Counter::add_u64(count) props=C06,C07
    ensures step(*old(w), *final(w), cnt_u(self.0.value), plus64(count as int)),
//@ fn metrics::counter::Counter::time(f) props=C06,C07
    ensures
        r == f.result(*old(w)),
        exists|d: Duration| d.wf() && #[trigger] cnt_added(f.after(*old(w)), *final(w), self.0.value, seconds_of(d)),
//@ entry
    proof { ax_seconds(); }
//@ fn metrics::counter::Counter::metric_name() props=C14,C18
    ensures *r == self.0.name,
//@ fn metrics::counter::Counter::help() props=C05,C18
    ensures ov(r) == sv(self.0.help),
//@ fn metrics::counter::Counter::labels() props=C14,C18
    ensures *r == self.0.labels,
//@ fn metrics::counter::Counter::labels_mut() props=C02,C03
    ensures *r.inner == old(self).0.labels, ov(r.reserved) is None, *final(self) == *old(self),
//@ fn metrics::counter::Counter::timestamp() props=C15,C17
    ensures *r == self.0.timestamp,
//@ fn metrics::counter::Counter::timestamp_mut() props=C17
    ensures *r.0 == self.0.timestamp,
//@ fn metrics::counter::Counter::collector() props=C16,C18
    ensures r.0.target() == *self.0,
//@ fn metrics::counter::CounterCollector::collect() props=C16
    ensures same(*old(w), *final(w)), final(self).0 == old(self).0,
        match r {
            Some(m) => alive(*old(w), old(self).0.target()) && (m.v matches crate::metric::Metric::Counter(c) && *c.0 == old(self).0.target()),
            None => !alive(*old(w), old(self).0.target()),
        },
