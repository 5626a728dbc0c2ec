//@ spec
// ------------------------------------------------------------ gauge
pub open spec fn gid(g: crate::metrics::gauge::Gauge) -> int { g.0.value.0.id() }
impl OwnCollector for crate::metrics::gauge::GaugeCollector { open spec fn cid(&self) -> int { handle_id(self.0.target()) } }
/// two floating-point results are the same number (not-a-number has many spellings)
pub open spec fn fsame(a: F64, b: F64) -> bool { a == b || (a.nan() && b.nan()) }
/// kani: sub -- subtracting is adding the negation
pub axiom fn ax_sub()
    ensures forall|x: F64, c: F64| fsame(#[trigger] fadd(x, fneg(c)), fsub(x, c));
/// exactly one indivisible step, subtracting c
pub open spec fn subbed(o: World, n: World, id: int, c: F64) -> bool {
    let e = n.ev[id].last();
    &&& n == World { cur: o.cur.insert(id, e.1), ev: o.ev.insert(id, o.ev[id].push(e)), ..o }
    &&& (o.quiet ==> e.0 == o.cur[id])
    &&& fsame(f_of(e.1), fsub(f_of(e.0), c))
}
pub proof fn is_subbed(o: World, n: World, id: int, c: F64)
    requires step(o, n, id, plusf(fneg(c))),
    ensures subbed(o, n, id, c),
{
    ax_sub();
    let e = n.ev[id].last();
    assert(f_of(e.1) == fadd(f_of(e.0), fneg(c)));
}
pub broadcast proof fn b_subbed(o: World, n: World, id: int, c: F64)
    ensures #[trigger] step(o, n, id, plusf(fneg(c))) ==> subbed(o, n, id, c),
{ if step(o, n, id, plusf(fneg(c))) { is_subbed(o, n, id, c); } }
pub broadcast proof fn b_one()
    ensures #[trigger] fm1() == fneg(f1()),
{}

//@ fn metrics::gauge::Gauge::value() props=C07,C08
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == f_of(old(w).cur[gid(*self)]),
//@ fn metrics::gauge::Gauge::increment() props=C07,C08
    ensures step(*old(w), *final(w), gid(*self), plusf(f1())),
//@ fn metrics::gauge::Gauge::add(count) props=C07,C08
    ensures step(*old(w), *final(w), gid(*self), plusf(count)),
//@ fn metrics::gauge::Gauge::decrement() props=C07,C08
    ensures subbed(*old(w), *final(w), gid(*self), f1()),
//@ entry
    proof { broadcast use b_subbed; assert(fneg(f1()) == fm1()); }
//@ fn metrics::gauge::Gauge::subtract(count) props=C07,C08
    ensures subbed(*old(w), *final(w), gid(*self), count),
//@ entry
    proof { broadcast use b_subbed; }
//@ fn metrics::gauge::Gauge::set(value) props=C07,C08
    ensures step(*old(w), *final(w), gid(*self), setw(value.bits as int)),
//@ fn metrics::gauge::Gauge::set_to_current_time() props=C08
    ensures ({
        let t = final(w).times.last();
        let x = final(w).cur[gid(*self)];
        step(World { times: old(w).times.push(t), ..*old(w) }, *final(w), gid(*self), setw(x)) && now_is(t, f_of(x))
    }),
//@ fn metrics::gauge::Gauge::track_inprogress(f) props=C07,C08
    ensures exists|a: World| #[trigger] step(*old(w), a, gid(*self), plusf(f1())) && r == f.result(a) && subbed(f.after(a), *final(w), gid(*self), f1()),
//@ entry
    proof { broadcast use b_subbed; assert(fneg(f1()) == fm1()); }
//@ fn metrics::gauge::Gauge::time(f) props=C07,C08
    ensures
        r == f.result(*old(w)),
        exists|d: Duration| d.wf() && step(f.after(*old(w)), *final(w), gid(*self), setw(#[trigger] seconds_of(d).bits as int)),
//@ fn metrics::gauge::Gauge::metric_name() props=C14,C18
    ensures *r == self.0.name,
//@ fn metrics::gauge::Gauge::help() props=C05,C18
    ensures ov(r) == sv(self.0.help),
//@ fn metrics::gauge::Gauge::labels() props=C14,C18
    ensures *r == self.0.labels,
//@ fn metrics::gauge::Gauge::labels_mut() props=C02,C03
    ensures *r.inner == old(self).0.labels, ov(r.reserved) is None, *final(self) == *old(self),
//@ fn metrics::gauge::Gauge::timestamp() props=C15,C17
    ensures *r == self.0.timestamp,
//@ fn metrics::gauge::Gauge::timestamp_mut() props=C17
    ensures *r.0 == self.0.timestamp,
//@ fn metrics::gauge::Gauge::collector() props=C16,C18
    ensures r.0.target() == *self.0,
//@ fn metrics::gauge::GaugeCollector::collect() props=C16
    ensures same(*old(w), *final(w)), final(self).0 == old(self).0,
        match r {
            Some(m) => alive(*old(w), old(self).0.target()) && (m.v matches crate::metric::Metric::Gauge(c) && *c.0 == old(self).0.target()),
            None => !alive(*old(w), old(self).0.target()),
        },
