//@ spec
// ------------------------------------------------------------ aggregations
/// one more total, as a u64 sum wraps
pub open spec fn wadd(a: int, b: int) -> int { (a + b) % 0x1_0000_0000_0000_0000 }
/// the later of two timestamps, one that is there before one that is not
pub open spec fn later(a: Option<int>, b: Option<int>) -> Option<int> {
    match (a, b) { (Some(x), Some(y)) => Some(if x > y { x } else { y }), (Some(x), None) => a, _ => b }
}
pub open spec fn cell_ts(w: World, t: crate::timestamp::Timestamp) -> Option<int> { ts_of(w.cur[t.0.0.id()]) }
pub open spec fn hist_latest(w: World, m: Seq<crate::metrics::histogram::Histogram>) -> Option<int>
    decreases m.len()
{ if m.len() == 0 { None } else { later(hist_latest(w, m.drop_last()), cell_ts(w, m.last().0.timestamp)) } }
pub open spec fn sum_latest(w: World, m: Seq<crate::metrics::summary::Summary>) -> Option<int>
    decreases m.len()
{ if m.len() == 0 { None } else { later(sum_latest(w, m.drop_last()), cell_ts(w, m.last().0.timestamp)) } }
/// C15: it is the latest of those that are there
pub proof fn hist_latest_is(w: World, m: Seq<crate::metrics::histogram::Histogram>)
    ensures
        hist_latest(w, m) is None <==> (forall|i: int| 0 <= i < m.len() ==> cell_ts(w, (#[trigger] m[i]).0.timestamp) is None),
        forall|i: int| 0 <= i < m.len() ==> match cell_ts(w, (#[trigger] m[i]).0.timestamp) { Some(t) => t <= hist_latest(w, m)->0, None => true },
        hist_latest(w, m) is Some ==> exists|i: int| 0 <= i < m.len() && cell_ts(w, (#[trigger] m[i]).0.timestamp) == hist_latest(w, m),
    decreases m.len(),
{
    if m.len() > 0 {
        let d = m.drop_last();
        hist_latest_is(w, d);
        assert forall|i: int| 0 <= i < d.len() implies d[i] == #[trigger] m[i] by {}
        let k = m.len() - 1;
        assert(m[k] == m.last());
        if hist_latest(w, d) is Some { let i = choose|i: int| 0 <= i < d.len() && cell_ts(w, (#[trigger] d[i]).0.timestamp) == hist_latest(w, d); assert(m[i] == d[i]); }
        if hist_latest(w, d) is None { assert forall|i: int| 0 <= i < d.len() implies cell_ts(w, (#[trigger] m[i]).0.timestamp) is None by { assert(m[i] == d[i]); } }
        if hist_latest(w, m) is None { assert forall|i: int| 0 <= i < d.len() implies cell_ts(w, (#[trigger] d[i]).0.timestamp) is None by { assert(m[i] == d[i]); } }
    }
}
pub proof fn sum_latest_is(w: World, m: Seq<crate::metrics::summary::Summary>)
    ensures
        sum_latest(w, m) is None <==> (forall|i: int| 0 <= i < m.len() ==> cell_ts(w, (#[trigger] m[i]).0.timestamp) is None),
        forall|i: int| 0 <= i < m.len() ==> match cell_ts(w, (#[trigger] m[i]).0.timestamp) { Some(t) => t <= sum_latest(w, m)->0, None => true },
        sum_latest(w, m) is Some ==> exists|i: int| 0 <= i < m.len() && cell_ts(w, (#[trigger] m[i]).0.timestamp) == sum_latest(w, m),
    decreases m.len(),
{
    if m.len() > 0 {
        let d = m.drop_last();
        sum_latest_is(w, d);
        assert forall|i: int| 0 <= i < d.len() implies d[i] == #[trigger] m[i] by {}
        let k = m.len() - 1;
        assert(m[k] == m.last());
        if sum_latest(w, d) is Some { let i = choose|i: int| 0 <= i < d.len() && cell_ts(w, (#[trigger] d[i]).0.timestamp) == sum_latest(w, d); assert(m[i] == d[i]); }
        if sum_latest(w, d) is None { assert forall|i: int| 0 <= i < d.len() implies cell_ts(w, (#[trigger] m[i]).0.timestamp) is None by { assert(m[i] == d[i]); } }
        if sum_latest(w, m) is None { assert forall|i: int| 0 <= i < d.len() implies cell_ts(w, (#[trigger] d[i]).0.timestamp) is None by { assert(m[i] == d[i]); } }
    }
}
/// the observation counts and the sums of the members, added up in order
pub open spec fn hist_counts(w: World, m: Seq<crate::metrics::histogram::Histogram>) -> int
    decreases m.len()
{ if m.len() == 0 { 0 } else { wadd(hist_counts(w, m.drop_last()), cum(w, m.last().0.buckets@, m.last().0.buckets@.len() as int)) } }
pub open spec fn hist_sums(w: World, m: Seq<crate::metrics::histogram::Histogram>) -> F64
    decreases m.len()
{ if m.len() == 0 { fsum_zero() } else { fadd(hist_sums(w, m.drop_last()), f_of(w.cur[sum_id(*m.last().0)])) } }
pub open spec fn sum_counts(w: World, m: Seq<crate::metrics::summary::Summary>) -> int
    decreases m.len()
{ if m.len() == 0 { 0 } else { wadd(sum_counts(w, m.drop_last()), w.cur[m.last().0.count.0.id()]) } }
pub open spec fn sum_sums(w: World, m: Seq<crate::metrics::summary::Summary>) -> F64
    decreases m.len()
{ if m.len() == 0 { fsum_zero() } else { fadd(sum_sums(w, m.drop_last()), f_of(w.cur[m.last().0.sum.0.id()])) } }
/// the same name parts
pub open spec fn same_name(a: crate::metric::MetricName, b: crate::metric::MetricName) -> bool { nparts(a) == nparts(b) }
pub open spec fn same_labels(w: World, a: crate::label::Labels, b: crate::label::Labels) -> bool { w.lab[a.0.id()] == w.lab[b.0.id()] }
/// all members of an aggregation are as `finish` made them
pub open spec fn all_sum_ok(m: Seq<crate::metrics::summary::Summary>) -> bool { forall|i: int| 0 <= i < m.len() ==> sum_ok(*(#[trigger] m[i]).0) }

impl POrd for crate::quantile::Quantile { open spec fn dcmp(&self, o: &Self) -> int { int_cmp(self.0.key(), o.0.key()) } }
impl UserOrd for crate::quantile::Quantile { open spec fn ok(&self) -> bool { !self.0.nan() } }
/// what one member contributed: the time of the visit, and its samples before and after it
pub struct Visit { pub t: int, pub a: Seq<(int, F64)>, pub b: Seq<(int, F64)> }
/// every member is visited once, in order, and only by this
pub open spec fn visited(o: World, n: World, m: Seq<crate::metrics::summary::Summary>, v: Seq<Visit>) -> bool
    decreases m.len()
{
    v.len() == m.len() && if m.len() == 0 { n == o } else {
        exists|p: World| visited(o, p, m.drop_last(), v.drop_last()) && #[trigger] visit_one(p, n, m.last(), v.last())
    }
}
#[verifier::opaque]
pub open spec fn visit_one(o: World, n: World, s: crate::metrics::summary::Summary, v: Visit) -> bool {
    visit(o, n, smp_id(*s.0), v.t, v.a, v.b) && cells_kept(o, n) && trims(v.a, v.b, v.t, s.0.window.total())
}
/// the numbers in the windows of all members
pub open spec fn pooled(v: Seq<Visit>) -> Seq<F64>
    decreases v.len()
{ if v.len() == 0 { Seq::empty() } else { pooled(v.drop_last()) + numbers(v.last().b) } }
/// the quantiles of all members
pub open spec fn asked(m: Seq<crate::metrics::summary::Summary>) -> Seq<crate::quantile::Quantile>
    decreases m.len()
{ if m.len() == 0 { Seq::empty() } else { asked(m.drop_last()) + m.last().0.quantiles@ } }
/// q lists each distinct quantile of u once, in ascending order
pub open spec fn each_once(u: Seq<crate::quantile::Quantile>, q: Seq<crate::quantile::Quantile>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).0.key() < (#[trigger] q[j]).0.key()
    &&& forall|i: int| 0 <= i < q.len() ==> u.contains(#[trigger] q[i])
    &&& forall|j: int| 0 <= j < u.len() ==> covered(q, #[trigger] u[j])
}
/// C12: the order statistics of the samples of all members, each distinct quantile once
pub open spec fn agg_reports(r: Seq<(crate::quantile::Quantile, F64)>, u: Seq<crate::quantile::Quantile>, s: Seq<F64>) -> bool {
    if s.len() == 0 { r.len() == 0 } else { exists|q: Seq<crate::quantile::Quantile>| #[trigger] each_once(u, q) && reports(r, q, s) }
}
#[verifier::opaque]
pub open spec fn covered(q: Seq<crate::quantile::Quantile>, x: crate::quantile::Quantile) -> bool { exists|i: int| 0 <= i < q.len() && (#[trigger] q[i]).0.key() == x.0.key() }
pub proof fn visited_len(o: World, p: World, m: Seq<crate::metrics::summary::Summary>, v: Seq<Visit>)
    requires visited(o, p, m, v),
    ensures v.len() == m.len(),
{}
pub proof fn visited_step(o: World, p: World, n: World, m: Seq<crate::metrics::summary::Summary>, v: Seq<Visit>, k: int, x: Visit)
    requires 0 <= k < m.len(), visited(o, p, m.take(k), v), visit_one(p, n, m[k], x),
    ensures visited(o, n, m.take(k + 1), v.push(x)), pooled(v.push(x)) == pooled(v) + numbers(x.b),
{
    let m1 = m.take(k + 1);
    let v1 = v.push(x);
    assert(m1.drop_last() =~= m.take(k));
    assert(m1.last() == m[k]);
    assert(v1.drop_last() =~= v);
    assert(visited(o, p, m1.drop_last(), v1.drop_last()) && visit_one(p, n, m1.last(), v1.last()));
    assert(v1.len() == m1.len()) by { visited_len(o, p, m.take(k), v); }
}
pub proof fn asked_ok(m: Seq<crate::metrics::summary::Summary>)
    requires all_sum_ok(m),
    ensures forall|i: int| 0 <= i < asked(m).len() ==> good_q((#[trigger] asked(m)[i]).0),
    decreases m.len(),
{
    if m.len() > 0 {
        let d = m.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies sum_ok(*(#[trigger] d[i]).0) by { assert(d[i] == m[i]); }
        asked_ok(d);
        assert(sum_ok(*m[m.len() - 1].0));
        let l = m.last().0.quantiles@;
        assert forall|i: int| 0 <= i < asked(m).len() implies good_q((#[trigger] asked(m)[i]).0) by {
            if i < asked(d).len() { assert(asked(m)[i] == asked(d)[i]); } else { assert(asked(m)[i] == l[i - asked(d).len()]); }
        }
    }
}
/// o is the first p quantiles of the sorted g with repeated ones left out
pub open spec fn q_deduped(g: Seq<crate::quantile::Quantile>, p: int, o: Seq<crate::quantile::Quantile>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < o.len() ==> (#[trigger] o[i]).0.key() < (#[trigger] o[j]).0.key()
    &&& forall|i: int| 0 <= i < o.len() ==> g.contains(#[trigger] o[i])
    &&& forall|j: int| 0 <= j < p ==> covered(o, #[trigger] g[j])
    &&& p > 0 ==> o.len() > 0 && o.last().0.key() == g[p - 1].0.key()
    &&& p == 0 ==> o.len() == 0
}
pub proof fn q_dedup_step(g: Seq<crate::quantile::Quantile>, p: int, o: Seq<crate::quantile::Quantile>, n: Seq<crate::quantile::Quantile>)
    requires
        q_deduped(g, p, o), 0 <= p < g.len(), sorted_by_cmp(g, ord_of::<crate::quantile::Quantile>()),
        forall|i: int| 0 <= i < g.len() ==> good_q((#[trigger] g[i]).0),
        n == (if o.len() > 0 && g[p].0.eq(o.last().0) { o } else { o.push(g[p]) }),
    ensures q_deduped(g, p + 1, n),
{
    assert(good_q(g[p].0));
    if p > 0 { assert(ord_of::<crate::quantile::Quantile>()(g[p - 1], g[p]) <= 0); assert(good_q(g[p - 1].0)); }
    if o.len() > 0 { assert(g.contains(o[o.len() - 1])); }
    assert forall|j: int| 0 <= j < p + 1 implies covered(n, #[trigger] g[j]) by {
        reveal(covered);
        if j < p {
            assert(covered(o, g[j]));
            let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).0.key() == g[j].0.key();
            assert(n[i] == o[i]);
        } else { assert(n[n.len() - 1].0.key() == g[p].0.key()); }
    }
    assert forall|i: int| 0 <= i < n.len() implies g.contains(#[trigger] n[i]) by { if i < o.len() { assert(n[i] == o[i]); } }
    if n != o && o.len() > 0 {
        assert forall|i: int| 0 <= i < o.len() implies (#[trigger] o[i]).0.key() < g[p].0.key() by {
            if i < o.len() - 1 { assert(o[i].0.key() < o[o.len() - 1].0.key()); }
        }
    }
}
/// removing the repeated ones after sorting
pub proof fn q_each_once(u: Seq<crate::quantile::Quantile>, g: Seq<crate::quantile::Quantile>, q: Seq<crate::quantile::Quantile>)
    requires sorted_from(u, g, ord_of::<crate::quantile::Quantile>()), q_deduped(g, g.len() as int, q),
    ensures each_once(u, q),
{
    let p = sort_perm(u, ord_of::<crate::quantile::Quantile>());
    perm_onto(p, u.len() as int);
    assert forall|i: int| 0 <= i < q.len() implies u.contains(#[trigger] q[i]) by {
        assert(g.contains(q[i]));
        let j = choose|j: int| 0 <= j < g.len() && g[j] == q[i];
        assert(u[p[j]] == g[j]);
    }
    assert forall|j: int| 0 <= j < u.len() implies covered(q, #[trigger] u[j]) by {
        assert(hit(p, j));
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == j;
        assert(g[i] == u[p[i]]);
        assert(covered(q, g[i]));
    }
}

//@ fn quantile::Quantile::cmp(other) props=C12
    requires self.ok(), other.ok(),
    ensures ord_int(r) == self.dcmp(other),
//@ fn aggregated_metrics::AggregatedCounter::metric_name() props=C14
    ensures *r == self.inner.0.name,
//@ fn aggregated_metrics::AggregatedCounter::labels() props=C14
    ensures *r == self.inner.0.labels,
//@ fn aggregated_metrics::AggregatedCounter::timestamp() props=C15
    ensures born(*old(w), *final(w), r.0.0.id(), ts_word(self.timestamp)),
//@ fn aggregated_metrics::AggregatedCounter::value() props=C15
    ensures r == self.value,
//@ fn aggregated_metrics::AggregatedCounter::new(counter) props=C14,C15
    ensures same(*old(w), *final(w)), r.inner == counter,
        old(w).quiet ==> r.value == cnt_val(*old(w), counter.0.value) && oi(r.timestamp) == cell_ts(*old(w), counter.0.timestamp),
//@ fn aggregated_metrics::AggregatedCounter::try_merge(other) props=C14,C15
    ensures
        same(*old(w), *final(w)), final(self).inner == old(self).inner,
        r ==> same_name(old(self).inner.0.name, other.inner.0.name),
        old(w).quiet ==> r == (same_name(old(self).inner.0.name, other.inner.0.name) && same_labels(*old(w), old(self).inner.0.labels, other.inner.0.labels)),
        r ==> final(self).value == fadd(old(self).value, other.value) && oi(final(self).timestamp) == later(oi(old(self).timestamp), oi(other.timestamp)),
        !r ==> *final(self) == *old(self),
//@ fn aggregated_metrics::AggregatedGauge::metric_name() props=C14
    ensures *r == self.inner.0.name,
//@ fn aggregated_metrics::AggregatedGauge::labels() props=C14
    ensures *r == self.inner.0.labels,
//@ fn aggregated_metrics::AggregatedGauge::timestamp() props=C15
    ensures born(*old(w), *final(w), r.0.0.id(), ts_word(self.timestamp)),
//@ fn aggregated_metrics::AggregatedGauge::value() props=C15
    ensures r == self.value,
//@ fn aggregated_metrics::AggregatedGauge::new(gauge) props=C14,C15
    ensures same(*old(w), *final(w)), r.inner == gauge,
        old(w).quiet ==> r.value == f_of(old(w).cur[gauge.0.value.0.id()]) && oi(r.timestamp) == cell_ts(*old(w), gauge.0.timestamp),
//@ fn aggregated_metrics::AggregatedGauge::try_merge(other) props=C14,C15
    ensures
        same(*old(w), *final(w)), final(self).inner == old(self).inner,
        r ==> same_name(old(self).inner.0.name, other.inner.0.name),
        old(w).quiet ==> r == (same_name(old(self).inner.0.name, other.inner.0.name) && same_labels(*old(w), old(self).inner.0.labels, other.inner.0.labels)),
        r ==> final(self).value == fadd(old(self).value, other.value) && oi(final(self).timestamp) == later(oi(old(self).timestamp), oi(other.timestamp)),
        !r ==> *final(self) == *old(self),
//@ fn aggregated_metrics::AggregatedHistogram::metric_name() props=C14
    requires self.inners@.len() > 0,
    ensures *r == self.inners@[0].0.bucket_name,
//@ fn aggregated_metrics::AggregatedHistogram::labels() props=C14
    requires self.inners@.len() > 0,
    ensures *r == self.inners@[0].0.labels,
//@ fn aggregated_metrics::AggregatedHistogram::timestamp() props=C15
    ensures exists|t: Option<i64>| #[trigger] born(*old(w), *final(w), r.0.0.id(), ts_word(t)) && (old(w).quiet ==> oi(t) == hist_latest(*old(w), self.inners@)),
//@ loop 0 slice
    *w == *old(w), __s0@ == self.inners@, __acc0 is None <==> __i0 == 0,
    old(w).quiet ==> oi(match __acc0 { Some(t) => t, None => None }) == hist_latest(*old(w), self.inners@.take(__i0 as int)),
//@ loop 0 body
    proof { let m = self.inners@; assert(m.take(__i0 as int).drop_last() =~= m.take(__i0 - 1)); assert(m.take(__i0 as int).last() == m[__i0 - 1]); }
//@ loop 0 post
    proof { let m = self.inners@; assert(m.take(m.len() as int) =~= m); }
//@ fn aggregated_metrics::AggregatedHistogram::cumulative_buckets() props=C05,C11
    ensures r.cumulative_count == 0, lists_of(self.inners@, r.iters@), all_hist_ok(self.inners@) ==> its_ok(r.iters@),
//@ fn aggregated_metrics::AggregatedHistogram::count() props=C11,C15
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == hist_counts(*old(w), self.inners@),
//@ loop 0 slice
    *w == *old(w), __s0@ == self.inners@, old(w).quiet ==> __acc0 == hist_counts(*old(w), self.inners@.take(__i0 as int)),
//@ loop 0 body
    proof { let m = self.inners@; assert(m.take(__i0 as int).drop_last() =~= m.take(__i0 - 1)); assert(m.take(__i0 as int).last() == m[__i0 - 1]); }
//@ loop 0 post
    proof { let m = self.inners@; assert(m.take(m.len() as int) =~= m); }
//@ fn aggregated_metrics::AggregatedHistogram::sum() props=C11,C15
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == hist_sums(*old(w), self.inners@),
//@ loop 0 slice
    *w == *old(w), __s0@ == self.inners@, old(w).quiet ==> __acc0 == hist_sums(*old(w), self.inners@.take(__i0 as int)),
//@ loop 0 body
    proof { let m = self.inners@; assert(m.take(__i0 as int).drop_last() =~= m.take(__i0 - 1)); assert(m.take(__i0 as int).last() == m[__i0 - 1]); }
//@ loop 0 post
    proof { let m = self.inners@; assert(m.take(m.len() as int) =~= m); }
//@ fn aggregated_metrics::AggregatedHistogram::new(histogram) props=C14,C15
    ensures r.inners@ == seq![histogram],
//@ fn aggregated_metrics::AggregatedHistogram::try_merge(other) props=C14,C15
    requires old(self).inners@.len() > 0, other.inners@.len() > 0,
    ensures
        same(*old(w), *final(w)),
        r ==> same_name(old(self).inners@[0].0.bucket_name, other.inners@[0].0.bucket_name),
        old(w).quiet ==> r == (same_name(old(self).inners@[0].0.bucket_name, other.inners@[0].0.bucket_name) && same_labels(*old(w), old(self).inners@[0].0.labels, other.inners@[0].0.labels)),
        final(self).inners@ == (if r { old(self).inners@ + other.inners@ } else { old(self).inners@ }),
        !r ==> *final(self) == *old(self),
//@ fn aggregated_metrics::AggregatedSummary::metric_name() props=C14
    requires self.inners@.len() > 0,
    ensures *r == self.inners@[0].0.quantile_name,
//@ fn aggregated_metrics::AggregatedSummary::labels() props=C14
    requires self.inners@.len() > 0,
    ensures *r == self.inners@[0].0.labels,
//@ fn aggregated_metrics::AggregatedSummary::timestamp() props=C15
    ensures exists|t: Option<i64>| #[trigger] born(*old(w), *final(w), r.0.0.id(), ts_word(t)) && (old(w).quiet ==> oi(t) == sum_latest(*old(w), self.inners@)),
//@ loop 0 slice
    *w == *old(w), __s0@ == self.inners@, __acc0 is None <==> __i0 == 0,
    old(w).quiet ==> oi(match __acc0 { Some(t) => t, None => None }) == sum_latest(*old(w), self.inners@.take(__i0 as int)),
//@ loop 0 body
    proof { let m = self.inners@; assert(m.take(__i0 as int).drop_last() =~= m.take(__i0 - 1)); assert(m.take(__i0 as int).last() == m[__i0 - 1]); }
//@ loop 0 post
    proof { let m = self.inners@; assert(m.take(m.len() as int) =~= m); }
//@ fn aggregated_metrics::AggregatedSummary::count() props=C15
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == sum_counts(*old(w), self.inners@),
//@ loop 0 slice
    *w == *old(w), __s0@ == self.inners@, old(w).quiet ==> __acc0 == sum_counts(*old(w), self.inners@.take(__i0 as int)),
//@ loop 0 body
    proof { let m = self.inners@; assert(m.take(__i0 as int).drop_last() =~= m.take(__i0 - 1)); assert(m.take(__i0 as int).last() == m[__i0 - 1]); }
//@ loop 0 post
    proof { let m = self.inners@; assert(m.take(m.len() as int) =~= m); }
//@ fn aggregated_metrics::AggregatedSummary::sum() props=C15
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == sum_sums(*old(w), self.inners@),
//@ loop 0 slice
    *w == *old(w), __s0@ == self.inners@, old(w).quiet ==> __acc0 == sum_sums(*old(w), self.inners@.take(__i0 as int)),
//@ loop 0 body
    proof { let m = self.inners@; assert(m.take(__i0 as int).drop_last() =~= m.take(__i0 - 1)); assert(m.take(__i0 as int).last() == m[__i0 - 1]); }
//@ loop 0 post
    proof { let m = self.inners@; assert(m.take(m.len() as int) =~= m); }
//@ fn aggregated_metrics::AggregatedSummary::new(summary) props=C14,C15
    ensures r.inners@ == seq![summary],
//@ fn aggregated_metrics::AggregatedSummary::try_merge(other) props=C14,C15
    requires old(self).inners@.len() > 0, other.inners@.len() > 0,
    ensures
        same(*old(w), *final(w)),
        r ==> same_name(old(self).inners@[0].0.quantile_name, other.inners@[0].0.quantile_name),
        old(w).quiet ==> r == (same_name(old(self).inners@[0].0.quantile_name, other.inners@[0].0.quantile_name) && same_labels(*old(w), old(self).inners@[0].0.labels, other.inners@[0].0.labels)),
        final(self).inners@ == (if r { old(self).inners@ + other.inners@ } else { old(self).inners@ }),
        !r ==> *final(self) == *old(self),
//@ fn aggregated_metrics::AggregatedSummary::quantiles() props=C12,C13
    requires all_sum_ok(self.inners@),
    ensures
        exists|v: Seq<Visit>| #[trigger] visited(*old(w), *final(w), self.inners@, v) && agg_reports(r@, asked(self.inners@), pooled(v)),
//@ entry
    let ghost mut __vs: Seq<Visit> = Seq::empty();
//@ loop 0 slice
    __s0@ == self.inners@,
    visited(*old(w), *w, self.inners@.take(__i0 as int), __vs), w.quiet == old(w).quiet,
    aggregated_samples@ =~= pooled(__vs),
    forall|k: int| 0 <= k < aggregated_samples@.len() ==> !(#[trigger] aggregated_samples@[k]).nan(),
//@ loop 0 body
    let ghost __p0 = *w;
    let ghost __a0 = aggregated_samples@;
//@ loop 0 end
    proof {
        let e = w.sev[summary.0.samples.id()].last();
        let x = Visit { t: w.times.last(), a: e.0, b: e.1 };
        assert(visit_one(__p0, *w, self.inners@[__i0 - 1], x)) by { reveal(visit_one); assert(visit(__p0, *w, summary.0.samples.id(), x.t, x.a, x.b)); }
        visited_step(*old(w), __p0, *w, self.inners@, __vs, __i0 - 1, x);
        __vs = __vs.push(x);
    }
//@ loop 0 post
    proof { let m = self.inners@; assert(m.take(m.len() as int) =~= m); }
//@ loop 1 while
    *w == (World { times: __p0.times.push(now__1.t()), ..__p0 }),
    samples__1.m@ == summary.0.samples.id(), __p0.quiet ==> samples__1.at@ == __p0.smp[summary.0.samples.id()],
    sheds(samples__1.at@, sviews(samples__1.v@), now__1.t(), summary.0.window.total()),
    aggregated_samples@ == __a0,
  ensures
    sviews(samples__1.v@).len() > 0 ==> !expired(sviews(samples__1.v@)[0], now__1.t(), summary.0.window.total()),
//@ loop 1 pre
    proof { sheds_none(samples__1.at@, now__1.t(), summary.0.window.total()); }
//@ loop 1 body
    let ghost __b = sviews(samples__1.v@);
//@ loop 1 end
    proof {
        assert(expired(__b[0], now__1.t(), summary.0.window.total()));
        sheds_step(samples__1.at@, __b, now__1.t(), summary.0.window.total());
        assert(sviews(samples__1.v@) =~= __b.drop_first());
    }
//@ loop 2 slice
    aggregated_samples@ =~= __a0 + numbers(sviews(__s2@).take(__i2 as int)),
    forall|k: int| 0 <= k < aggregated_samples@.len() ==> !(#[trigger] aggregated_samples@[k]).nan(),
//@ loop 2 body
    proof { let t = sviews(__s2@); assert(t.take(__i2 as int).drop_last() =~= t.take(__i2 - 1)); assert(t.take(__i2 as int).last() == t[__i2 - 1]); }
//@ loop 2 post
    proof { let t = sviews(__s2@); assert(t.take(t.len() as int) =~= t); }
//@ loop 3 any
//@ sort 0
    proof { f_preorder($v@); }
//@ sorted 0
    proof {
        assert($u == pooled(__vs));
        assert(ascending(pooled(__vs), $v@)) by {
            assert forall|i: int, j: int| 0 <= i < j < $v@.len() implies (#[trigger] $v@[i]).key() <= (#[trigger] $v@[j]).key() by { assert(by_key()($v@[i], $v@[j]) <= 0); }
        }
    }
//@ loop 4 slice
    __s4@ == self.inners@, __acc4@ =~= asked(self.inners@.take(__i4 as int)),
//@ loop 4 body
    let ghost __q4 = __acc4@;
    proof { let m = self.inners@; assert(m.take(__i4 as int).drop_last() =~= m.take(__i4 - 1)); assert(m.take(__i4 as int).last() == m[__i4 - 1]); }
//@ loop 4 post
    proof { let m = self.inners@; assert(m.take(m.len() as int) =~= m); asked_ok(m); }
//@ loop 5 slice
    __s5@ == self.inners@[__i4 - 1].0.quantiles@, __acc4@ =~= __q4 + __s5@.take(__i5 as int),
//@ loop 5 post
    proof { assert(__s5@.take(__s5@.len() as int) =~= __s5@); }
//@ sorted 1
    proof { assert forall|i: int| 0 <= i < $v@.len() implies good_q((#[trigger] $v@[i]).0) by { assert($v@[i] == $u[sort_perm($u, ord_of::<crate::quantile::Quantile>())[i]]); } }
//@ loop 6 owned
    q_deduped(__g6, __s6.pos(), quantiles@),
//@ loop 6 body
    let ghost __b6 = quantiles@;
//@ loop 6 end
    proof { q_dedup_step(__g6, __s6.pos() - 1, __b6, quantiles@); }
//@ loop 6 post
    proof { q_each_once(asked(self.inners@), __g6, quantiles@); }
//@ loop 7 slice
    __s7@ == quantiles@, __acc7@.len() == __i7,
    forall|i: int| 0 <= i < __i7 ==> (#[trigger] __acc7@[i]).0.0 == quantiles@[i].0 && __acc7@[i].1 == aggregated_samples@[rank(quantiles@[i].0, aggregated_samples@.len() as int)],
//@ closure 0 req |x: F64| !x.nan()
//@ closure 0 cmp by_key()
