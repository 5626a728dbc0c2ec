//@ spec
// ------------------------------------------------------------ summaries
pub open spec fn smp_id(h: crate::metrics::summary::Inner) -> int { h.samples.id() }
/// what `SummaryBuilder::finish` establishes, and nothing changes afterwards
pub open spec fn sum_ok(h: crate::metrics::summary::Inner) -> bool { q_ok(h.quantiles@) && h.count.0.id() != h.sum.0.id() }
/// older at time t than the window
pub open spec fn expired(x: (int, F64), t: int, win: int) -> bool { t - x.0 > win }
/// b is a without some samples from its front, all of them expired at t
#[verifier::opaque]
pub open spec fn sheds(a: Seq<(int, F64)>, b: Seq<(int, F64)>, t: int, win: int) -> bool {
    exists|k: int| 0 <= k <= a.len() && b == #[trigger] a.skip(k) && forall|j: int| 0 <= j < k ==> expired(#[trigger] a[j], t, win)
}
/// and the front of b is within the window
pub open spec fn trims(a: Seq<(int, F64)>, b: Seq<(int, F64)>, t: int, win: int) -> bool {
    sheds(a, b, t, win) && (b.len() > 0 ==> !expired(b[0], t, win))
}
/// one visit to the samples: a is what was there, at time t
pub open spec fn visit(o: World, n: World, id: int, t: int, a: Seq<(int, F64)>, b: Seq<(int, F64)>) -> bool {
    n == World { cur: n.cur, ev: n.ev, times: o.times.push(t), smp: o.smp.insert(id, b), sev: o.sev.insert(id, o.sev[id].push((a, b))), ..o }
        && (o.quiet ==> a == o.smp[id])
}
pub open spec fn cells_kept(o: World, n: World) -> bool { n.cur == o.cur && n.ev == o.ev }
/// the steps on the two cells of two_steps, whatever else the operation did
pub open spec fn two_cells(o: World, n: World, a: int, fa: spec_fn(int) -> int, b: int, fb: spec_fn(int) -> int) -> bool {
    two_steps(o, World { cur: n.cur, ev: n.ev, ..o }, a, fa, b, fb)
}
/// C12, C13, C07: what observing v does
pub open spec fn sum_observed(o: World, n: World, h: crate::metrics::summary::Inner, v: F64) -> bool {
    two_cells(o, n, h.count.0.id(), plus64(1), h.sum.0.id(), plusf(v))
        && exists|t: int, a: Seq<(int, F64)>, b: Seq<(int, F64)>| sheds(a, b, t, h.window.total()) && #[trigger] visit(o, n, smp_id(h), t, a, b.push((t, v)))
}
/// the values which are numbers, in order
pub open spec fn numbers(s: Seq<(int, F64)>) -> Seq<F64>
    decreases s.len()
{
    if s.len() == 0 { Seq::empty() } else { let r = numbers(s.drop_last()); if s.last().1.nan() { r } else { r.push(s.last().1) } }
}
pub open spec fn by_key() -> spec_fn(F64, F64) -> int { |a: F64, b: F64| int_cmp(a.key(), b.key()) }
pub proof fn f_preorder(s: Seq<F64>)
    ensures preorder(by_key(), s),
{}
/// v are the values s in ascending order
pub open spec fn ascending(s: Seq<F64>, v: Seq<F64>) -> bool {
    v.to_multiset() == s.to_multiset() && v.len() == s.len() && forall|i: int, j: int| 0 <= i < j < v.len() ==> (#[trigger] v[i]).key() <= (#[trigger] v[j]).key()
}
pub open spec fn min_int(a: int, b: int) -> int { if a < b { a } else { b } }
/// the element of n sorted ones a quantile q reports
pub open spec fn rank(q: F64, n: int) -> int { min_int(n - 1, fto_usize(ffloor(fmul(q, of_int(n)))) as int) }
/// C12: for each quantile, in order, the order statistic of its rank among the numbers s; nothing if there are none
pub open spec fn reports(r: Seq<(crate::quantile::Quantile, F64)>, q: Seq<crate::quantile::Quantile>, s: Seq<F64>) -> bool {
    if s.len() == 0 { r.len() == 0 } else {
        exists|v: Seq<F64>| #[trigger] ascending(s, v) && r.len() == q.len() && forall|i: int| 0 <= i < r.len() ==> (#[trigger] r[i]).0.0 == q[i].0 && r[i].1 == v[rank(q[i].0, v.len() as int)]
    }
}
// the account of a summary's samples
/// the samples s are those of all observations obs, in order of time up to tt, except some first ones which had expired by tt
pub open spec fn window_ok(s: Seq<(int, F64)>, obs: Seq<(int, F64)>, tt: int, win: int) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < obs.len() ==> (#[trigger] obs[i]).0 <= (#[trigger] obs[j]).0
    &&& forall|i: int| 0 <= i < obs.len() ==> (#[trigger] obs[i]).0 <= tt
    &&& sheds(obs, s, tt, win)
}
/// the observations within the window at t
pub open spec fn in_window(obs: Seq<(int, F64)>, t: int, win: int) -> Seq<(int, F64)> { obs.filter(|x: (int, F64)| !expired(x, t, win)) }
/// C13: no operation drops a sample whose age is within the window, even if time ran backwards
pub proof fn none_dropped_early(a: Seq<(int, F64)>, b: Seq<(int, F64)>, t: int, win: int)
    requires sheds(a, b, t, win),
    ensures in_window(b, t, win) == in_window(a, t, win),
{
    reveal(sheds);
    let k = choose|k: int| 0 <= k <= a.len() && b == #[trigger] a.skip(k) && forall|j: int| 0 <= j < k ==> expired(#[trigger] a[j], t, win);
    let f = |x: (int, F64)| !expired(x, t, win);
    assert(a =~= a.take(k) + b);
    Seq::filter_distributes_over_add(a.take(k), b, f);
    filter_none(a.take(k), f);
    assert(in_window(a, t, win) =~= in_window(b, t, win));
}
pub proof fn filter_none(s: Seq<(int, F64)>, f: spec_fn((int, F64)) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> !f(#[trigger] s[i]),
    ensures s.filter(f) == Seq::<(int, F64)>::empty(),
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies !f(#[trigger] s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); }
        assert(!f(s[s.len() - 1]));
        filter_none(s.drop_last(), f);
    }
}
pub proof fn filter_all(s: Seq<(int, F64)>, f: spec_fn((int, F64)) -> bool)
    requires forall|i: int| 0 <= i < s.len() ==> f(#[trigger] s[i]),
    ensures s.filter(f) == s,
    decreases s.len(),
{
    reveal(Seq::filter);
    if s.len() > 0 {
        assert forall|i: int| 0 <= i < s.drop_last().len() implies f(#[trigger] s.drop_last()[i]) by { assert(s[i] == s.drop_last()[i]); }
        assert(f(s[s.len() - 1]));
        filter_all(s.drop_last(), f);
        assert(s =~= s.drop_last().push(s.last()));
    }
}
/// C13: the account is kept by an observation (and by any visit) as long as time does not run backwards
pub proof fn window_kept(s: Seq<(int, F64)>, b: Seq<(int, F64)>, obs: Seq<(int, F64)>, tt: int, t: int, win: int, v: F64)
    requires window_ok(s, obs, tt, win), tt <= t, sheds(s, b, t, win),
    ensures window_ok(b, obs, t, win), window_ok(b.push((t, v)), obs.push((t, v)), t, win),
{
    reveal(sheds);
    let k = choose|k: int| 0 <= k <= obs.len() && s == #[trigger] obs.skip(k) && forall|j: int| 0 <= j < k ==> expired(#[trigger] obs[j], tt, win);
    let l = choose|l: int| 0 <= l <= s.len() && b == #[trigger] s.skip(l) && forall|j: int| 0 <= j < l ==> expired(#[trigger] s[j], t, win);
    assert(obs.skip(k + l) =~= b);
    assert forall|j: int| 0 <= j < k + l implies expired(#[trigger] obs[j], t, win) by { if j >= k { assert(s[j - k] == obs[j]); } }
    let p = obs.push((t, v));
    assert(p.skip(k + l) =~= b.push((t, v)));
    assert forall|j: int| 0 <= j < k + l implies expired(#[trigger] p[j], t, win) by { assert(p[j] == obs[j]); }
}
/// C13: and then quantiles are computed from exactly the samples whose age is within the window
pub proof fn window_exact(s: Seq<(int, F64)>, b: Seq<(int, F64)>, obs: Seq<(int, F64)>, tt: int, t: int, win: int)
    requires window_ok(s, obs, tt, win), tt <= t, trims(s, b, t, win),
    ensures b == in_window(obs, t, win),
{
    window_kept(s, b, obs, tt, t, win, f0());
    none_dropped_early(obs, b, t, win);
    reveal(sheds);
    let k = choose|k: int| 0 <= k <= obs.len() && b == #[trigger] obs.skip(k) && forall|j: int| 0 <= j < k ==> expired(#[trigger] obs[j], t, win);
    assert forall|i: int| 0 <= i < b.len() implies !expired(#[trigger] b[i], t, win) by {
        assert(b[i] == obs[k + i]); assert(b[0] == obs[k]);
        if i > 0 { assert(obs[k].0 <= obs[k + i].0); }
    }
    filter_all(b, |x: (int, F64)| !expired(x, t, win));
}
/// C12, C13: a new summary is in order and has no samples
pub proof fn summary_born(o: World, n: World, c: Cfg, e: (Duration, Seq<F64>), s: crate::metrics::summary::Summary)
    requires sum_made(o, n, c, e, s),
    ensures sum_ok(*s.0), window_ok(n.smp[smp_id(*s.0)], Seq::empty(), 0, e.0.total()), s.0.window == e.0,
{ reveal(sheds); assert(n.smp[smp_id(*s.0)] =~= Seq::<(int, F64)>::empty().skip(0)); }
/// C12: the rank is within the samples
pub proof fn rank_in(q: F64, n: int)
    requires n > 0,
    ensures 0 <= rank(q, n) < n,
{}
pub proof fn sheds_step(a: Seq<(int, F64)>, b: Seq<(int, F64)>, t: int, win: int)
    requires sheds(a, b, t, win), b.len() > 0, expired(b[0], t, win),
    ensures sheds(a, b.drop_first(), t, win),
{
    reveal(sheds);
    let k = choose|k: int| 0 <= k <= a.len() && b == #[trigger] a.skip(k) && forall|j: int| 0 <= j < k ==> expired(#[trigger] a[j], t, win);
    assert(a.skip(k + 1) =~= b.drop_first());
    assert(b[0] == a[k]);
}
pub proof fn sviews_push(s: Seq<(SystemTime, F64)>, x: (SystemTime, F64))
    ensures sviews(s.push(x)) == sviews(s).push((x.0.t(), x.1)), sviews(s.push(x)).drop_last() == sviews(s),
{ assert(sviews(s.push(x)) =~= sviews(s).push((x.0.t(), x.1))); assert(sviews(s).push((x.0.t(), x.1)).drop_last() =~= sviews(s)); }
pub proof fn sheds_none(a: Seq<(int, F64)>, t: int, win: int)
    ensures sheds(a, a, t, win),
{ reveal(sheds); assert(a.skip(0) =~= a); }

//@ fn metrics::summary::Summary::with_current_samples(f) inline
//@ fn metrics::summary::Summary::metric_name() props=C14,C18
    ensures *r == self.0.quantile_name,
//@ fn metrics::summary::Summary::help() props=C05,C18
    ensures ov(r) == sv(self.0.help),
//@ fn metrics::summary::Summary::labels() props=C14,C18
    ensures *r == self.0.labels,
//@ fn metrics::summary::Summary::labels_mut() props=C02,C03
    ensures *r.inner == old(self).0.labels, ov(r.reserved) == Some("quantile"@), *final(self) == *old(self),
//@ fn metrics::summary::Summary::timestamp() props=C15,C17
    ensures *r == self.0.timestamp,
//@ fn metrics::summary::Summary::timestamp_mut() props=C17
    ensures *r.0 == self.0.timestamp,
//@ fn metrics::summary::Summary::count() props=C12,C13,C15
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == old(w).cur[self.0.count.0.id()],
//@ fn metrics::summary::Summary::sum() props=C12,C13,C15
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == f_of(old(w).cur[self.0.sum.0.id()]),
//@ fn metrics::summary::Summary::quantiles_without_values() props=C12
    ensures r@ == self.0.quantiles@,
//@ fn metrics::summary::Summary::observe(value) props=C07,C12,C13
    requires sum_ok(*self.0),
    ensures sum_observed(*old(w), *final(w), *self.0, value),
//@ loop 0 while
    *w == (World { times: old(w).times.push(now__1.t()), ..*old(w) }),
    samples__1.m@ == smp_id(*self.0), old(w).quiet ==> samples__1.at@ == old(w).smp[smp_id(*self.0)],
    sheds(samples__1.at@, sviews(samples__1.v@), now__1.t(), self.0.window.total()),
  ensures
    sviews(samples__1.v@).len() > 0 ==> !expired(sviews(samples__1.v@)[0], now__1.t(), self.0.window.total()),
//@ loop 0 pre
    proof { sheds_none(samples__1.at@, now__1.t(), self.0.window.total()); }
//@ loop 0 body
    let ghost __b = sviews(samples__1.v@);
//@ loop 0 end
    proof {
        assert(expired(__b[0], now__1.t(), self.0.window.total()));
        sheds_step(samples__1.at@, __b, now__1.t(), self.0.window.total());
        assert(sviews(samples__1.v@) =~= __b.drop_first());
    }
//@ loop 0 post
    proof { sviews_push(samples__1.v@, (now__1, value)); }
//@ exit
    proof {
        let e = w.sev[self.0.samples.id()].last();
        assert(visit(*old(w), *w, self.0.samples.id(), w.times.last(), e.0, e.1.drop_last().push((w.times.last(), value))));
        assert(two_cells(*old(w), *w, self.0.count.0.id(), plus64(1), self.0.sum.0.id(), plusf(value)));
    }
//@ fn metrics::summary::Summary::quantiles() props=C12,C13
    ensures
        exists|t: int, a: Seq<(int, F64)>, b: Seq<(int, F64)>|
            #[trigger] visit(*old(w), *final(w), smp_id(*self.0), t, a, b) && cells_kept(*old(w), *final(w)) && trims(a, b, t, self.0.window.total())
            && reports(r@, self.0.quantiles@, numbers(b)),
//@ loop 0 while
    *w == (World { times: old(w).times.push(now__1.t()), ..*old(w) }),
    samples__1.m@ == smp_id(*self.0), old(w).quiet ==> samples__1.at@ == old(w).smp[smp_id(*self.0)],
    sheds(samples__1.at@, sviews(samples__1.v@), now__1.t(), self.0.window.total()),
  ensures
    sviews(samples__1.v@).len() > 0 ==> !expired(sviews(samples__1.v@)[0], now__1.t(), self.0.window.total()),
//@ loop 0 pre
    proof { sheds_none(samples__1.at@, now__1.t(), self.0.window.total()); }
//@ loop 0 body
    let ghost __b = sviews(samples__1.v@);
//@ loop 0 end
    proof {
        assert(expired(__b[0], now__1.t(), self.0.window.total()));
        sheds_step(samples__1.at@, __b, now__1.t(), self.0.window.total());
        assert(sviews(samples__1.v@) =~= __b.drop_first());
    }
//@ loop 1 slice
    __acc1@ =~= numbers(sviews(__s1@).take(__i1 as int)),
    forall|k: int| 0 <= k < __acc1@.len() ==> !(#[trigger] __acc1@[k]).nan(),
//@ loop 1 body
    proof { let t = sviews(__s1@); assert(t.take(__i1 as int).drop_last() =~= t.take(__i1 - 1)); assert(t.take(__i1 as int).last() == t[__i1 - 1]); }
//@ loop 1 post
    proof { let t = sviews(__s1@); assert(t.take(t.len() as int) =~= t); }
//@ loop 2 any
//@ sort 0
    proof { f_preorder($v@); }
//@ sorted 0
    proof {
        let e = w.sev[self.0.samples.id()].last();
        assert($u == numbers(e.1));
        assert(visit(*old(w), *w, self.0.samples.id(), w.times.last(), e.0, e.1));
        assert(ascending(numbers(e.1), $v@)) by {
            assert forall|i: int, j: int| 0 <= i < j < $v@.len() implies (#[trigger] $v@[i]).key() <= (#[trigger] $v@[j]).key() by { assert(by_key()($v@[i], $v@[j]) <= 0); }
        }
    }
//@ loop 3 slice
    __s3@ == self.0.quantiles@, __acc3@.len() == __i3,
    forall|i: int| 0 <= i < __i3 ==> (#[trigger] __acc3@[i]).0.0 == self.0.quantiles@[i].0 && __acc3@[i].1 == samples@[rank(self.0.quantiles@[i].0, samples@.len() as int)],
//@ closure 0 req |x: F64| !x.nan()
//@ closure 0 cmp by_key()
//@ fn metrics::summary::Summary::time(f) props=C07,C12,C13
    requires sum_ok(*self.0),
    ensures
        r == f.result(*old(w)),
        exists|d: Duration| d.wf() && #[trigger] sum_observed(f.after(*old(w)), *final(w), *self.0, seconds_of(d)),
//@ entry
    proof { ax_seconds(); }
//@ fn metrics::summary::Summary::collector() props=C16,C18
    ensures r.0.target() == *self.0,
//@ fn metrics::summary::SummaryCollector::collect() props=C16
    ensures same(*old(w), *final(w)), final(self).0 == old(self).0,
        match r {
            Some(m) => alive(*old(w), old(self).0.target()) && (m.v matches crate::metric::Metric::Summary(c) && *c.0 == old(self).0.target()),
            None => !alive(*old(w), old(self).0.target()),
        },
