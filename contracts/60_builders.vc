//@ spec
// ------------------------------------------------------------ builders
pub open spec fn pview(p: (String, String)) -> LV { (p.0@, p.1@) }
pub open spec fn pviews(s: Seq<(String, String)>) -> Seq<LV> { s.map_values(|p: (String, String)| pview(p)) }
pub open spec fn chs(s: Seq<crate::registry::Registry>) -> Seq<int> { s.map_values(|r: crate::registry::Registry| r.tx.ch()) }
/// what every builder is configured with
pub struct Cfg { pub ns: Option<Seq<char>>, pub ss: Option<Seq<char>>, pub name: Seq<char>, pub help: Option<Seq<char>>, pub labels: Seq<LV>, pub regs: Seq<int> }
pub open spec fn cfg_new(name: Seq<char>) -> Cfg { Cfg { ns: None, ss: None, name: name, help: None, labels: Seq::empty(), regs: Seq::empty() } }
pub open spec fn cfg_c(b: crate::metrics::counter::CounterBuilder) -> Cfg {
    Cfg { ns: sv(b.namespace), ss: sv(b.subsystem), name: b.name@, help: sv(b.help), labels: pviews(b.labels@), regs: chs(b.registries@) }
}
pub open spec fn cfg_g(b: crate::metrics::gauge::GaugeBuilder) -> Cfg {
    Cfg { ns: sv(b.namespace), ss: sv(b.subsystem), name: b.name@, help: sv(b.help), labels: pviews(b.labels@), regs: chs(b.registries@) }
}
pub open spec fn cfg_h(b: crate::metrics::histogram::HistogramBuilder) -> Cfg {
    Cfg { ns: sv(b.namespace), ss: sv(b.subsystem), name: b.name@, help: sv(b.help), labels: pviews(b.labels@), regs: chs(b.registries@) }
}
pub open spec fn cfg_s(b: crate::metrics::summary::SummaryBuilder) -> Cfg {
    Cfg { ns: sv(b.namespace), ss: sv(b.subsystem), name: b.name@, help: sv(b.help), labels: pviews(b.labels@), regs: chs(b.registries@) }
}
/// everything but the label list is unchanged, and the label map has `name` set to `value`
pub open spec fn cfg_label(o: Cfg, n: Cfg, name: Seq<char>, value: Seq<char>) -> bool {
    n == (Cfg { labels: n.labels, ..o }) && (lab_ok(o.labels) ==> is_put(o.labels, n.labels, name, value))
}
pub open spec fn cfg_valid(c: Cfg, reserved: Option<Seq<char>>) -> bool {
    &&& good_opt(c.ns) && good_opt(c.ss) && good_name(c.name)
    &&& forall|i: int| 0 <= i < c.labels.len() ==> good_label((#[trigger] c.labels[i]).0) && reserved != Some(c.labels[i].0)
}
pub proof fn pair_cmp_is(a: (String, String), b: (String, String))
    ensures a.dcmp(&b) == lv_cmp(pview(a), pview(b)),
{}
pub proof fn pair_preorder(s: Seq<(String, String)>)
    ensures preorder(ord_of::<(String, String)>(), s),
{
    let c = ord_of::<(String, String)>();
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies (#[trigger] c(s[i], s[j])) == lv_cmp(pview(s[i]), pview(s[j])) by { pair_cmp_is(s[i], s[j]); }
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies (#[trigger] c(s[i], s[j]) <= 0 || c(s[j], s[i]) <= 0)
        && (c(s[i], s[j]) > 0 ==> c(s[j], s[i]) < 0) && (c(s[i], s[j]) == 0 ==> c(s[j], s[i]) == 0) by { lv_cmp_facts(pview(s[i]), pview(s[j])); }
    assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] c(s[i], s[j]) <= 0 && #[trigger] c(s[j], s[k]) <= 0
        implies c(s[i], s[k]) <= 0 by { lv_cmp_trans(pview(s[i]), pview(s[j]), pview(s[k])); }
}
pub proof fn pair_put_sorted(a: Seq<LV>, u: Seq<(String, String)>, v: Seq<(String, String)>, name: Seq<char>, value: Seq<char>)
    requires
        lab_ok(a),
        pviews(u) == without(a, name).push((name, value)),
        sorted_from(u, v, ord_of::<(String, String)>()),
    ensures is_put(a, pviews(v), name, value),
{
    let c = ord_of::<(String, String)>();
    let p = sort_perm(u, c);
    let b = pviews(v);
    assert forall|i: int| 0 <= i < v.len() implies #[trigger] b[i] == pviews(u)[p[i]] by { assert(v[i] == u[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < b.len() implies lv_cmp(#[trigger] b[i], #[trigger] b[j]) <= 0 by {
        assert(c(v[i], v[j]) <= 0);
        pair_cmp_is(v[i], v[j]);
    }
    put_perm(a, pviews(u), b, p, name, value);
}
/// nothing that existed is changed; new cells may exist
pub open spec fn grew(o: World, n: World) -> bool {
    &&& n == World { cur: n.cur, ev: n.ev, lab: n.lab, lev: n.lev, smp: n.smp, sev: n.sev, ..o }
    &&& forall|i: int| #[trigger] o.cur.dom().contains(i) ==> n.cur.dom().contains(i) && n.cur[i] == o.cur[i] && n.ev[i] == o.ev[i]
    &&& forall|i: int| #[trigger] o.lab.dom().contains(i) ==> n.lab.dom().contains(i) && n.lab[i] == o.lab[i] && n.lev[i] == o.lev[i]
    &&& forall|i: int| #[trigger] o.smp.dom().contains(i) ==> n.smp.dom().contains(i) && n.smp[i] == o.smp[i] && n.sev[i] == o.sev[i]
}
/// a cell with contents v which did not exist before
pub open spec fn fresh(o: World, n: World, id: int, v: int) -> bool { !o.cur.dom().contains(id) && n.cur.dom().contains(id) && n.cur[id] == v && n.ev[id] == Seq::<(int, int)>::empty() }
pub open spec fn enqueued(q: Map<int, Seq<int>>, regs: Seq<int>, c: int) -> Map<int, Seq<int>>
    decreases regs.len()
{
    if regs.len() == 0 { q } else { let p = enqueued(q, regs.drop_last(), c); p.insert(regs.last(), p[regs.last()].push(c)) }
}
/// collector c was sent to exactly these registries, in order
pub open spec fn registered(o: World, n: World, regs: Seq<int>, c: int) -> bool {
    &&& n.sent == o.sent + regs.map_values(|r: int| (r, c))
    &&& n.queue == enqueued(o.queue, regs, c)
}
/// `n` is `o` with new cells, and with collector c sent to `regs`
pub open spec fn grew_and_registered(o: World, n: World, regs: Seq<int>, c: int) -> bool {
    grew(o, World { sent: o.sent, queue: o.queue, ..n }) && registered(o, n, regs, c)
}
pub proof fn registered_step(o: World, m: World, n: World, regs: Seq<int>, i: int, c: int)
    requires 0 <= i < regs.len(), registered(o, m, regs.take(i), c), sent1(m, n, regs[i], c),
    ensures registered(o, n, regs.take(i + 1), c),
{
    assert(regs.take(i + 1).drop_last() =~= regs.take(i));
    assert(n.sent =~= o.sent + regs.take(i + 1).map_values(|r: int| (r, c)));
}
/// the identity of a built metric
pub open spec fn built(o: World, n: World, c: Cfg, name: crate::metric::MetricName, help: Option<String>, labels: crate::label::Labels, ts: crate::timestamp::Timestamp) -> bool {
    &&& nparts(name) == (c.ns, c.ss, c.name)
    &&& sv(help) == c.help
    &&& !o.lab.dom().contains(labels.0.id()) && n.lab.dom().contains(labels.0.id()) && n.lab[labels.0.id()] == c.labels
    &&& fresh(o, n, ts.0.0.id(), i64::MIN as int)
}

//@ fn registry::DEFAULT_GATHERER() props=C16
    ensures true,
//@ fn registry::default_gatherer() props=C16,C18
    ensures r.ch() == default_ch(),
//@ fn registry::default_registry() props=C16,C18
    ensures default_poisoned() || r.tx.ch() == default_ch(),
//@ fn registry::Registry::register(collector) props=C16,C18
    ensures sent1(*old(w), *final(w), self.tx.ch(), collector.id()),
//@ closure 0 entry
    ensures final(collector).id() == old(collector).id(), served(*old(w), *final(w), old(collector).id(), old(metrics)@, final(metrics)@, r),
//@ loop 0 owned
    metrics@ =~= old(metrics)@ + __g0.take(__s0.pos()),
//@ loop 0 post
    proof { assert(__g0.take(__g0.len() as int) =~= __g0); }

//@ spec
pub open spec fn ext_g(b: crate::metrics::gauge::GaugeBuilder) -> F64 { b.initial_value }
pub open spec fn ext_h(b: crate::metrics::histogram::HistogramBuilder) -> Seq<F64> { b.bucket_upper_bounds@ }
pub open spec fn ext_s(b: crate::metrics::summary::SummaryBuilder) -> (Duration, Seq<F64>) { (b.window, b.quantiles@) }
pub open spec fn counter_made(o: World, n: World, c: Cfg, r: crate::metrics::counter::Counter) -> bool {
    let v = r.0.value;
    &&& built(o, n, c, r.0.name, r.0.help, r.0.labels, r.0.timestamp)
    &&& cnt_f(v) != cnt_u(v) && fresh(o, n, cnt_f(v), 0) && fresh(o, n, cnt_u(v), 0)
    &&& grew_and_registered(o, n, c.regs, handle_id(*r.0))
}
pub open spec fn gauge_made(o: World, n: World, c: Cfg, x: F64, r: crate::metrics::gauge::Gauge) -> bool {
    &&& built(o, n, c, r.0.name, r.0.help, r.0.labels, r.0.timestamp)
    &&& fresh(o, n, gid(r), x.bits as int)
    &&& grew_and_registered(o, n, c.regs, handle_id(*r.0))
}
pub open spec fn bounds_valid(b: Seq<F64>) -> bool { forall|i: int| 0 <= i < b.len() ==> !(#[trigger] b[i]).nan() }
pub open spec fn hist_made(o: World, n: World, c: Cfg, b: Seq<F64>, r: crate::metrics::histogram::Histogram) -> bool {
    &&& built(o, n, c, r.0.bucket_name, r.0.help, r.0.labels, r.0.timestamp)
    &&& hist_made2(o, n, b, *r.0)
    &&& b.contains(finf()) ==> hist_ok(*r.0)
    &&& grew_and_registered(o, n, c.regs, handle_id(*r.0))
}
/// one empty bucket for each distinct requested bound, in ascending order
pub open spec fn hist_made2(o: World, n: World, b: Seq<F64>, h: crate::metrics::histogram::Inner) -> bool {
    let s = h.buckets@;
    &&& asc(s) && apart(s)
    &&& forall|i: int| 0 <= i < s.len() ==> fresh(o, n, bid(#[trigger] s[i]), 0) && bid(s[i]) != sum_id(h) && b.contains(s[i].upper_bound)
    &&& forall|k: int| 0 <= k < b.len() ==> bounded(s, #[trigger] b[k])
    &&& fresh(o, n, sum_id(h), 0)
}
pub open spec fn by_bound() -> spec_fn(crate::bucket::Bucket, crate::bucket::Bucket) -> int { |a: crate::bucket::Bucket, b: crate::bucket::Bucket| int_cmp(a.upper_bound.key(), b.upper_bound.key()) }
pub proof fn bound_preorder(s: Seq<crate::bucket::Bucket>)
    ensures preorder(by_bound(), s),
{}
/// the new buckets in some order: one for each requested bound
pub open spec fn one_each(b: Seq<F64>, o: World, n: World, s: Seq<crate::bucket::Bucket>) -> bool {
    &&& apart(s)
    &&& forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).upper_bound.nan() && b.contains(s[i].upper_bound) && fresh(o, n, bid(s[i]), 0)
    &&& forall|k: int| 0 <= k < b.len() ==> bounded(s, #[trigger] b[k])
}
pub open spec fn made_upto(b: Seq<F64>, i: int, o: World, n: World, s: Seq<crate::bucket::Bucket>) -> bool {
    &&& s.len() == i && apart(s)
    &&& forall|k: int| 0 <= k < i ==> !(#[trigger] s[k]).upper_bound.nan() && s[k].upper_bound == b[k] && fresh(o, n, bid(s[k]), 0)
}
pub proof fn made_step(b: Seq<F64>, i: int, o: World, m: World, n: World, s: Seq<crate::bucket::Bucket>, x: crate::bucket::Bucket)
    requires made_upto(b, i, o, m, s), grew(o, m), born(m, n, bid(x), 0), x.upper_bound == b[i], !x.upper_bound.nan(),
    ensures made_upto(b, i + 1, o, n, s.push(x)), grew(o, n),
{
    let t = s.push(x);
    assert forall|k: int| 0 <= k < i + 1 implies !(#[trigger] t[k]).upper_bound.nan() && t[k].upper_bound == b[k] && fresh(o, n, bid(t[k]), 0) by {
        if k < i { assert(t[k] == s[k]); }
    }
    assert forall|k: int, j: int| 0 <= k < j < t.len() implies bid(#[trigger] t[k]) != bid(#[trigger] t[j]) by {
        assert(t[k] == s[k]);
        if j < i { assert(t[j] == s[j]); } else { assert(m.cur.dom().contains(bid(s[k]))); }
    }
}
pub proof fn sorted_buckets(b: Seq<F64>, o: World, n: World, u: Seq<crate::bucket::Bucket>, v: Seq<crate::bucket::Bucket>)
    requires
        sorted_from(u, v, by_bound()), made_upto(b, b.len() as int, o, n, u),
    ensures one_each(b, o, n, v), sorted_by_cmp(v, by_bound()),
{
    reveal(bounded);
    reveal(among);
    let p = sort_perm(u, by_bound());
    assert forall|i: int| 0 <= i < v.len() implies !(#[trigger] v[i]).upper_bound.nan() && b.contains(v[i].upper_bound) && fresh(o, n, bid(v[i]), 0) by {
        assert(v[i] == u[p[i]]);
        assert(u[p[i]].upper_bound == b[p[i]]);
    }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies bid(#[trigger] v[i]) != bid(#[trigger] v[j]) by {
        assert(v[i] == u[p[i]] && v[j] == u[p[j]] && p[i] != p[j]);
        if p[i] < p[j] { assert(bid(u[p[i]]) != bid(u[p[j]])); } else { assert(bid(u[p[j]]) != bid(u[p[i]])); }
    }
    perm_onto(p, u.len() as int);
    assert forall|k: int| 0 <= k < b.len() implies bounded(v, #[trigger] b[k]) by {
        assert(hit(p, k));
        let i = choose|i: int| 0 <= i < p.len() && #[trigger] p[i] == k;
        assert(v[i] == u[k]);
        assert(u[k].upper_bound == b[k]);
        assert(v[i].upper_bound.eq(b[k]));
    }
}
/// o is the first p buckets of g with repeated bounds left out
pub open spec fn deduped(g: Seq<crate::bucket::Bucket>, p: int, o: Seq<crate::bucket::Bucket>) -> bool {
    &&& asc(o) && apart(o)
    &&& p > 0 ==> o.len() > 0 && o.last().upper_bound.key() == g[p - 1].upper_bound.key()
    &&& forall|i: int| 0 <= i < o.len() ==> among(g, p, #[trigger] o[i])
    &&& forall|j: int| 0 <= j < p ==> bounded(o, (#[trigger] g[j]).upper_bound)
}
#[verifier::opaque]
pub open spec fn among(g: Seq<crate::bucket::Bucket>, p: int, x: crate::bucket::Bucket) -> bool { exists|j: int| 0 <= j < p && #[trigger] g[j] == x }
pub proof fn dedup_step(g: Seq<crate::bucket::Bucket>, p: int, o: Seq<crate::bucket::Bucket>, n: Seq<crate::bucket::Bucket>)
    requires
        deduped(g, p, o), 0 <= p < g.len(), sorted_by_cmp(g, by_bound()), apart(g),
        forall|j: int| 0 <= j < g.len() ==> !(#[trigger] g[j]).upper_bound.nan(),
        n == (if o.len() > 0 && g[p].upper_bound.eq(o.last().upper_bound) { o } else { o.push(g[p]) }),
    ensures deduped(g, p + 1, n),
{
    assert forall|i: int| 0 <= i < n.len() implies among(g, p + 1, #[trigger] n[i]) by {
        reveal(among);
        if i < o.len() { assert(n[i] == o[i]); assert(among(g, p, o[i])); let j = choose|j: int| 0 <= j < p && #[trigger] g[j] == o[i]; assert(g[j] == n[i]); }
        else { assert(g[p] == n[i]); }
    }
    assert forall|j: int| 0 <= j < p + 1 implies bounded(n, (#[trigger] g[j]).upper_bound) by {
        reveal(bounded);
        if j < p {
            assert(bounded(o, g[j].upper_bound));
            let i = choose|i: int| 0 <= i < o.len() && (#[trigger] o[i]).upper_bound.eq(g[j].upper_bound);
            assert(n[i] == o[i]);
            assert(n[i].upper_bound.eq(g[j].upper_bound));
        } else {
            assert(n[n.len() - 1].upper_bound.eq(g[p].upper_bound));
        }
    }
    if n != o {
        let k = n.len() - 1;
        assert forall|i: int| 0 <= i < k implies bid(#[trigger] n[i]) != bid(n[k]) by {
            reveal(among);
            assert(n[i] == o[i]); assert(among(g, p, o[i]));
            let j = choose|j: int| 0 <= j < p && #[trigger] g[j] == o[i];
            assert(bid(g[j]) != bid(g[p]));
        }
        assert forall|i: int, j: int| 0 <= i < j < n.len() implies bid(#[trigger] n[i]) != bid(#[trigger] n[j]) by {
            if j < k { assert(n[i] == o[i] && n[j] == o[j]); }
        }
        assert forall|i: int| 0 <= i < n.len() implies !(#[trigger] n[i]).upper_bound.nan() by { if i < k { assert(n[i] == o[i]); } }
        assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).upper_bound.key() < (#[trigger] n[j]).upper_bound.key() by {
            if j < k { assert(n[i] == o[i] && n[j] == o[j]); }
            else {
                assert(n[i] == o[i]);
                assert(p > 0) by { if p == 0 { reveal(among); assert(among(g, p, o[i])); } }
                assert(by_bound()(g[p - 1], g[p]) <= 0);
                assert(o.last().upper_bound.key() == g[p - 1].upper_bound.key());
                assert(!o.last().upper_bound.nan()) by { assert(o[o.len() - 1] == o.last()); }
                assert(g[p - 1].upper_bound.key() < g[p].upper_bound.key());
                if i < o.len() - 1 { assert(o[i].upper_bound.key() < o[o.len() - 1].upper_bound.key()); }
            }
        }
    }
}
pub open spec fn buckets_made(b: Seq<F64>, o: World, n: World, s: Seq<crate::bucket::Bucket>) -> bool {
    &&& asc(s) && apart(s)
    &&& forall|i: int| 0 <= i < s.len() ==> b.contains((#[trigger] s[i]).upper_bound) && fresh(o, n, bid(s[i]), 0)
    &&& forall|k: int| 0 <= k < b.len() ==> bounded(s, #[trigger] b[k])
}
pub proof fn dedup_done(b: Seq<F64>, o: World, n: World, g: Seq<crate::bucket::Bucket>, s: Seq<crate::bucket::Bucket>)
    requires one_each(b, o, n, g), deduped(g, g.len() as int, s),
    ensures buckets_made(b, o, n, s),
{
    assert forall|i: int| 0 <= i < s.len() implies b.contains((#[trigger] s[i]).upper_bound) && fresh(o, n, bid(s[i]), 0) by {
        reveal(among);
        assert(among(g, g.len() as int, s[i]));
        let j = choose|j: int| 0 <= j < g.len() && #[trigger] g[j] == s[i];
    }
    assert forall|k: int| 0 <= k < b.len() implies bounded(s, #[trigger] b[k]) by {
        reveal(bounded);
        assert(bounded(g, b[k]));
        let j = choose|j: int| 0 <= j < g.len() && (#[trigger] g[j]).upper_bound.eq(b[k]);
        assert(bounded(s, g[j].upper_bound));
        let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).upper_bound.eq(g[j].upper_bound);
        assert(s[i].upper_bound.eq(b[k]));
    }
}
/// C09: a histogram built from a builder whose bounds include +Inf (they always do) is in order for good
pub proof fn hist_made_ok(o: World, n: World, b: Seq<F64>, h: crate::metrics::histogram::Inner)
    requires hist_made2(o, n, b, h), b.contains(finf()),
    ensures hist_ok(h),
{
    reveal(bounded);
    reveal(among);
    let s = h.buckets@;
    let k = choose|k: int| 0 <= k < b.len() && b[k] == finf();
    assert(bounded(s, b[k]));
    let i = choose|i: int| 0 <= i < s.len() && (#[trigger] s[i]).upper_bound.eq(finf());
    assert(s[i].upper_bound == finf());
    if i < s.len() - 1 { assert(s[i].upper_bound.key() < s[s.len() - 1].upper_bound.key()); assert(!s[s.len() - 1].upper_bound.nan()); }
}
pub open spec fn linear_bounds(start: F64, width: F64, n: int) -> Seq<F64> { Seq::new(n as nat, |i: int| fadd(start, fmul(of_int(i), width))) }
pub open spec fn exponential_bounds(start: F64, factor: F64, n: int) -> Seq<F64> { Seq::new(n as nat, |i: int| fmul(start, fpowi(factor, i))) }
pub proof fn hist_done(o: World, n: World, b: Seq<F64>)
    ensures forall|h: crate::metrics::histogram::Inner| #[trigger] hist_made2(o, n, b, h) && b.contains(finf()) ==> hist_ok(h),
{
    assert forall|h: crate::metrics::histogram::Inner| #[trigger] hist_made2(o, n, b, h) && b.contains(finf()) implies hist_ok(h) by { hist_made_ok(o, n, b, h); }
}
pub open spec fn good_q(q: F64) -> bool { f0().le(q) && q.le(f1()) }
pub open spec fn quantiles_valid(s: Seq<F64>) -> bool { forall|i: int| 0 <= i < s.len() ==> good_q(#[trigger] s[i]) }
pub open spec fn by_q() -> spec_fn(crate::quantile::Quantile, crate::quantile::Quantile) -> int { |a: crate::quantile::Quantile, b: crate::quantile::Quantile| int_cmp(a.0.key(), b.0.key()) }
pub proof fn q_preorder(s: Seq<crate::quantile::Quantile>)
    ensures preorder(by_q(), s),
{}
/// q are the requested quantiles, every one, in ascending order
pub open spec fn quantiles_of(req: Seq<F64>, q: Seq<crate::quantile::Quantile>) -> bool {
    &&& q.len() == req.len()
    &&& q_ok(q)
    &&& exists|p: Seq<int>| #[trigger] is_perm(p, req.len() as int) && forall|i: int| 0 <= i < q.len() ==> (#[trigger] q[i]).0 == req[p[i]]
}
/// valid quantiles in ascending order
pub open spec fn q_ok(q: Seq<crate::quantile::Quantile>) -> bool {
    &&& forall|i: int| 0 <= i < q.len() ==> good_q((#[trigger] q[i]).0)
    &&& forall|i: int, j: int| 0 <= i < j < q.len() ==> (#[trigger] q[i]).0.key() <= (#[trigger] q[j]).0.key()
}
pub proof fn sorted_quantiles(req: Seq<F64>, u: Seq<crate::quantile::Quantile>, v: Seq<crate::quantile::Quantile>)
    requires sorted_from(u, v, by_q()), u.len() == req.len(), forall|k: int| 0 <= k < u.len() ==> (#[trigger] u[k]).0 == req[k] && good_q(req[k]),
    ensures quantiles_of(req, v),
{
    let p = sort_perm(u, by_q());
    assert forall|i: int| 0 <= i < v.len() implies (#[trigger] v[i]).0 == req[p[i]] && good_q(v[i].0) by { assert(v[i] == u[p[i]]); }
    assert forall|i: int, j: int| 0 <= i < j < v.len() implies (#[trigger] v[i]).0.key() <= (#[trigger] v[j]).0.key() by { assert(by_q()(v[i], v[j]) <= 0); }
    assert(is_perm(p, req.len() as int));
}
pub open spec fn sum_made(o: World, n: World, c: Cfg, e: (Duration, Seq<F64>), r: crate::metrics::summary::Summary) -> bool {
    let h = *r.0;
    &&& built(o, n, c, h.quantile_name, h.help, h.labels, h.timestamp)
    &&& h.window == e.0 && quantiles_of(e.1, h.quantiles@)
    &&& !o.smp.dom().contains(h.samples.id()) && n.smp.dom().contains(h.samples.id()) && n.smp[h.samples.id()] == Seq::<(int, F64)>::empty()
    &&& fresh(o, n, h.count.0.id(), 0) && fresh(o, n, h.sum.0.id(), 0) && h.count.0.id() != h.sum.0.id()
    &&& grew_and_registered(o, n, c.regs, handle_id(*r.0))
}
impl OwnCollector for crate::metrics::summary::SummaryCollector { open spec fn cid(&self) -> int { handle_id(self.0.target()) } }
/// the configuration of a common builder; labels as given, one after another
#[verifier::ext_equal]
pub struct Com { pub ns: Option<Seq<char>>, pub ss: Option<Seq<char>>, pub labels: Seq<LV>, pub regs: Seq<int> }
pub open spec fn cfg_m(b: crate::metrics::builder::MetricBuilder) -> Com {
    Com { ns: sv(b.namespace), ss: sv(b.subsystem), labels: pviews(b.labels@), regs: chs(b.registries@) }
}
/// the value `name` was given last
pub open spec fn last_given(l: Seq<LV>, name: Seq<char>) -> Option<Seq<char>>
    decreases l.len()
{
    if l.len() == 0 { None } else if l.last().0 == name { Some(l.last().1) } else { last_given(l.drop_last(), name) }
}
/// m is the map that giving the labels l one after another leads to
pub open spec fn replayed(l: Seq<LV>, m: Seq<LV>) -> bool { lab_ok(m) && forall|x: LV| #[trigger] has(m, x) <==> last_given(l, x.0) == Some(x.1) }
pub open spec fn inherits(b: Com, c: Cfg, name: Seq<char>) -> bool {
    c == (Cfg { ns: b.ns, ss: b.ss, labels: c.labels, regs: b.regs, ..cfg_new(name) }) && replayed(b.labels, c.labels)
}
pub proof fn replay_none(l: Seq<LV>)
    requires l.len() == 0,
    ensures replayed(l, Seq::empty()),
{}
pub proof fn replay_step(l: Seq<LV>, i: int, a: Seq<LV>, b: Seq<LV>)
    requires 0 <= i < l.len(), replayed(l.take(i), a), is_put(a, b, l[i].0, l[i].1),
    ensures replayed(l.take(i + 1), b),
{
    assert(l.take(i + 1).drop_last() =~= l.take(i));
    assert(l.take(i + 1).last() == l[i]);
}
/// some bucket has this bound (as a number)
#[verifier::opaque]
pub open spec fn bounded(s: Seq<crate::bucket::Bucket>, x: F64) -> bool { exists|i: int| 0 <= i < s.len() && (#[trigger] s[i]).upper_bound.eq(x) }

//@ fn metrics::counter::CounterBuilder::new(name) props=C18
    ensures cfg_c(r) == cfg_new(name@),
//@ entry
    proof { assert(pviews(Seq::empty()) =~= Seq::empty()); assert(chs(Seq::empty()) =~= Seq::empty()); }

//@ fn metrics::counter::CounterBuilder::namespace(namespace) props=C18
    ensures cfg_c(*r) == (Cfg { ns: Some(namespace@), ..cfg_c(*old(self)) }), *final(r) == *final(self),
//@ fn metrics::counter::CounterBuilder::subsystem(subsystem) props=C18
    ensures cfg_c(*r) == (Cfg { ss: Some(subsystem@), ..cfg_c(*old(self)) }), *final(r) == *final(self),
//@ fn metrics::counter::CounterBuilder::help(help) props=C18
    ensures cfg_c(*r) == (Cfg { help: Some(help@), ..cfg_c(*old(self)) }), *final(r) == *final(self),
//@ fn metrics::counter::CounterBuilder::label(name, value) props=C03,C18
    ensures cfg_label(cfg_c(*old(self)), cfg_c(*r), name@, value@), *final(r) == *final(self),
//@ loop 0 owned
    *self == (crate::metrics::counter::CounterBuilder { labels: self.labels, ..*old(self) }),
    __g0 == old(self).labels@,
    pviews(self.labels@) =~= without(pviews(__g0).take(__s0.pos()), name@),
//@ loop 0 body
    proof {
        let t = pviews(__g0);
        let p = __s0.pos();
        assert(t.take(p).drop_last() =~= t.take(p - 1));
        assert(t.take(p).last() == pview(__x0));
    }
//@ loop 0 post
    proof { let t = pviews(__g0); assert(t.take(t.len() as int) =~= t); }
//@ sort 0
    proof { pair_preorder($v@); }
//@ sorted 0
    proof {
        let a = pviews(old(self).labels@);
        assert(pviews($u) =~= without(a, name@).push((name@, value@)));
        if lab_ok(a) { pair_put_sorted(a, $u, $v@, name@, value@); }
    }
//@ fn metrics::counter::CounterBuilder::registry(registry) props=C18
    ensures cfg_c(*r) == (Cfg { regs: cfg_c(*old(self)).regs.push(registry.tx.ch()), ..cfg_c(*old(self)) }), *final(r) == *final(self),
//@ exit
    proof { assert(chs(self.registries@) =~= chs(old(self).registries@).push(registry.tx.ch())); }
//@ fn metrics::counter::CounterBuilder::default_registry() props=C18
    ensures exists|ch: int| (default_poisoned() || ch == default_ch()) && cfg_c(*r) == (Cfg { regs: #[trigger] cfg_c(*old(self)).regs.push(ch), ..cfg_c(*old(self)) }), *final(r) == *final(self),

//@ fn metrics::counter::CounterBuilder::finish() props=C01,C02,C03,C06,C18
    ensures
        r is Ok <==> cfg_valid(cfg_c(*self), None),
        match r { Ok(c) => counter_made(*old(w), *final(w), cfg_c(*self), c), Err(e) => e is InvalidInput && grew(*old(w), *final(w)) },
//@ loop 0 slice
    *w == *old(w),
    __s0@ == self.labels@,
    __err0 is None ==> (forall|i: int| 0 <= i < __i0 ==> good_label((#[trigger] pviews(self.labels@)[i]).0)) && lviews(__acc0@) =~= pviews(self.labels@).take(__i0 as int),
    __err0 is Some ==> __err0->0 is InvalidInput && !cfg_valid(cfg_c(*self), None),
//@ loop 0 body
    proof { let t = cfg_c(*self).labels; assert(t[__i0 - 1] == pview(*__x0)); }
//@ loop 0 post
    proof { let t = pviews(self.labels@); assert(t.take(t.len() as int) =~= t); }
//@ loop 1 slice
    __s1@ == self.registries@,
    *w == (World { sent: w.sent, queue: w.queue, ..__w1 }),
    registered(__w1, *w, chs(self.registries@).take(__i1 as int), __cid),
//@ loop 1 pre
    let ghost __w1 = *w;
    let ghost __cid = arc_id(&counter.0);
    proof { assert(__w1.sent + chs(self.registries@).take(0).map_values(|r: int| (r, __cid)) =~= __w1.sent); }
//@ loop 1 body
    proof { assert(chs(self.registries@)[__i1 - 1] == __x1.tx.ch()); }
    let ghost __m1 = *w;
//@ loop 1 end
    proof { registered_step(__w1, __m1, *w, chs(self.registries@), __i1 - 1, __cid); }
//@ loop 1 post
    proof { let t = chs(self.registries@); assert(t.take(t.len() as int) =~= t); }

//@ fn metrics::counter::Counter::new(name) props=C01,C18
    ensures
        r is Ok <==> good_name(name@),
        match r { Ok(c) => counter_made(*old(w), *final(w), cfg_new(name@), c), Err(e) => e is InvalidInput && grew(*old(w), *final(w)) },
//@ fn metrics::gauge::GaugeBuilder::new(name) props=C08,C18
    ensures cfg_g(r) == cfg_new(name@), ext_g(r) == f0(),
//@ entry
    proof { assert(pviews(Seq::empty()) =~= Seq::empty()); assert(chs(Seq::empty()) =~= Seq::empty()); }

//@ fn metrics::gauge::GaugeBuilder::namespace(namespace) props=C18
    ensures cfg_g(*r) == (Cfg { ns: Some(namespace@), ..cfg_g(*old(self)) }), *final(r) == *final(self), ext_g(*r) == ext_g(*old(self)),
//@ fn metrics::gauge::GaugeBuilder::subsystem(subsystem) props=C18
    ensures cfg_g(*r) == (Cfg { ss: Some(subsystem@), ..cfg_g(*old(self)) }), *final(r) == *final(self), ext_g(*r) == ext_g(*old(self)),
//@ fn metrics::gauge::GaugeBuilder::help(help) props=C18
    ensures cfg_g(*r) == (Cfg { help: Some(help@), ..cfg_g(*old(self)) }), *final(r) == *final(self), ext_g(*r) == ext_g(*old(self)),
//@ fn metrics::gauge::GaugeBuilder::label(name, value) props=C03,C18
    ensures cfg_label(cfg_g(*old(self)), cfg_g(*r), name@, value@), *final(r) == *final(self), ext_g(*r) == ext_g(*old(self)),
//@ loop 0 owned
    *self == (crate::metrics::gauge::GaugeBuilder { labels: self.labels, ..*old(self) }),
    __g0 == old(self).labels@,
    pviews(self.labels@) =~= without(pviews(__g0).take(__s0.pos()), name@),
//@ loop 0 body
    proof {
        let t = pviews(__g0);
        let p = __s0.pos();
        assert(t.take(p).drop_last() =~= t.take(p - 1));
        assert(t.take(p).last() == pview(__x0));
    }
//@ loop 0 post
    proof { let t = pviews(__g0); assert(t.take(t.len() as int) =~= t); }
//@ sort 0
    proof { pair_preorder($v@); }
//@ sorted 0
    proof {
        let a = pviews(old(self).labels@);
        assert(pviews($u) =~= without(a, name@).push((name@, value@)));
        if lab_ok(a) { pair_put_sorted(a, $u, $v@, name@, value@); }
    }
//@ fn metrics::gauge::GaugeBuilder::registry(registry) props=C18
    ensures cfg_g(*r) == (Cfg { regs: cfg_g(*old(self)).regs.push(registry.tx.ch()), ..cfg_g(*old(self)) }), *final(r) == *final(self), ext_g(*r) == ext_g(*old(self)),
//@ exit
    proof { assert(chs(self.registries@) =~= chs(old(self).registries@).push(registry.tx.ch())); }
//@ fn metrics::gauge::GaugeBuilder::default_registry() props=C18
    ensures exists|ch: int| (default_poisoned() || ch == default_ch()) && cfg_g(*r) == (Cfg { regs: #[trigger] cfg_g(*old(self)).regs.push(ch), ..cfg_g(*old(self)) }), *final(r) == *final(self), ext_g(*r) == ext_g(*old(self)),

//@ fn metrics::gauge::GaugeBuilder::initial_value(value) props=C08,C18
    ensures cfg_g(*r) == cfg_g(*old(self)), ext_g(*r) == value, *final(r) == *final(self),
//@ fn metrics::gauge::GaugeBuilder::finish() props=C01,C02,C03,C08,C18
    ensures
        r is Ok <==> cfg_valid(cfg_g(*self), None),
        match r { Ok(g) => gauge_made(*old(w), *final(w), cfg_g(*self), ext_g(*self), g), Err(e) => e is InvalidInput && grew(*old(w), *final(w)) },
//@ loop 0 slice
    *w == *old(w),
    __s0@ == self.labels@,
    __err0 is None ==> (forall|i: int| 0 <= i < __i0 ==> good_label((#[trigger] pviews(self.labels@)[i]).0)) && lviews(__acc0@) =~= pviews(self.labels@).take(__i0 as int),
    __err0 is Some ==> __err0->0 is InvalidInput && !cfg_valid(cfg_g(*self), None),
//@ loop 0 body
    proof { let t = cfg_g(*self).labels; assert(t[__i0 - 1] == pview(*__x0)); }
//@ loop 0 post
    proof { let t = pviews(self.labels@); assert(t.take(t.len() as int) =~= t); }
//@ loop 1 slice
    __s1@ == self.registries@,
    *w == (World { sent: w.sent, queue: w.queue, ..__w1 }),
    registered(__w1, *w, chs(self.registries@).take(__i1 as int), __cid),
//@ loop 1 pre
    let ghost __w1 = *w;
    let ghost __cid = arc_id(&gauge.0);
    proof { assert(__w1.sent + chs(self.registries@).take(0).map_values(|r: int| (r, __cid)) =~= __w1.sent); }
//@ loop 1 body
    proof { assert(chs(self.registries@)[__i1 - 1] == __x1.tx.ch()); }
    let ghost __m1 = *w;
//@ loop 1 end
    proof { registered_step(__w1, __m1, *w, chs(self.registries@), __i1 - 1, __cid); }
//@ loop 1 post
    proof { let t = chs(self.registries@); assert(t.take(t.len() as int) =~= t); }

//@ fn metrics::gauge::Gauge::new(name) props=C01,C08,C18
    ensures
        r is Ok <==> good_name(name@),
        match r { Ok(g) => gauge_made(*old(w), *final(w), cfg_new(name@), f0(), g), Err(e) => e is InvalidInput && grew(*old(w), *final(w)) },
//@ fn metrics::histogram::HistogramBuilder::new(name) props=C09,C18
    ensures cfg_h(r) == cfg_new(name@), ext_h(r) == seq![finf()],
//@ entry
    proof { assert(pviews(Seq::empty()) =~= Seq::empty()); assert(chs(Seq::empty()) =~= Seq::empty()); }

//@ fn metrics::histogram::HistogramBuilder::namespace(namespace) props=C18
    ensures cfg_h(*r) == (Cfg { ns: Some(namespace@), ..cfg_h(*old(self)) }), *final(r) == *final(self), ext_h(*r) == ext_h(*old(self)),
//@ fn metrics::histogram::HistogramBuilder::subsystem(subsystem) props=C18
    ensures cfg_h(*r) == (Cfg { ss: Some(subsystem@), ..cfg_h(*old(self)) }), *final(r) == *final(self), ext_h(*r) == ext_h(*old(self)),
//@ fn metrics::histogram::HistogramBuilder::help(help) props=C18
    ensures cfg_h(*r) == (Cfg { help: Some(help@), ..cfg_h(*old(self)) }), *final(r) == *final(self), ext_h(*r) == ext_h(*old(self)),
//@ fn metrics::histogram::HistogramBuilder::label(name, value) props=C03,C18
    ensures cfg_label(cfg_h(*old(self)), cfg_h(*r), name@, value@), *final(r) == *final(self), ext_h(*r) == ext_h(*old(self)),
//@ loop 0 owned
    *self == (crate::metrics::histogram::HistogramBuilder { labels: self.labels, ..*old(self) }),
    __g0 == old(self).labels@,
    pviews(self.labels@) =~= without(pviews(__g0).take(__s0.pos()), name@),
//@ loop 0 body
    proof {
        let t = pviews(__g0);
        let p = __s0.pos();
        assert(t.take(p).drop_last() =~= t.take(p - 1));
        assert(t.take(p).last() == pview(__x0));
    }
//@ loop 0 post
    proof { let t = pviews(__g0); assert(t.take(t.len() as int) =~= t); }
//@ sort 0
    proof { pair_preorder($v@); }
//@ sorted 0
    proof {
        let a = pviews(old(self).labels@);
        assert(pviews($u) =~= without(a, name@).push((name@, value@)));
        if lab_ok(a) { pair_put_sorted(a, $u, $v@, name@, value@); }
    }
//@ fn metrics::histogram::HistogramBuilder::registry(registry) props=C18
    ensures cfg_h(*r) == (Cfg { regs: cfg_h(*old(self)).regs.push(registry.tx.ch()), ..cfg_h(*old(self)) }), *final(r) == *final(self), ext_h(*r) == ext_h(*old(self)),
//@ exit
    proof { assert(chs(self.registries@) =~= chs(old(self).registries@).push(registry.tx.ch())); }
//@ fn metrics::histogram::HistogramBuilder::default_registry() props=C18
    ensures exists|ch: int| (default_poisoned() || ch == default_ch()) && cfg_h(*r) == (Cfg { regs: #[trigger] cfg_h(*old(self)).regs.push(ch), ..cfg_h(*old(self)) }), *final(r) == *final(self), ext_h(*r) == ext_h(*old(self)),

//@ fn metrics::histogram::HistogramBuilder::bucket(upper_bound) props=C09,C18
    ensures cfg_h(*r) == cfg_h(*old(self)), ext_h(*r) == ext_h(*old(self)).push(upper_bound), *final(r) == *final(self),
//@ fn metrics::histogram::HistogramBuilder::buckets(upper_bounds) props=C09,C18
    ensures cfg_h(*r) == cfg_h(*old(self)), ext_h(*r) == ext_h(*old(self)) + upper_bounds@, *final(r) == *final(self),
//@ fn metrics::histogram::HistogramBuilder::with_linear_buckets(name, start, width, count) props=C09,C18
    ensures cfg_h(r) == cfg_new(name@), ext_h(r) == seq![finf()] + linear_bounds(start, width, count as int),
//@ loop 0 range
    __i0 <= __e0, cfg_h(this) == cfg_new(name@), ext_h(this) =~= seq![finf()] + linear_bounds(start, width, __i0 as int),
//@ fn metrics::histogram::HistogramBuilder::with_exponential_buckets(name, start, factor, count) props=C09,C18
    requires count <= i32::MAX,
    ensures cfg_h(r) == cfg_new(name@), ext_h(r) == seq![finf()] + exponential_bounds(start, factor, count as int),
//@ loop 0 range
    __i0 <= __e0, cfg_h(this) == cfg_new(name@), ext_h(this) =~= seq![finf()] + exponential_bounds(start, factor, __i0 as int),
//@ fn metrics::histogram::HistogramBuilder::finish() props=C01,C02,C03,C09,C18
    ensures
        r is Ok <==> cfg_valid(cfg_h(*self), Some("le"@)) && bounds_valid(ext_h(*self)),
        match r { Ok(h) => hist_made(*old(w), *final(w), cfg_h(*self), ext_h(*self), h), Err(e) => e is InvalidInput && grew(*old(w), *final(w)) },
//@ loop 0 slice
    *w == *old(w),
    __s0@ == self.labels@,
    __err0 is None ==> (forall|i: int| 0 <= i < __i0 ==> good_label((#[trigger] pviews(self.labels@)[i]).0) && "le"@ != pviews(self.labels@)[i].0) && lviews(__acc0@) =~= pviews(self.labels@).take(__i0 as int),
    __err0 is Some ==> __err0->0 is InvalidInput && !cfg_valid(cfg_h(*self), Some("le"@)),
//@ loop 0 body
    proof { let t = cfg_h(*self).labels; assert(t[__i0 - 1] == pview(*__x0)); }
//@ loop 0 post
    proof { let t = pviews(self.labels@); assert(t.take(t.len() as int) =~= t); }
//@ loop 1 slice
    __s1@ == self.bucket_upper_bounds@,
    grew(*old(w), *w),
    __err1 is None ==> made_upto(self.bucket_upper_bounds@, __i1 as int, *old(w), *w, __acc1@),
    __err1 is Some ==> __err1->0 is InvalidInput && !bounds_valid(self.bucket_upper_bounds@),
//@ loop 1 post
    proof {
        if __err1 is None {
            let b = self.bucket_upper_bounds@;
            assert forall|k: int| 0 <= k < b.len() implies !(#[trigger] b[k]).nan() by { assert(__acc1@[k].upper_bound == b[k]); }
        }
    }
//@ loop 1 body
    let ghost __a1 = __acc1@;
    let ghost __v1 = *w;
//@ loop 1 end
    proof { if __err1 is None { assert(__acc1@ == __a1.push(__acc1@.last())); made_step(self.bucket_upper_bounds@, __i1 - 1, *old(w), __v1, *w, __a1, __acc1@.last()); } }
//@ loop 2 owned
    deduped(__g2, __s2.pos(), buckets@),
//@ loop 2 body
    let ghost __b2 = buckets@;
//@ loop 2 end
    proof { dedup_step(__g2, __s2.pos() - 1, __b2, buckets@); }
//@ loop 2 post
    proof { dedup_done(self.bucket_upper_bounds@, *old(w), *w, __g2, buckets@); }
//@ closure 0 req |b: crate::bucket::Bucket| !b.upper_bound.nan()
//@ closure 0 cmp by_bound()
//@ sort 0
    proof { bound_preorder($v@); }
//@ sorted 0
    proof { sorted_buckets(self.bucket_upper_bounds@, *old(w), *w, $u, $v@); }
//@ loop 3 slice
    __s3@ == self.registries@,
    *w == (World { sent: w.sent, queue: w.queue, ..__w1 }),
    registered(__w1, *w, chs(self.registries@).take(__i3 as int), __cid),
//@ loop 3 pre
    let ghost __w1 = *w;
    let ghost __cid = arc_id(&histogram.0);
    proof { assert(__w1.sent + chs(self.registries@).take(0).map_values(|r: int| (r, __cid)) =~= __w1.sent); }
//@ loop 3 body
    proof { assert(chs(self.registries@)[__i3 - 1] == __x3.tx.ch()); }
    let ghost __m1 = *w;
//@ loop 3 end
    proof { registered_step(__w1, __m1, *w, chs(self.registries@), __i3 - 1, __cid); }
//@ loop 3 post
    proof { let t = chs(self.registries@); assert(t.take(t.len() as int) =~= t); }

//@ exit
    proof { hist_done(*old(w), *w, ext_h(*self)); if __r is Ok { assert(hist_made2(*old(w), *w, ext_h(*self), *(__r->Ok_0).0)); } }
//@ fn metrics::histogram::Histogram::new(name) props=C01,C09,C18
    ensures
        r is Ok <==> good_name(name@),
        match r { Ok(h) => hist_made(*old(w), *final(w), cfg_new(name@), seq![finf()], h) && hist_ok(*h.0), Err(e) => e is InvalidInput && grew(*old(w), *final(w)) },
//@ exit
    proof {
        assert(seq![finf()][0] == finf());
    }

//@ fn quantile::Quantile::new(quantile) props=C12,C18
    ensures r is Ok <==> good_q(quantile), match r { Ok(q) => q.0 == quantile, Err(e) => e is InvalidInput },
//@ fn quantile::Quantile::as_f64() props=C05,C12
    ensures r == self.0,
//@ fn metrics::summary::SummaryBuilder::new(name, window) props=C12,C18
    ensures cfg_s(r) == cfg_new(name@), ext_s(r) == (window, Seq::<F64>::empty()),
//@ entry
    proof { assert(pviews(Seq::empty()) =~= Seq::empty()); assert(chs(Seq::empty()) =~= Seq::empty()); }

//@ fn metrics::summary::SummaryBuilder::namespace(namespace) props=C18
    ensures cfg_s(*r) == (Cfg { ns: Some(namespace@), ..cfg_s(*old(self)) }), *final(r) == *final(self), ext_s(*r) == ext_s(*old(self)),
//@ fn metrics::summary::SummaryBuilder::subsystem(subsystem) props=C18
    ensures cfg_s(*r) == (Cfg { ss: Some(subsystem@), ..cfg_s(*old(self)) }), *final(r) == *final(self), ext_s(*r) == ext_s(*old(self)),
//@ fn metrics::summary::SummaryBuilder::help(help) props=C18
    ensures cfg_s(*r) == (Cfg { help: Some(help@), ..cfg_s(*old(self)) }), *final(r) == *final(self), ext_s(*r) == ext_s(*old(self)),
//@ fn metrics::summary::SummaryBuilder::label(name, value) props=C03,C18
    ensures cfg_label(cfg_s(*old(self)), cfg_s(*r), name@, value@), *final(r) == *final(self), ext_s(*r) == ext_s(*old(self)),
//@ loop 0 owned
    *self == (crate::metrics::summary::SummaryBuilder { labels: self.labels, ..*old(self) }),
    __g0 == old(self).labels@,
    pviews(self.labels@) =~= without(pviews(__g0).take(__s0.pos()), name@),
//@ loop 0 body
    proof {
        let t = pviews(__g0);
        let p = __s0.pos();
        assert(t.take(p).drop_last() =~= t.take(p - 1));
        assert(t.take(p).last() == pview(__x0));
    }
//@ loop 0 post
    proof { let t = pviews(__g0); assert(t.take(t.len() as int) =~= t); }
//@ sort 0
    proof { pair_preorder($v@); }
//@ sorted 0
    proof {
        let a = pviews(old(self).labels@);
        assert(pviews($u) =~= without(a, name@).push((name@, value@)));
        if lab_ok(a) { pair_put_sorted(a, $u, $v@, name@, value@); }
    }
//@ fn metrics::summary::SummaryBuilder::registry(registry) props=C18
    ensures cfg_s(*r) == (Cfg { regs: cfg_s(*old(self)).regs.push(registry.tx.ch()), ..cfg_s(*old(self)) }), *final(r) == *final(self), ext_s(*r) == ext_s(*old(self)),
//@ exit
    proof { assert(chs(self.registries@) =~= chs(old(self).registries@).push(registry.tx.ch())); }
//@ fn metrics::summary::SummaryBuilder::default_registry() props=C18
    ensures exists|ch: int| (default_poisoned() || ch == default_ch()) && cfg_s(*r) == (Cfg { regs: #[trigger] cfg_s(*old(self)).regs.push(ch), ..cfg_s(*old(self)) }), *final(r) == *final(self), ext_s(*r) == ext_s(*old(self)),

//@ fn metrics::summary::SummaryBuilder::quantile(quantile) props=C12,C18
    ensures cfg_s(*r) == cfg_s(*old(self)), ext_s(*r) == (ext_s(*old(self)).0, ext_s(*old(self)).1.push(quantile)), *final(r) == *final(self),
//@ fn metrics::summary::SummaryBuilder::finish() props=C01,C02,C03,C12,C18
    ensures
        r is Ok <==> cfg_valid(cfg_s(*self), Some("quantile"@)) && quantiles_valid(ext_s(*self).1),
        match r { Ok(s) => sum_made(*old(w), *final(w), cfg_s(*self), ext_s(*self), s), Err(e) => e is InvalidInput && grew(*old(w), *final(w)) },
//@ entry
    proof { assert(sviews(Seq::empty()) =~= Seq::empty()); }
//@ loop 0 slice
    *w == *old(w),
    __s0@ == self.labels@,
    __err0 is None ==> (forall|i: int| 0 <= i < __i0 ==> good_label((#[trigger] pviews(self.labels@)[i]).0) && "quantile"@ != pviews(self.labels@)[i].0) && lviews(__acc0@) =~= pviews(self.labels@).take(__i0 as int),
    __err0 is Some ==> __err0->0 is InvalidInput && !cfg_valid(cfg_s(*self), Some("quantile"@)),
//@ loop 0 body
    proof { let t = cfg_s(*self).labels; assert(t[__i0 - 1] == pview(*__x0)); }
//@ loop 0 post
    proof { let t = pviews(self.labels@); assert(t.take(t.len() as int) =~= t); }
//@ loop 1 slice
    __s1@ == self.quantiles@,
    __err1 is None ==> __acc1@.len() == __i1 && (forall|k: int| 0 <= k < __i1 ==> (#[trigger] __acc1@[k]).0 == self.quantiles@[k] && good_q(self.quantiles@[k])),
    __err1 is Some ==> __err1->0 is InvalidInput && !quantiles_valid(self.quantiles@),
//@ loop 1 post
    proof {
        if __err1 is None {
            let b = self.quantiles@;
            assert forall|k: int| 0 <= k < b.len() implies good_q(#[trigger] b[k]) by { assert(__acc1@[k].0 == b[k]); }
        }
    }
//@ closure 0 req |b: crate::quantile::Quantile| good_q(b.0)
//@ closure 0 cmp by_q()
//@ sort 0
    proof { q_preorder($v@); }
//@ sorted 0
    proof { sorted_quantiles(self.quantiles@, $u, $v@); }
//@ loop 2 slice
    __s2@ == self.registries@,
    *w == (World { sent: w.sent, queue: w.queue, ..__w1 }),
    registered(__w1, *w, chs(self.registries@).take(__i2 as int), __cid),
//@ loop 2 pre
    let ghost __w1 = *w;
    let ghost __cid = arc_id(&summary.0);
    proof { assert(__w1.sent + chs(self.registries@).take(0).map_values(|r: int| (r, __cid)) =~= __w1.sent); }
//@ loop 2 body
    proof { assert(chs(self.registries@)[__i2 - 1] == __x2.tx.ch()); }
    let ghost __m1 = *w;
//@ loop 2 end
    proof { registered_step(__w1, __m1, *w, chs(self.registries@), __i2 - 1, __cid); }
//@ loop 2 post
    proof { let t = chs(self.registries@); assert(t.take(t.len() as int) =~= t); }

//@ fn metrics::summary::Summary::new(name, window) props=C01,C12,C18
    ensures
        r is Ok <==> good_name(name@),
        match r { Ok(s) => sum_made(*old(w), *final(w), cfg_new(name@), (window, Seq::<F64>::empty()), s), Err(e) => e is InvalidInput && grew(*old(w), *final(w)) },

//@ fn metrics::builder::MetricBuilder::new() props=C18
    ensures cfg_m(r) =~= (Com { ns: None, ss: None, labels: Seq::empty(), regs: cfg_m(r).regs }), cfg_m(r).regs.len() == 1, default_poisoned() || cfg_m(r).regs[0] == default_ch(),
//@ entry
    proof { assert(pviews(Seq::empty()) =~= Seq::empty()); }
//@ fn metrics::builder::MetricBuilder::with_registry(registry) props=C18
    ensures cfg_m(r) =~= (Com { ns: None, ss: None, labels: Seq::empty(), regs: seq![registry.tx.ch()] }),
//@ entry
    proof { assert(pviews(Seq::empty()) =~= Seq::empty()); assert(chs(seq![registry]) =~= seq![registry.tx.ch()]); }
//@ fn metrics::builder::MetricBuilder::without_registry() props=C18
    ensures cfg_m(r) =~= (Com { ns: None, ss: None, labels: Seq::empty(), regs: Seq::empty() }),
//@ entry
    proof { assert(pviews(Seq::empty()) =~= Seq::empty()); assert(chs(Seq::empty()) =~= Seq::empty()); }
//@ fn metrics::builder::MetricBuilder::namespace(namespace) props=C18
    ensures cfg_m(*r) == (Com { ns: Some(namespace@), ..cfg_m(*old(self)) }), *final(r) == *final(self),
//@ fn metrics::builder::MetricBuilder::subsystem(subsystem) props=C18
    ensures cfg_m(*r) == (Com { ss: Some(subsystem@), ..cfg_m(*old(self)) }), *final(r) == *final(self),
//@ fn metrics::builder::MetricBuilder::label(name, value) props=C03,C18
    ensures cfg_m(*r) == (Com { labels: cfg_m(*old(self)).labels.push((name@, value@)), ..cfg_m(*old(self)) }), *final(r) == *final(self),
//@ exit
    proof { assert(pviews(self.labels@) =~= pviews(old(self).labels@).push((name@, value@))); }
//@ fn metrics::builder::MetricBuilder::registry(registry) props=C18
    ensures cfg_m(*r) == (Com { regs: cfg_m(*old(self)).regs.push(registry.tx.ch()), ..cfg_m(*old(self)) }), *final(r) == *final(self),
//@ exit
    proof { assert(chs(self.registries@) =~= chs(old(self).registries@).push(registry.tx.ch())); }
//@ fn metrics::builder::MetricBuilder::set_registry(registry) props=C18
    ensures cfg_m(*r) == (Com { regs: seq![registry.tx.ch()], ..cfg_m(*old(self)) }), *final(r) == *final(self),
//@ entry
    proof { assert(chs(seq![registry]) =~= seq![registry.tx.ch()]); }

//@ fn metrics::builder::MetricBuilder::counter(name) props=C18
    ensures inherits(cfg_m(*self), cfg_c(r), name@),
//@ loop 0 slice
    __s0@ == self.labels@, cfg_c(builder) == (Cfg { ns: sv(self.namespace), ss: sv(self.subsystem), labels: cfg_c(builder).labels, ..cfg_new(name@) }),
    replayed(pviews(self.labels@).take(__i0 as int), cfg_c(builder).labels),
//@ loop 0 pre
    proof { replay_none(pviews(self.labels@).take(0)); }
//@ loop 0 body
    let ghost __l0 = cfg_c(builder).labels;
    proof { assert(pviews(self.labels@)[__i0 - 1] == pview(*__x0)); }
//@ loop 0 end
    proof { replay_step(pviews(self.labels@), __i0 - 1, __l0, cfg_c(builder).labels); }
//@ loop 0 post
    proof { let t = pviews(self.labels@); assert(t.take(t.len() as int) =~= t); }
//@ loop 1 slice
    __s1@ == self.registries@,
    cfg_c(builder) == (Cfg { ns: sv(self.namespace), ss: sv(self.subsystem), labels: cfg_c(builder).labels, regs: chs(self.registries@).take(__i1 as int), ..cfg_new(name@) }),
    replayed(pviews(self.labels@), cfg_c(builder).labels),
//@ loop 1 pre
    proof { assert(chs(self.registries@).take(0) =~= Seq::empty()); }
//@ loop 1 end
    proof { let t = chs(self.registries@); assert(t[__i1 - 1] == __x1.tx.ch()); assert(t.take(__i1 as int) =~= t.take(__i1 - 1).push(t[__i1 - 1])); }
//@ loop 1 post
    proof { let t = chs(self.registries@); assert(t.take(t.len() as int) =~= t); }

//@ fn metrics::builder::MetricBuilder::gauge(name) props=C18
    ensures inherits(cfg_m(*self), cfg_g(r), name@), ext_g(r) == f0(),
//@ loop 0 slice
    __s0@ == self.labels@, cfg_g(builder) == (Cfg { ns: sv(self.namespace), ss: sv(self.subsystem), labels: cfg_g(builder).labels, ..cfg_new(name@) }), ext_g(builder) == f0(),
    replayed(pviews(self.labels@).take(__i0 as int), cfg_g(builder).labels),
//@ loop 0 pre
    proof { replay_none(pviews(self.labels@).take(0)); }
//@ loop 0 body
    let ghost __l0 = cfg_g(builder).labels;
    proof { assert(pviews(self.labels@)[__i0 - 1] == pview(*__x0)); }
//@ loop 0 end
    proof { replay_step(pviews(self.labels@), __i0 - 1, __l0, cfg_g(builder).labels); }
//@ loop 0 post
    proof { let t = pviews(self.labels@); assert(t.take(t.len() as int) =~= t); }
//@ loop 1 slice
    __s1@ == self.registries@,
    cfg_g(builder) == (Cfg { ns: sv(self.namespace), ss: sv(self.subsystem), labels: cfg_g(builder).labels, regs: chs(self.registries@).take(__i1 as int), ..cfg_new(name@) }), ext_g(builder) == f0(),
    replayed(pviews(self.labels@), cfg_g(builder).labels),
//@ loop 1 pre
    proof { assert(chs(self.registries@).take(0) =~= Seq::empty()); }
//@ loop 1 end
    proof { let t = chs(self.registries@); assert(t[__i1 - 1] == __x1.tx.ch()); assert(t.take(__i1 as int) =~= t.take(__i1 - 1).push(t[__i1 - 1])); }
//@ loop 1 post
    proof { let t = chs(self.registries@); assert(t.take(t.len() as int) =~= t); }

//@ fn metrics::builder::MetricBuilder::histogram(name) props=C18
    ensures inherits(cfg_m(*self), cfg_h(r), name@), ext_h(r) == seq![finf()],
//@ loop 0 slice
    __s0@ == self.labels@, cfg_h(builder) == (Cfg { ns: sv(self.namespace), ss: sv(self.subsystem), labels: cfg_h(builder).labels, ..cfg_new(name@) }), ext_h(builder) == seq![finf()],
    replayed(pviews(self.labels@).take(__i0 as int), cfg_h(builder).labels),
//@ loop 0 pre
    proof { replay_none(pviews(self.labels@).take(0)); }
//@ loop 0 body
    let ghost __l0 = cfg_h(builder).labels;
    proof { assert(pviews(self.labels@)[__i0 - 1] == pview(*__x0)); }
//@ loop 0 end
    proof { replay_step(pviews(self.labels@), __i0 - 1, __l0, cfg_h(builder).labels); }
//@ loop 0 post
    proof { let t = pviews(self.labels@); assert(t.take(t.len() as int) =~= t); }
//@ loop 1 slice
    __s1@ == self.registries@,
    cfg_h(builder) == (Cfg { ns: sv(self.namespace), ss: sv(self.subsystem), labels: cfg_h(builder).labels, regs: chs(self.registries@).take(__i1 as int), ..cfg_new(name@) }), ext_h(builder) == seq![finf()],
    replayed(pviews(self.labels@), cfg_h(builder).labels),
//@ loop 1 pre
    proof { assert(chs(self.registries@).take(0) =~= Seq::empty()); }
//@ loop 1 end
    proof { let t = chs(self.registries@); assert(t[__i1 - 1] == __x1.tx.ch()); assert(t.take(__i1 as int) =~= t.take(__i1 - 1).push(t[__i1 - 1])); }
//@ loop 1 post
    proof { let t = chs(self.registries@); assert(t.take(t.len() as int) =~= t); }

//@ fn metrics::builder::MetricBuilder::summary(name, window) props=C18
    ensures inherits(cfg_m(*self), cfg_s(r), name@), ext_s(r) == (window, Seq::<F64>::empty()),
//@ loop 0 slice
    __s0@ == self.labels@, cfg_s(builder) == (Cfg { ns: sv(self.namespace), ss: sv(self.subsystem), labels: cfg_s(builder).labels, ..cfg_new(name@) }), ext_s(builder) == (window, Seq::<F64>::empty()),
    replayed(pviews(self.labels@).take(__i0 as int), cfg_s(builder).labels),
//@ loop 0 pre
    proof { replay_none(pviews(self.labels@).take(0)); }
//@ loop 0 body
    let ghost __l0 = cfg_s(builder).labels;
    proof { assert(pviews(self.labels@)[__i0 - 1] == pview(*__x0)); }
//@ loop 0 end
    proof { replay_step(pviews(self.labels@), __i0 - 1, __l0, cfg_s(builder).labels); }
//@ loop 0 post
    proof { let t = pviews(self.labels@); assert(t.take(t.len() as int) =~= t); }
//@ loop 1 slice
    __s1@ == self.registries@,
    cfg_s(builder) == (Cfg { ns: sv(self.namespace), ss: sv(self.subsystem), labels: cfg_s(builder).labels, regs: chs(self.registries@).take(__i1 as int), ..cfg_new(name@) }), ext_s(builder) == (window, Seq::<F64>::empty()),
    replayed(pviews(self.labels@), cfg_s(builder).labels),
//@ loop 1 pre
    proof { assert(chs(self.registries@).take(0) =~= Seq::empty()); }
//@ loop 1 end
    proof { let t = chs(self.registries@); assert(t[__i1 - 1] == __x1.tx.ch()); assert(t.take(__i1 as int) =~= t.take(__i1 - 1).push(t[__i1 - 1])); }
//@ loop 1 post
    proof { let t = chs(self.registries@); assert(t.take(t.len() as int) =~= t); }
//@ fn metrics::builder::MetricBuilder::default() props=C18
    ensures cfg_m(r) =~= (Com { ns: None, ss: None, labels: Seq::empty(), regs: cfg_m(r).regs }), cfg_m(r).regs.len() == 1, default_poisoned() || cfg_m(r).regs[0] == default_ch(),
