//@ spec
// ------------------------------------------------------------ gathering
pub type Parts = (Option<Seq<char>>, Option<Seq<char>>, Seq<char>);
/// what a family is known by
pub type FamKey = (Parts, int);
/// what an entry of a family is known by
pub type Key = (FamKey, Seq<LV>);
pub open spec fn mname(m: crate::metric::Metric) -> crate::metric::MetricName {
    match m {
        crate::metric::Metric::Counter(c) => c.0.name,
        crate::metric::Metric::Gauge(c) => c.0.name,
        crate::metric::Metric::Summary(c) => c.0.quantile_name,
        crate::metric::Metric::Histogram(c) => c.0.bucket_name,
    }
}
pub open spec fn mlabels(m: crate::metric::Metric) -> crate::label::Labels {
    match m {
        crate::metric::Metric::Counter(c) => c.0.labels,
        crate::metric::Metric::Gauge(c) => c.0.labels,
        crate::metric::Metric::Summary(c) => c.0.labels,
        crate::metric::Metric::Histogram(c) => c.0.labels,
    }
}
pub open spec fn mhelp(m: crate::metric::Metric) -> Option<Seq<char>> {
    match m {
        crate::metric::Metric::Counter(c) => sv(c.0.help),
        crate::metric::Metric::Gauge(c) => sv(c.0.help),
        crate::metric::Metric::Summary(c) => sv(c.0.help),
        crate::metric::Metric::Histogram(c) => sv(c.0.help),
    }
}
pub open spec fn mkind(m: crate::metric::Metric) -> crate::metric::MetricKind {
    match m {
        crate::metric::Metric::Counter(_) => crate::metric::MetricKind::Counter,
        crate::metric::Metric::Gauge(_) => crate::metric::MetricKind::Gauge,
        crate::metric::Metric::Summary(_) => crate::metric::MetricKind::Summary,
        crate::metric::Metric::Histogram(_) => crate::metric::MetricKind::Histogram,
    }
}
pub open spec fn fkey(m: crate::metric::Metric) -> FamKey { (nparts(mname(m)), mkind(m).rank()) }
pub open spec fn mkey(w: World, m: crate::metric::Metric) -> Key { (fkey(m), labels_of(w, mlabels(m))) }
// the order: name parts, kind, labels
pub open spec fn lvs_cmp(a: Seq<LV>, b: Seq<LV>) -> int
    decreases a.len()
{
    if a.len() == 0 { if b.len() == 0 { 0 } else { -1 } }
    else if b.len() == 0 { 1 }
    else { let c = lv_cmp(a[0], b[0]); if c != 0 { c } else { lvs_cmp(a.drop_first(), b.drop_first()) } }
}
pub open spec fn opt_cmp(a: Option<Seq<char>>, b: Option<Seq<char>>) -> int {
    match (a, b) { (Some(x), Some(y)) => chars_cmp(x, y), (None, None) => 0, (None, Some(_)) => -1, (Some(_), None) => 1 }
}
pub open spec fn parts_cmp(a: Parts, b: Parts) -> int {
    let c = opt_cmp(a.0, b.0); let d = opt_cmp(a.1, b.1);
    if c != 0 { c } else if d != 0 { d } else { chars_cmp(a.2, b.2) }
}
pub open spec fn fam_cmp(a: FamKey, b: FamKey) -> int { let c = parts_cmp(a.0, b.0); if c != 0 { c } else { int_cmp(a.1, b.1) } }
pub open spec fn key_cmp(a: Key, b: Key) -> int { let c = fam_cmp(a.0, b.0); if c != 0 { c } else { lvs_cmp(a.1, b.1) } }
pub open spec fn metric_cmp(w: World) -> spec_fn(crate::metric::Metric, crate::metric::Metric) -> int { |a: crate::metric::Metric, b: crate::metric::Metric| key_cmp(mkey(w, a), mkey(w, b)) }
pub proof fn lvs_cmp_is(a: Seq<crate::label::Label>, b: Seq<crate::label::Label>)
    ensures seq_dcmp(a, b) == lvs_cmp(lviews(a), lviews(b)),
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lvs_cmp_is(a.drop_first(), b.drop_first());
        assert(lviews(a).drop_first() =~= lviews(a.drop_first()));
        assert(lviews(b).drop_first() =~= lviews(b.drop_first()));
    }
}
pub proof fn lvs_cmps()
    ensures forall|a: Seq<crate::label::Label>, b: Seq<crate::label::Label>| #[trigger] seq_dcmp(a, b) == lvs_cmp(lviews(a), lviews(b)),
{ assert forall|a: Seq<crate::label::Label>, b: Seq<crate::label::Label>| #[trigger] seq_dcmp(a, b) == lvs_cmp(lviews(a), lviews(b)) by { lvs_cmp_is(a, b); } }
// each of them is an order
pub proof fn lvs_ord(a: Seq<LV>, b: Seq<LV>)
    ensures -1 <= lvs_cmp(a, b) <= 1, lvs_cmp(a, b) == -lvs_cmp(b, a), lvs_cmp(a, b) == 0 <==> a == b,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 {
        lvs_ord(a.drop_first(), b.drop_first());
        lv_ord(a[0], b[0]);
        if a[0] == b[0] && a.drop_first() == b.drop_first() {
            assert(a =~= seq![a[0]] + a.drop_first());
            assert(b =~= seq![b[0]] + b.drop_first());
        }
    } else if a.len() == 0 && b.len() == 0 { assert(a =~= b); }
}
pub proof fn lv_ord(a: LV, b: LV)
    ensures -1 <= lv_cmp(a, b) <= 1, lv_cmp(a, b) == -lv_cmp(b, a), lv_cmp(a, b) == 0 <==> a == b,
{ chars_cmp_sym(a.0, b.0); chars_cmp_sym(a.1, b.1); chars_cmp_eq(a.0, b.0); chars_cmp_eq(a.1, b.1); chars_cmp_eq(b.0, a.0); }
pub proof fn lv_tr(a: LV, b: LV, c: LV)
    requires lv_cmp(a, b) <= 0, lv_cmp(b, c) <= 0,
    ensures lv_cmp(a, c) <= 0, lv_cmp(a, b) < 0 || lv_cmp(b, c) < 0 ==> lv_cmp(a, c) < 0,
{
    chars_cmp_sym(a.0, b.0); chars_cmp_sym(b.0, c.0); chars_cmp_sym(a.0, c.0); chars_cmp_eq(a.0, b.0); chars_cmp_eq(b.0, c.0);
    chars_cmp_trans(a.0, b.0, c.0);
    if a.0 == b.0 && b.0 == c.0 { chars_cmp_trans(a.1, b.1, c.1); }
}
pub proof fn lvs_tr(a: Seq<LV>, b: Seq<LV>, c: Seq<LV>)
    requires lvs_cmp(a, b) <= 0, lvs_cmp(b, c) <= 0,
    ensures lvs_cmp(a, c) <= 0, lvs_cmp(a, b) < 0 || lvs_cmp(b, c) < 0 ==> lvs_cmp(a, c) < 0,
    decreases a.len(),
{
    if a.len() > 0 && b.len() > 0 && c.len() > 0 {
        lv_ord(a[0], b[0]); lv_ord(b[0], c[0]); lv_ord(a[0], c[0]);
        lv_tr(a[0], b[0], c[0]);
        if a[0] == b[0] && b[0] == c[0] { lvs_tr(a.drop_first(), b.drop_first(), c.drop_first()); }
    }
}
pub proof fn opt_ord(a: Option<Seq<char>>, b: Option<Seq<char>>)
    ensures -1 <= opt_cmp(a, b) <= 1, opt_cmp(a, b) == -opt_cmp(b, a), opt_cmp(a, b) == 0 <==> a == b,
{ if a is Some && b is Some { chars_cmp_sym(a->0, b->0); chars_cmp_eq(a->0, b->0); } }
pub proof fn opt_tr(a: Option<Seq<char>>, b: Option<Seq<char>>, c: Option<Seq<char>>)
    requires opt_cmp(a, b) <= 0, opt_cmp(b, c) <= 0,
    ensures opt_cmp(a, c) <= 0, opt_cmp(a, b) < 0 || opt_cmp(b, c) < 0 ==> opt_cmp(a, c) < 0,
{ if a is Some && b is Some && c is Some { chars_cmp_trans(a->0, b->0, c->0); } }
pub proof fn fam_ord(a: FamKey, b: FamKey)
    ensures -1 <= fam_cmp(a, b) <= 1, fam_cmp(a, b) == -fam_cmp(b, a), fam_cmp(a, b) == 0 <==> a == b,
{ opt_ord(a.0.0, b.0.0); opt_ord(a.0.1, b.0.1); chars_cmp_sym(a.0.2, b.0.2); chars_cmp_eq(a.0.2, b.0.2); }
pub proof fn fam_tr(a: FamKey, b: FamKey, c: FamKey)
    requires fam_cmp(a, b) <= 0, fam_cmp(b, c) <= 0,
    ensures fam_cmp(a, c) <= 0, fam_cmp(a, b) < 0 || fam_cmp(b, c) < 0 ==> fam_cmp(a, c) < 0,
{
    let (x, y, z) = (a.0, b.0, c.0);
    opt_ord(x.0, y.0); opt_ord(y.0, z.0); opt_ord(x.0, z.0);
    opt_ord(x.1, y.1); opt_ord(y.1, z.1); opt_ord(x.1, z.1);
    chars_cmp_eq(x.2, y.2); chars_cmp_eq(y.2, z.2); chars_cmp_eq(x.2, z.2); chars_cmp_sym(x.2, y.2); chars_cmp_sym(y.2, z.2); chars_cmp_sym(x.2, z.2);
    opt_tr(x.0, y.0, z.0);
    if x.0 == y.0 && y.0 == z.0 {
        opt_tr(x.1, y.1, z.1);
        if x.1 == y.1 && y.1 == z.1 { if chars_cmp(x.2, y.2) <= 0 && chars_cmp(y.2, z.2) <= 0 { chars_cmp_trans(x.2, y.2, z.2); } }
    }
}
pub proof fn key_ord(a: Key, b: Key)
    ensures -1 <= key_cmp(a, b) <= 1, key_cmp(a, b) == -key_cmp(b, a), key_cmp(a, b) == 0 <==> a == b,
{ fam_ord(a.0, b.0); lvs_ord(a.1, b.1); }
pub proof fn key_tr(a: Key, b: Key, c: Key)
    requires key_cmp(a, b) <= 0, key_cmp(b, c) <= 0,
    ensures key_cmp(a, c) <= 0, key_cmp(a, b) < 0 || key_cmp(b, c) < 0 ==> key_cmp(a, c) < 0,
{
    fam_ord(a.0, b.0); fam_ord(b.0, c.0); fam_ord(a.0, c.0);
    fam_tr(a.0, b.0, c.0);
    if a.0 == b.0 && b.0 == c.0 { lvs_tr(a.1, b.1, c.1); }
}
pub proof fn metric_preorder(w: World, s: Seq<crate::metric::Metric>)
    ensures preorder(metric_cmp(w), s),
{
    let c = metric_cmp(w);
    assert forall|i: int, j: int| 0 <= i < s.len() && 0 <= j < s.len() implies #[trigger] c(s[i], s[j]) == -c(s[j], s[i]) by { key_ord(mkey(w, s[i]), mkey(w, s[j])); }
    assert forall|i: int, j: int, k: int| 0 <= i < s.len() && 0 <= j < s.len() && 0 <= k < s.len() && #[trigger] c(s[i], s[j]) <= 0 && #[trigger] c(s[j], s[k]) <= 0 implies c(s[i], s[k]) <= 0 by { key_tr(mkey(w, s[i]), mkey(w, s[j]), mkey(w, s[k])); }
}
// what an entry is made of
pub open spec fn mval(w: World, m: crate::metric::Metric) -> F64 {
    match m { crate::metric::Metric::Counter(c) => cnt_val(w, c.0.value), crate::metric::Metric::Gauge(g) => f_of(w.cur[g.0.value.0.id()]), _ => f0() }
}
pub open spec fn mts(w: World, m: crate::metric::Metric) -> Option<int> {
    match m {
        crate::metric::Metric::Counter(c) => cell_ts(w, c.0.timestamp),
        crate::metric::Metric::Gauge(c) => cell_ts(w, c.0.timestamp),
        crate::metric::Metric::Summary(c) => cell_ts(w, c.0.timestamp),
        crate::metric::Metric::Histogram(c) => cell_ts(w, c.0.timestamp),
    }
}
/// the values added up in order
pub open spec fn totals(w: World, ms: Seq<crate::metric::Metric>) -> F64
    decreases ms.len()
{ if ms.len() <= 1 { mval(w, ms[0]) } else { fadd(totals(w, ms.drop_last()), mval(w, ms.last())) } }
/// the latest of the timestamps
pub open spec fn latest(w: World, ms: Seq<crate::metric::Metric>) -> Option<int>
    decreases ms.len()
{ if ms.len() <= 1 { mts(w, ms[0]) } else { later(latest(w, ms.drop_last()), mts(w, ms.last())) } }
pub open spec fn of_hist() -> spec_fn(crate::metrics::histogram::Histogram) -> crate::metric::Metric { |h: crate::metrics::histogram::Histogram| crate::metric::Metric::Histogram(h) }
pub open spec fn of_sum() -> spec_fn(crate::metrics::summary::Summary) -> crate::metric::Metric { |h: crate::metrics::summary::Summary| crate::metric::Metric::Summary(h) }
/// entry a reports exactly the metrics ms
pub open spec fn agg_is(w: World, a: Agg, ms: Seq<crate::metric::Metric>) -> bool {
    ms.len() > 0 && match a {
        Agg::C(x) => ms[0] == crate::metric::Metric::Counter(x.inner) && x.value == totals(w, ms) && oi(x.timestamp) == latest(w, ms) && all_of(ms, crate::metric::MetricKind::Counter),
        Agg::G(x) => ms[0] == crate::metric::Metric::Gauge(x.inner) && x.value == totals(w, ms) && oi(x.timestamp) == latest(w, ms) && all_of(ms, crate::metric::MetricKind::Gauge),
        Agg::S(x) => ms =~= x.inners@.map_values(of_sum()),
        Agg::H(x) => ms =~= x.inners@.map_values(of_hist()),
    }
}
pub open spec fn all_of(ms: Seq<crate::metric::Metric>, k: crate::metric::MetricKind) -> bool { forall|i: int| 0 <= i < ms.len() ==> mkind(#[trigger] ms[i]) == k }
/// the entries es report the groups gs
pub open spec fn fam_has(w: World, es: Seq<Agg>, gs: Seq<Seq<crate::metric::Metric>>) -> bool { es.len() == gs.len() && forall|i: int| 0 <= i < es.len() ==> agg_is(w, #[trigger] es[i], gs[i]) }
pub open spec fn filled(es: Seq<Agg>) -> bool {
    forall|i: int| 0 <= i < es.len() ==> match #[trigger] es[i] { Agg::S(x) => x.inners@.len() > 0, Agg::H(x) => x.inners@.len() > 0, _ => true }
}
/// one more metric for a family: into the last group if that is of the same series
pub open spec fn put(w: World, gs: Seq<Seq<crate::metric::Metric>>, m: crate::metric::Metric) -> Seq<Seq<crate::metric::Metric>> {
    if gs.len() > 0 && mkey(w, gs.last()[0]) == mkey(w, m) { gs.drop_last().push(gs.last().push(m)) } else { gs.push(seq![m]) }
}
pub proof fn filled_last(es: Seq<Agg>)
    requires filled(es),
    ensures es.len() > 0 ==> match es[es.len() - 1] { Agg::S(x) => x.inners@.len() > 0, Agg::H(x) => x.inners@.len() > 0, _ => true },
{}
pub open spec fn akey(w: World, a: Agg) -> Key {
    match a {
        Agg::C(x) => mkey(w, crate::metric::Metric::Counter(x.inner)),
        Agg::G(x) => mkey(w, crate::metric::Metric::Gauge(x.inner)),
        Agg::S(x) => mkey(w, crate::metric::Metric::Summary(x.inners@[0])),
        Agg::H(x) => mkey(w, crate::metric::Metric::Histogram(x.inners@[0])),
    }
}
/// how the entries change when a metric comes in
pub open spec fn stepped(w: World, x: Seq<Agg>, y: Seq<Agg>, m: crate::metric::Metric) -> bool {
    if x.len() > 0 && akey(w, x.last()) == mkey(w, m) {
        y.len() == x.len() && y.drop_last() =~= x.drop_last() && match (x.last(), y.last(), m) {
            (Agg::C(a), Agg::C(b), _) => b.inner == a.inner && b.value == fadd(a.value, mval(w, m)) && oi(b.timestamp) == later(oi(a.timestamp), mts(w, m)),
            (Agg::G(a), Agg::G(b), _) => b.inner == a.inner && b.value == fadd(a.value, mval(w, m)) && oi(b.timestamp) == later(oi(a.timestamp), mts(w, m)),
            (Agg::S(a), Agg::S(b), crate::metric::Metric::Summary(s)) => b.inners@ =~= a.inners@.push(s),
            (Agg::H(a), Agg::H(b), crate::metric::Metric::Histogram(s)) => b.inners@ =~= a.inners@.push(s),
            _ => false,
        }
    } else {
        y.len() == x.len() + 1 && y.drop_last() =~= x && agg_is(w, y.last(), seq![m])
    }
}
pub proof fn stepped_puts(w: World, x: Seq<Agg>, y: Seq<Agg>, m: crate::metric::Metric, gs: Seq<Seq<crate::metric::Metric>>)
    requires stepped(w, x, y, m), fam_has(w, x, gs), filled(x),
    ensures fam_has(w, y, put(w, gs, m)),
{
    let zs = put(w, gs, m);
    if x.len() > 0 {
        let a = x.last(); let ms = gs.last();
        assert(agg_is(w, a, ms));
        assert(akey(w, a) == mkey(w, ms[0]));
        if akey(w, a) == mkey(w, m) {
            let b = y.last(); let zz = ms.push(m);
            assert(zz.drop_last() =~= ms && zz.last() == m && zz[0] == ms[0]);
            assert(agg_is(w, b, zz));
        }
    }
    assert forall|i: int| 0 <= i < y.len() implies agg_is(w, #[trigger] y[i], zs[i]) by {
        if i < y.len() - 1 { assert(y[i] == y.drop_last()[i]); assert(y[i] == x[i]); assert(agg_is(w, x[i], gs[i])); }
    }
}
/// a family made of one metric
pub open spec fn fam_fresh(w: World, f: crate::metric::MetricFamily, m: crate::metric::Metric) -> bool {
    &&& nparts(f.name) == nparts(mname(m)) && sv(f.help) == mhelp(m) && kind_of(f.metrics) == mkind(m) && filled(entries(f.metrics))
    &&& w.quiet ==> fam_has(w, entries(f.metrics), seq![seq![m]])
}
/// the metric belongs to the family
pub open spec fn fam_takes(f: crate::metric::MetricFamily, m: crate::metric::Metric) -> bool { nparts(f.name) == nparts(mname(m)) && kind_of(f.metrics) == mkind(m) }
/// the family after a metric came in
pub open spec fn fam_took(w: World, f: crate::metric::MetricFamily, n: crate::metric::MetricFamily, m: crate::metric::Metric) -> bool {
    &&& n.name == f.name && n.help == f.help && kind_of(n.metrics) == kind_of(f.metrics) && filled(entries(n.metrics))
    &&& w.quiet ==> forall|gs: Seq<Seq<crate::metric::Metric>>| #[trigger] fam_has(w, entries(f.metrics), gs) ==> fam_has(w, entries(n.metrics), put(w, gs, m))
}

//@ fn metric::Metric::name() props=C14
    ensures *r == mname(*self),
//@ fn metric::Metric::kind() props=C14
    ensures r == mkind(*self),
//@ fn metric::Metric::labels() props=C14
    ensures *r == mlabels(*self),
//@ fn metric::MetricFamily::new(metric) props=C14,C15
    ensures same(*old(w), *final(w)), fam_fresh(*old(w), r, metric),
//@ exit
    proof { if (*old(w)).quiet { assert(agg_is(*old(w), entries(__r.metrics)[0], seq![metric])); } }
//@ fn metric::MetricFamily::same_family(metric) props=C14
    ensures r == fam_takes(*self, *metric),
//@ fn metric::MetricFamily::push(metric) props=C14,C15
    requires fam_takes(*old(self), metric), filled(entries(old(self).metrics)),
    ensures same(*old(w), *final(w)), fam_took(*old(w), *old(self), *final(self), metric),
//@ entry
    let ghost __m = metric;
    proof { filled_last(entries(self.metrics)); }
//@ exit
    proof {
        let __x = entries(old(self).metrics); let __y = entries(self.metrics);
        match __m {
            crate::metric::Metric::Counter(c) => {
                let xs = old(self).metrics->Counter_0@; let ys = self.metrics->Counter_0@;
                assert(xs.len() == ys.len() || xs.len() + 1 == ys.len());
                if xs.len() == ys.len() {
                    assert(xs.len() > 0);
                    assert(__x.last() == __x[xs.len() - 1] && __y.last() == __y[xs.len() - 1]);
                    assert(ys.drop_last() =~= xs.drop_last());
                    assert forall|i: int| 0 <= i < xs.len() - 1 implies #[trigger] __y[i] == __x[i] by { assert(ys[i] == ys.drop_last()[i] && xs[i] == xs.drop_last()[i]); }
                    if (*old(w)).quiet { assert(akey(*old(w), __x.last()) == mkey(*old(w), __m)); }
                } else {
                    assert(ys.drop_last() =~= xs);
                    assert forall|i: int| 0 <= i < xs.len() implies #[trigger] __y[i] == __x[i] by { assert(ys[i] == ys.drop_last()[i]); }
                    if (*old(w)).quiet {
                        assert(agg_is(*old(w), __y.last(), seq![__m]));
                        assert(__x.len() > 0 ==> akey(*old(w), __x.last()) != mkey(*old(w), __m));
                    }
                }
            }
            crate::metric::Metric::Gauge(c) => {
                let xs = old(self).metrics->Gauge_0@; let ys = self.metrics->Gauge_0@;
                assert(xs.len() == ys.len() || xs.len() + 1 == ys.len());
                if xs.len() == ys.len() {
                    assert(xs.len() > 0);
                    assert(__x.last() == __x[xs.len() - 1] && __y.last() == __y[xs.len() - 1]);
                    assert(ys.drop_last() =~= xs.drop_last());
                    assert forall|i: int| 0 <= i < xs.len() - 1 implies #[trigger] __y[i] == __x[i] by { assert(ys[i] == ys.drop_last()[i] && xs[i] == xs.drop_last()[i]); }
                    if (*old(w)).quiet { assert(akey(*old(w), __x.last()) == mkey(*old(w), __m)); }
                } else {
                    assert(ys.drop_last() =~= xs);
                    assert forall|i: int| 0 <= i < xs.len() implies #[trigger] __y[i] == __x[i] by { assert(ys[i] == ys.drop_last()[i]); }
                    if (*old(w)).quiet {
                        assert(agg_is(*old(w), __y.last(), seq![__m]));
                        assert(__x.len() > 0 ==> akey(*old(w), __x.last()) != mkey(*old(w), __m));
                    }
                }
            }
            crate::metric::Metric::Summary(c) => {
                let xs = old(self).metrics->Summary_0@; let ys = self.metrics->Summary_0@;
                assert(xs.len() == ys.len() || xs.len() + 1 == ys.len());
                if xs.len() == ys.len() {
                    assert(xs.len() > 0);
                    assert(__x.last() == __x[xs.len() - 1] && __y.last() == __y[xs.len() - 1]);
                    assert(ys.drop_last() =~= xs.drop_last());
                    assert forall|i: int| 0 <= i < xs.len() - 1 implies #[trigger] __y[i] == __x[i] by { assert(ys[i] == ys.drop_last()[i] && xs[i] == xs.drop_last()[i]); }
                    if (*old(w)).quiet { assert(akey(*old(w), __x.last()) == mkey(*old(w), __m)); }
                } else {
                    assert(ys.drop_last() =~= xs);
                    assert forall|i: int| 0 <= i < xs.len() implies #[trigger] __y[i] == __x[i] by { assert(ys[i] == ys.drop_last()[i]); }
                    if (*old(w)).quiet {
                        assert(agg_is(*old(w), __y.last(), seq![__m]));
                        assert(__x.len() > 0 ==> akey(*old(w), __x.last()) != mkey(*old(w), __m));
                    }
                }
            }
            crate::metric::Metric::Histogram(c) => {
                let xs = old(self).metrics->Histogram_0@; let ys = self.metrics->Histogram_0@;
                assert(xs.len() == ys.len() || xs.len() + 1 == ys.len());
                if xs.len() == ys.len() {
                    assert(xs.len() > 0);
                    assert(__x.last() == __x[xs.len() - 1] && __y.last() == __y[xs.len() - 1]);
                    assert(ys.drop_last() =~= xs.drop_last());
                    assert forall|i: int| 0 <= i < xs.len() - 1 implies #[trigger] __y[i] == __x[i] by { assert(ys[i] == ys.drop_last()[i] && xs[i] == xs.drop_last()[i]); }
                    if (*old(w)).quiet { assert(akey(*old(w), __x.last()) == mkey(*old(w), __m)); }
                } else {
                    assert(ys.drop_last() =~= xs);
                    assert forall|i: int| 0 <= i < xs.len() implies #[trigger] __y[i] == __x[i] by { assert(ys[i] == ys.drop_last()[i]); }
                    if (*old(w)).quiet {
                        assert(agg_is(*old(w), __y.last(), seq![__m]));
                        assert(__x.len() > 0 ==> akey(*old(w), __x.last()) != mkey(*old(w), __m));
                    }
                }
            }
        }
        if (*old(w)).quiet {
            assert(stepped(*old(w), __x, __y, __m));
            assert forall|gs: Seq<Seq<crate::metric::Metric>>| #[trigger] fam_has(*old(w), __x, gs) implies fam_has(*old(w), __y, put(*old(w), gs, __m)) by { stepped_puts(*old(w), __x, __y, __m, gs); }
        }
    }

//@ spec
// ---- what the collectors are asked
pub open spec fn cids(cs: Seq<crate::registry::Collector>) -> Seq<int> { Seq::new(cs.len(), |i: int| cs[i].0.id()) }
pub open spec fn ids(p: Seq<(int, Answer)>) -> Seq<int> { Seq::new(p.len(), |i: int| p[i].0) }
/// those that answered with metrics
pub open spec fn live(p: Seq<(int, Answer)>) -> Seq<int>
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else if p.last().1 is Some { live(p.drop_last()).push(p.last().0) } else { live(p.drop_last()) } }
/// everything they answered
pub open spec fn gathered(p: Seq<(int, Answer)>) -> Seq<crate::metric::Metric>
    decreases p.len()
{ if p.len() == 0 { Seq::empty() } else { gathered(p.drop_last()) + answered(p.last().1) } }
/// i of the collectors q have been asked again and stay, those answers and the final ones being p; the rest is still to ask
pub open spec fn asking(all: Seq<int>, q: Seq<int>, i: int, p: Seq<(int, Answer)>) -> bool {
    &&& 0 <= i <= q.len()
    &&& ids(p).to_multiset().add(q.skip(i).to_multiset()) == all.to_multiset()
    &&& live(p).to_multiset() == q.take(i).to_multiset()
}
pub proof fn asking_starts(q: Seq<int>)
    ensures asking(q, q, 0, Seq::empty()),
{
    assert(q.skip(0) =~= q);
    assert(ids(Seq::empty()) =~= Seq::<int>::empty());
    vstd::seq_lib::lemma_multiset_commutative(Seq::<int>::empty(), q);
    assert(Seq::<int>::empty() + q =~= q);
    assert(live(Seq::empty()) =~= q.take(0));
}
pub proof fn asking_ends(all: Seq<int>, q: Seq<int>, p: Seq<(int, Answer)>)
    requires asking(all, q, q.len() as int, p),
    ensures ids(p).to_multiset() == all.to_multiset(), live(p).to_multiset() == q.to_multiset(),
{
    assert(q.skip(q.len() as int) =~= Seq::<int>::empty());
    assert(q.take(q.len() as int) =~= q);
    vstd::seq_lib::lemma_multiset_commutative(ids(p), Seq::<int>::empty());
    assert(ids(p) + Seq::<int>::empty() =~= ids(p));
}
pub proof fn multi_push(a: Seq<int>, x: int)
    ensures a.push(x).to_multiset() == a.to_multiset().insert(x),
{ a.to_multiset_ensures(); }
pub proof fn asking_turn(all: Seq<int>, q: Seq<int>, i: int, p: Seq<(int, Answer)>, r: Seq<int>, j: int, a: Answer)
    requires
        asking(all, q, i, p), i < q.len(),
        a is Some ==> r =~= q && j == i + 1,
        a is None ==> j == i && (r =~= q.update(i, q.last()).drop_last() || r =~= q.remove(i)),
    ensures asking(all, r, j, p.push((q[i], a))),
{
    let p2 = p.push((q[i], a));
    assert(p2.drop_last() =~= p);
    assert(ids(p2) =~= ids(p).push(q[i]));
    multi_push(ids(p), q[i]);
    let rest = q.skip(i + 1);
    assert(q.skip(i) =~= seq![q[i]] + rest);
    vstd::seq_lib::lemma_multiset_commutative(seq![q[i]], rest);
    vstd::seq_lib::lemma_multiset_commutative(rest, seq![q[i]]);
    assert(rest + seq![q[i]] =~= rest.push(q[i]));
    multi_push(rest, q[i]);
    assert(q.skip(i).to_multiset() =~= rest.to_multiset().insert(q[i]));
    if a is Some {
        assert(q.take(i + 1) =~= q.take(i).push(q[i]));
        multi_push(q.take(i), q[i]); multi_push(live(p), q[i]);
        assert(ids(p2).to_multiset().add(r.skip(j).to_multiset()) =~= ids(p).to_multiset().add(q.skip(i).to_multiset()));
    } else {
        assert(r.take(i) =~= q.take(i));
        if r =~= q.remove(i) { assert(r.skip(i) =~= rest); }
        else if i == q.len() - 1 { assert(r.skip(i) =~= rest); }
        else {
            let mid = q.subrange(i + 1, q.len() - 1);
            assert(r.skip(i) =~= seq![q.last()] + mid);
            assert(rest =~= mid + seq![q.last()]);
            vstd::seq_lib::lemma_multiset_commutative(seq![q.last()], mid);
            vstd::seq_lib::lemma_multiset_commutative(mid, seq![q.last()]);
            assert(r.skip(i).to_multiset() =~= rest.to_multiset());
        }
        assert(ids(p2).to_multiset().add(r.skip(j).to_multiset()) =~= ids(p).to_multiset().add(q.skip(i).to_multiset()));
    }
}
// ---- how the metrics are grouped: families of entries of metrics
pub type Groups = Seq<Seq<Seq<crate::metric::Metric>>>;
pub open spec fn flat(gs: Seq<Seq<crate::metric::Metric>>) -> Seq<crate::metric::Metric>
    decreases gs.len()
{ if gs.len() == 0 { Seq::empty() } else { flat(gs.drop_last()) + gs.last() } }
pub open spec fn flat3(g: Groups) -> Seq<crate::metric::Metric>
    decreases g.len()
{ if g.len() == 0 { Seq::empty() } else { flat3(g.drop_last()) + flat(g.last()) } }
/// all of one series
pub open spec fn one_series(w: World, ms: Seq<crate::metric::Metric>) -> bool { ms.len() > 0 && forall|i: int| 0 <= i < ms.len() ==> mkey(w, #[trigger] ms[i]) == mkey(w, ms[0]) }
/// the entries of one family: each of one series, in strictly ascending order, all of the same family
pub open spec fn tidy_family(w: World, gs: Seq<Seq<crate::metric::Metric>>) -> bool {
    &&& gs.len() > 0
    &&& forall|i: int| 0 <= i < gs.len() ==> one_series(w, #[trigger] gs[i]) && fkey(gs[i][0]) == fkey(gs[0][0])
    &&& forall|i: int, j: int| 0 <= i < j < gs.len() ==> lvs_cmp(labels_of(w, mlabels((#[trigger] gs[i])[0])), labels_of(w, mlabels((#[trigger] gs[j])[0]))) < 0
}
/// the families in strictly ascending order of name and kind, each of them tidy
pub open spec fn tidy(w: World, g: Groups) -> bool {
    &&& forall|i: int| 0 <= i < g.len() ==> tidy_family(w, #[trigger] g[i])
    &&& forall|i: int, j: int| 0 <= i < j < g.len() ==> fam_cmp(fkey((#[trigger] g[i])[0][0]), fkey((#[trigger] g[j])[0][0])) < 0
}
/// family f reports the entries gs
pub open spec fn fam_is(w: World, f: crate::metric::MetricFamily, gs: Seq<Seq<crate::metric::Metric>>) -> bool {
    &&& gs.len() > 0 && gs[0].len() > 0
    &&& nparts(f.name) == nparts(mname(gs[0][0])) && sv(f.help) == mhelp(gs[0][0]) && kind_of(f.metrics) == mkind(gs[0][0])
    &&& filled(entries(f.metrics)) && fam_has(w, entries(f.metrics), gs)
}
pub open spec fn fams_are(w: World, fs: Seq<crate::metric::MetricFamily>, g: Groups) -> bool { fs.len() == g.len() && forall|i: int| 0 <= i < fs.len() ==> fam_is(w, #[trigger] fs[i], g[i]) }
/// the result of gathering the metrics ms
pub open spec fn reported(w: World, fs: Seq<crate::metric::MetricFamily>, g: Groups, ms: Seq<crate::metric::Metric>) -> bool {
    fams_are(w, fs, g) && tidy(w, g) && flat3(g).to_multiset() == ms.to_multiset()
}
/// one more metric
pub open spec fn grow(w: World, g: Groups, m: crate::metric::Metric) -> Groups {
    if g.len() > 0 && fkey(g.last()[0][0]) == fkey(m) { g.drop_last().push(put(w, g.last(), m)) } else { g.push(seq![seq![m]]) }
}
pub open spec fn final_one(g: Groups) -> crate::metric::Metric { g.last().last().last() }
pub proof fn flat_put(w: World, gs: Seq<Seq<crate::metric::Metric>>, m: crate::metric::Metric)
    ensures flat(put(w, gs, m)) =~= flat(gs).push(m), put(w, gs, m).len() > 0, put(w, gs, m).last().last() == m, put(w, gs, m).last().len() > 0,
{
    let z = put(w, gs, m);
    if gs.len() > 0 && mkey(w, gs.last()[0]) == mkey(w, m) { assert(z.drop_last() =~= gs.drop_last()); assert(z.last() == gs.last().push(m)); }
    else { assert(z.drop_last() =~= gs); assert(z.last() == seq![m]); }
}
pub open spec fn lkey(w: World, m: crate::metric::Metric) -> Seq<LV> { labels_of(w, mlabels(m)) }
/// a further metric of the same series
pub proof fn put_merges(w: World, l: Seq<Seq<crate::metric::Metric>>, m: crate::metric::Metric)
    requires tidy_family(w, l), mkey(w, l.last()[0]) == mkey(w, m),
    ensures tidy_family(w, put(w, l, m)), put(w, l, m)[0][0] == l[0][0],
{
    let y = put(w, l, m); let b = l.last().push(m);
    assert(one_series(w, l[l.len() - 1]));
    assert(b[0] == l.last()[0]);
    assert(one_series(w, b));
    assert forall|i: int| 0 <= i < y.len() implies one_series(w, #[trigger] y[i]) && fkey(y[i][0]) == fkey(y[0][0]) by { if i < l.len() - 1 { assert(y[i] == l[i]); } else { assert(y[i] == b); } assert(y[0][0] == l[0][0]); }
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies lvs_cmp(labels_of(w, mlabels((#[trigger] y[i])[0])), labels_of(w, mlabels((#[trigger] y[j])[0]))) < 0 by { assert(y[i] == l[i]); assert(y[j][0] == l[j][0]); }
}
/// a metric of the same family with greater labels
pub proof fn put_adds(w: World, l: Seq<Seq<crate::metric::Metric>>, m: crate::metric::Metric)
    requires tidy_family(w, l), mkey(w, l.last()[0]) != mkey(w, m), fkey(l[0][0]) == fkey(m), lvs_cmp(lkey(w, l.last()[0]), lkey(w, m)) < 0,
    ensures tidy_family(w, put(w, l, m)), put(w, l, m)[0][0] == l[0][0],
{
    let y = put(w, l, m);
    assert(one_series(w, seq![m]));
    assert(l.last() == l[l.len() - 1]);
    assert forall|i: int| 0 <= i < y.len() implies one_series(w, #[trigger] y[i]) && fkey(y[i][0]) == fkey(y[0][0]) by { if i < l.len() { assert(y[i] == l[i]); } else { assert(y[i] == seq![m]); } assert(y[0] == l[0]); }
    assert forall|i: int, j: int| 0 <= i < j < y.len() implies lvs_cmp(labels_of(w, mlabels((#[trigger] y[i])[0])), labels_of(w, mlabels((#[trigger] y[j])[0]))) < 0 by {
        assert(y[i] == l[i]);
        if j < l.len() { assert(y[j] == l[j]); } else {
            assert(y[j] == seq![m]);
            if i < l.len() - 1 {
                assert(lvs_cmp(labels_of(w, mlabels(l[i][0])), labels_of(w, mlabels(l[l.len() - 1][0]))) < 0);
                lvs_tr(lkey(w, l[i][0]), lkey(w, l.last()[0]), lkey(w, m));
            }
        }
    }
}
/// the last family changed
pub proof fn tidy_replaced(w: World, g: Groups, y: Seq<Seq<crate::metric::Metric>>)
    requires tidy(w, g), g.len() > 0, tidy_family(w, y), y[0][0] == g.last()[0][0],
    ensures tidy(w, g.drop_last().push(y)),
{
    hide(tidy_family); hide(fkey); hide(fam_cmp);
    let z = g.drop_last().push(y);
    assert forall|i: int| 0 <= i < z.len() implies tidy_family(w, #[trigger] z[i]) by { if i < g.len() - 1 { assert(z[i] == g[i]); } }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies fam_cmp(fkey((#[trigger] z[i])[0][0]), fkey((#[trigger] z[j])[0][0])) < 0 by { assert(z[i] == g[i]); assert(z[j][0][0] == g[j][0][0]); }
}
/// a new family, greater than the last
pub proof fn tidy_added(w: World, g: Groups, m: crate::metric::Metric)
    requires tidy(w, g), g.len() > 0 ==> fam_cmp(fkey(g.last()[0][0]), fkey(m)) < 0,
    ensures tidy(w, g.push(seq![seq![m]])),
{
    hide(fkey); hide(fam_cmp);
    let z = g.push(seq![seq![m]]);
    assert(one_series(w, seq![m]));
    assert(tidy_family(w, seq![seq![m]]));
    assert forall|i: int| 0 <= i < z.len() implies tidy_family(w, #[trigger] z[i]) by { if i < g.len() { assert(z[i] == g[i]); } else { assert(z[i] == seq![seq![m]]); } }
    assert forall|i: int, j: int| 0 <= i < j < z.len() implies fam_cmp(fkey((#[trigger] z[i])[0][0]), fkey((#[trigger] z[j])[0][0])) < 0 by {
        assert(z[i] == g[i]);
        if j < g.len() { assert(z[j] == g[j]); } else {
            assert(z[j] == seq![seq![m]]);
            if i < g.len() - 1 {
                assert(fam_cmp(fkey(g[i][0][0]), fkey(g[g.len() - 1][0][0])) < 0);
                fam_tr(fkey(g[i][0][0]), fkey(g.last()[0][0]), fkey(m));
            }
        }
    }
}
/// C14: metrics taken in ascending order are grouped tidily, none lost and none twice
pub proof fn grow_tidy(w: World, g: Groups, m: crate::metric::Metric)
    requires tidy(w, g), g.len() > 0 ==> metric_cmp(w)(final_one(g), m) <= 0,
    ensures tidy(w, grow(w, g, m)), flat3(grow(w, g, m)) =~= flat3(g).push(m), final_one(grow(w, g, m)) == m, grow(w, g, m).len() > 0,
{
    hide(tidy); hide(lvs_cmp); hide(fam_cmp);
    let z = grow(w, g, m);
    flat_one(m);
    if g.len() == 0 {
        assert(z.drop_last() =~= g); assert(z.last() == seq![seq![m]]);
        tidy_added(w, g, m);
    } else {
        let l = g.last(); let fm = final_one(g);
        assert(tidy_family(w, g[g.len() - 1])) by { reveal(tidy); }
        assert(one_series(w, l[l.len() - 1]));
        assert(mkey(w, fm) == mkey(w, l.last()[0])) by { let b = l[l.len() - 1]; assert(mkey(w, b[b.len() - 1]) == mkey(w, b[0])); }
        assert(fkey(l.last()[0]) == fkey(l[0][0]));
        fam_ord(fkey(fm), fkey(m)); lvs_ord(lkey(w, fm), lkey(w, m));
        assert(key_cmp(mkey(w, fm), mkey(w, m)) <= 0);
        if fkey(l[0][0]) == fkey(m) {
            let y = put(w, l, m);
            flat_put(w, l, m);
            assert(z.drop_last() =~= g.drop_last()); assert(z.last() == y);
            if mkey(w, l.last()[0]) == mkey(w, m) { put_merges(w, l, m); } else { put_adds(w, l, m); }
            tidy_replaced(w, g, y);
            assert(flat3(z) =~= flat3(g).push(m));
        } else {
            assert(z.drop_last() =~= g); assert(z.last() == seq![seq![m]]);
            tidy_added(w, g, m);
        }
    }
}
pub proof fn flat_one(m: crate::metric::Metric)
    ensures flat(seq![seq![m]]) =~= seq![m],
{ let a = seq![seq![m]]; assert(a.drop_last() =~= Seq::<Seq<crate::metric::Metric>>::empty()); assert(flat(a.drop_last()) =~= Seq::<crate::metric::Metric>::empty()); }

pub proof fn fams_filled(w: World, fs: Seq<crate::metric::MetricFamily>, g: Groups)
    requires fams_are(w, fs, g),
    ensures fs.len() > 0 ==> filled(entries(fs.last().metrics)), fs.len() == g.len(),
{ if fs.len() > 0 { assert(fam_is(w, fs[fs.len() - 1], g[fs.len() - 1])); } }
pub open spec fn fams_next(w: World, fs: Seq<crate::metric::MetricFamily>, m: crate::metric::Metric, f2: Seq<crate::metric::MetricFamily>) -> bool {
    if fs.len() > 0 && fam_takes(fs.last(), m) { f2.len() == fs.len() && f2.drop_last() =~= fs.drop_last() && fam_took(w, fs.last(), f2.last(), m) }
    else { f2.len() == fs.len() + 1 && f2.drop_last() =~= fs && fam_fresh(w, f2.last(), m) }
}
pub proof fn fams_grow(w: World, fs: Seq<crate::metric::MetricFamily>, g: Groups, m: crate::metric::Metric, f2: Seq<crate::metric::MetricFamily>)
    requires w.quiet, fams_are(w, fs, g), fams_next(w, fs, m, f2),
    ensures fams_are(w, f2, grow(w, g, m)),
{
    let z = grow(w, g, m);
    if g.len() > 0 {
        assert(fam_is(w, fs[g.len() - 1], g[g.len() - 1]));
        assert(fam_takes(fs.last(), m) == (fkey(g.last()[0][0]) == fkey(m)));
        let y = put(w, g.last(), m);
        assert(fam_has(w, entries(fs.last().metrics), g.last()));
        assert(y[0][0] == g.last()[0][0]);
    }
    assert forall|i: int| 0 <= i < f2.len() implies fam_is(w, #[trigger] f2[i], z[i]) by {
        if i < f2.len() - 1 { assert(f2[i] == f2.drop_last()[i]); assert(f2[i] == fs[i]); assert(fam_is(w, fs[i], g[i])); }
    }
}

// ---- the keys by which the metrics are sorted, each read once
pub type SortKey = (crate::metric::MetricName, crate::metric::MetricKind, Vec<crate::label::Label>);
pub open spec fn kview(k: SortKey) -> Key { ((nparts(k.0), k.1.rank()), lviews(k.2@)) }
pub proof fn key_dcmp(a: SortKey, b: SortKey)
    ensures a.dcmp(&b) == key_cmp(kview(a), kview(b)),
{ lvs_cmp_is(a.2@, b.2@); }
pub proof fn keys_preorder(k: Seq<SortKey>)
    ensures preorder(ord_of::<SortKey>(), k),
{
    hide(key_cmp);
    let c = ord_of::<SortKey>();
    assert forall|i: int, j: int| 0 <= i < k.len() && 0 <= j < k.len() implies #[trigger] c(k[i], k[j]) == -c(k[j], k[i]) by { key_dcmp(k[i], k[j]); key_dcmp(k[j], k[i]); key_ord(kview(k[i]), kview(k[j])); }
    assert forall|i: int, j: int, l: int| 0 <= i < k.len() && 0 <= j < k.len() && 0 <= l < k.len() && #[trigger] c(k[i], k[j]) <= 0 && #[trigger] c(k[j], k[l]) <= 0 implies c(k[i], k[l]) <= 0 by {
        key_dcmp(k[i], k[j]); key_dcmp(k[j], k[l]); key_dcmp(k[i], k[l]);
        key_tr(kview(k[i]), kview(k[j]), kview(k[l]));
    }
}
/// the keys of the metrics, in order
pub open spec fn keyed(w: World, k: Seq<SortKey>, m: Seq<crate::metric::Metric>) -> bool { k.len() == m.len() && forall|i: int| 0 <= i < k.len() ==> kview(#[trigger] k[i]) == mkey(w, m[i]) }
pub open spec fn named(k: Seq<SortKey>, m: Seq<crate::metric::Metric>) -> bool { k.len() == m.len() && forall|i: int| 0 <= i < k.len() ==> kview(#[trigger] k[i]).0 == fkey(m[i]) }
pub proof fn sorted_keys(w: World, k: Seq<SortKey>, m: Seq<crate::metric::Metric>)
    requires keyed(w, k, m), sorted_by_cmp(k, ord_of::<SortKey>()),
    ensures sorted_by_cmp(m, metric_cmp(w)),
{
    let c = metric_cmp(w); let d = ord_of::<SortKey>();
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies #[trigger] c(m[i], m[j]) <= 0 by { assert(d(k[i], k[j]) <= 0); key_dcmp(k[i], k[j]); }
}
pub proof fn arranged_keys(w: World, k: Seq<SortKey>, m: Seq<crate::metric::Metric>, p: Seq<int>)
    requires is_perm(p, k.len() as int), k.len() == m.len(),
    ensures named(k, m) ==> named(arranged(k, p), arranged(m, p)), keyed(w, k, m) ==> keyed(w, arranged(k, p), arranged(m, p)),
{}
pub open spec fn by_name(m: Seq<crate::metric::Metric>) -> bool { forall|i: int, j: int| 0 <= i < j < m.len() ==> fam_cmp(fkey(#[trigger] m[i]), fkey(#[trigger] m[j])) <= 0 }
pub proof fn sorted_names(k: Seq<SortKey>, m: Seq<crate::metric::Metric>)
    requires named(k, m), sorted_by_cmp(k, ord_of::<SortKey>()),
    ensures by_name(m),
{
    let d = ord_of::<SortKey>();
    assert forall|i: int, j: int| 0 <= i < j < m.len() implies fam_cmp(fkey(#[trigger] m[i]), fkey(#[trigger] m[j])) <= 0 by { assert(d(k[i], k[j]) <= 0); key_dcmp(k[i], k[j]); assert(kview(k[i]).0 == fkey(m[i])); assert(kview(k[j]).0 == fkey(m[j])); }
}
// ---- what holds whatever other threads do meanwhile: every family of the metrics is there, once, in ascending order
pub open spec fn ffkey(f: crate::metric::MetricFamily) -> FamKey { (nparts(f.name), kind_of(f.metrics).rank()) }
pub open spec fn of_one(k: FamKey, ms: Seq<crate::metric::Metric>) -> bool { exists|j: int| 0 <= j < ms.len() && fkey(#[trigger] ms[j]) == k }
pub open spec fn has_fam(fs: Seq<crate::metric::MetricFamily>, k: FamKey) -> bool { exists|i: int| 0 <= i < fs.len() && ffkey(#[trigger] fs[i]) == k }
pub open spec fn families_of(fs: Seq<crate::metric::MetricFamily>, ms: Seq<crate::metric::Metric>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < fs.len() ==> fam_cmp(ffkey(#[trigger] fs[i]), ffkey(#[trigger] fs[j])) < 0
    &&& forall|i: int| 0 <= i < fs.len() ==> of_one(ffkey(#[trigger] fs[i]), ms)
    &&& forall|j: int| 0 <= j < ms.len() ==> has_fam(fs, fkey(#[trigger] ms[j]))
}
pub open spec fn fams_named(fs: Seq<crate::metric::MetricFamily>, ms: Seq<crate::metric::Metric>) -> bool {
    &&& families_of(fs, ms)
    &&& fs.len() > 0 ==> ms.len() > 0 && ffkey(fs.last()) == fkey(ms.last()) && filled(entries(fs.last().metrics))
}
/// C14: whatever other threads do meanwhile, every family is reported once, in ascending order
pub proof fn families_named(fs: Seq<crate::metric::MetricFamily>, a: Seq<crate::metric::Metric>, ms: Seq<crate::metric::Metric>)
    requires fams_named(fs, a), a.to_multiset() == ms.to_multiset(),
    ensures families_of(fs, ms),
{
    hide(fkey); hide(ffkey); hide(fam_cmp);
    assert forall|i: int| 0 <= i < fs.len() implies of_one(ffkey(#[trigger] fs[i]), ms) by {
        let j = choose|j: int| 0 <= j < a.len() && fkey(#[trigger] a[j]) == ffkey(fs[i]);
        a.to_multiset_ensures(); ms.to_multiset_ensures();
        assert(a.contains(a[j])); assert(ms.to_multiset().count(a[j]) > 0); assert(ms.contains(a[j]));
    }
    assert forall|j: int| 0 <= j < ms.len() implies has_fam(fs, fkey(#[trigger] ms[j])) by {
        a.to_multiset_ensures(); ms.to_multiset_ensures();
        assert(ms.contains(ms[j])); assert(a.to_multiset().count(ms[j]) > 0); assert(a.contains(ms[j]));
        let l = choose|l: int| 0 <= l < a.len() && a[l] == ms[j];
        assert(has_fam(fs, fkey(a[l])));
    }
}
pub proof fn fams_named_next(w: World, fs: Seq<crate::metric::MetricFamily>, ms: Seq<crate::metric::Metric>, m: crate::metric::Metric, f2: Seq<crate::metric::MetricFamily>)
    requires fams_named(fs, ms), fams_next(w, fs, m, f2), ms.len() > 0 ==> fam_cmp(fkey(ms.last()), fkey(m)) <= 0,
    ensures fams_named(f2, ms.push(m)), f2.len() > 0, filled(entries(f2.last().metrics)),
{
    let z = ms.push(m);
    let old_ = fs.len() > 0 && fam_takes(fs.last(), m);
    assert(ffkey(f2.last()) == fkey(m));
    assert(filled(entries(f2.last().metrics)));
    if old_ { assert(ffkey(f2.last()) == ffkey(fs.last())); }
    else if fs.len() > 0 { assert(ffkey(fs.last()) != fkey(m)); fam_ord(ffkey(fs.last()), fkey(m)); }
    fams_named_step(fs, ms, m, f2);
}
pub proof fn fams_named_step(fs: Seq<crate::metric::MetricFamily>, ms: Seq<crate::metric::Metric>, m: crate::metric::Metric, f2: Seq<crate::metric::MetricFamily>)
    requires
        families_of(fs, ms), f2.len() > 0, ffkey(f2.last()) == fkey(m),
        f2.len() == fs.len() && ffkey(fs.last()) == fkey(m) && f2.drop_last() =~= fs.drop_last()
            || f2.len() == fs.len() + 1 && f2.drop_last() =~= fs && (fs.len() > 0 ==> fam_cmp(ffkey(fs.last()), fkey(m)) < 0),
    ensures families_of(f2, ms.push(m)),
{
    hide(fkey); hide(ffkey); hide(fam_cmp);
    let z = ms.push(m); let n = fs.len() as int;
    assert(z[ms.len() as int] == m);
    assert forall|i: int| 0 <= i < f2.len() - 1 implies #[trigger] f2[i] == fs[i] by { assert(f2[i] == f2.drop_last()[i]); }
    assert forall|i: int, j: int| 0 <= i < j < f2.len() implies fam_cmp(ffkey(#[trigger] f2[i]), ffkey(#[trigger] f2[j])) < 0 by {
        if j == n && i < n - 1 { fam_ord(ffkey(fs[i]), ffkey(fs[n - 1])); fam_tr(ffkey(fs[i]), ffkey(fs[n - 1]), fkey(m)); }
    }
    assert forall|i: int| 0 <= i < f2.len() implies of_one(ffkey(#[trigger] f2[i]), z) by {
        if i < f2.len() - 1 { let j = choose|j: int| 0 <= j < ms.len() && fkey(#[trigger] ms[j]) == ffkey(fs[i]); assert(z[j] == ms[j]); }
    }
    assert forall|j: int| 0 <= j < z.len() implies has_fam(f2, fkey(#[trigger] z[j])) by {
        if j < ms.len() {
            assert(z[j] == ms[j]);
            let i = choose|i: int| 0 <= i < fs.len() && ffkey(#[trigger] fs[i]) == fkey(ms[j]);
            if i < f2.len() - 1 { assert(f2[i] == fs[i]); } else { assert(ffkey(f2[i]) == fkey(m)); }
        } else { assert(ffkey(f2[f2.len() - 1]) == fkey(m)); }
    }
}
pub proof fn received(a: Seq<int>, r: Seq<int>, c: Seq<int>)
    requires c.len() > 0, c.drop_last() == a + r,
    ensures c == a + r.push(c.last()),
{ assert(c =~= c.drop_last().push(c.last())); assert(c =~= a + r.push(c.last())); }
pub proof fn taken(r: Seq<int>, q: Seq<int>, x: int)
    requires q.len() > 0, q[0] == x,
    ensures r.push(x) + q.drop_first() == r + q,
{ assert(r.push(x) + q.drop_first() =~= r + q); }
pub proof fn none_yet(w: World, fs: Seq<crate::metric::MetricFamily>, g: Groups, ms: Seq<crate::metric::Metric>)
    requires fs.len() == 0, g.len() == 0,
    ensures fams_are(w, fs, g), tidy(w, g), fams_named(fs, ms.take(0)), flat3(g) =~= ms.take(0),
{}
pub proof fn by_name_at(ms: Seq<crate::metric::Metric>, i: int)
    requires by_name(ms), 0 < i < ms.len(),
    ensures fam_cmp(fkey(ms[i - 1]), fkey(ms[i])) <= 0,
{}
pub proof fn sorted_at(ms: Seq<crate::metric::Metric>, c: spec_fn(crate::metric::Metric, crate::metric::Metric) -> int, i: int)
    requires sorted_by_cmp(ms, c), 0 < i < ms.len(),
    ensures c(ms[i - 1], ms[i]) <= 0,
{}
/// the collectors that were there and those received are each asked once
pub open spec fn asked_once(was: Seq<int>, rcv: Seq<int>, asked: Seq<int>) -> bool { asked.to_multiset() == (was + rcv).to_multiset() }

//@ fn registry::Collector::collect(metrics) props=C16
    ensures served(*old(w), *final(w), old(self).0.id(), old(metrics)@, final(metrics)@, r), final(self).0.id() == old(self).0.id(),
//@ fn registry::Gatherer::new() props=C16
    ensures r.tx.ch() == r.rx.ch(), r.collectors@.len() == 0,
//@ fn registry::Gatherer::default() props=C16
    ensures r.tx.ch() == r.rx.ch(), r.collectors@.len() == 0,
//@ fn metric::MetricFamilies::into_iter() props=C14
    ensures r.seq() == self.0@,
//@ fn registry::Gatherer::registry() props=C16
    ensures r.tx.ch() == self.tx.ch(),
//@ fn registry::Gatherer::gather() props=C14,C16
    ensures
        final(self).tx == old(self).tx, final(self).rx == old(self).rx,
        final(w).polls =~= old(w).polls + final(w).polls.skip(old(w).polls.len() as int),
        exists|rcv: Seq<int>| #[trigger] asked_once(cids(old(self).collectors@), rcv, ids(final(w).polls.skip(old(w).polls.len() as int))) && (old(w).quiet ==> rcv == old(w).queue[old(self).rx.ch()]),
        live(final(w).polls.skip(old(w).polls.len() as int)).to_multiset() == cids(final(self).collectors@).to_multiset(),
        families_of(r.0@, gathered(final(w).polls.skip(old(w).polls.len() as int))),
        old(w).quiet ==> exists|g: Groups| #[trigger] reported(*final(w), r.0@, g, gathered(final(w).polls.skip(old(w).polls.len() as int))),
//@ head
    hide(asking); hide(fams_are); hide(tidy); hide(fam_takes); hide(fam_took); hide(fam_fresh); hide(filled); hide(entries); hide(grow); hide(mkey); hide(final_one); hide(key_cmp); hide(fams_named); hide(families_of); hide(by_name); hide(is_perm); hide(fams_next); hide(fam_cmp); hide(sorted_by_cmp);
//@ entry
    let ghost mut __p: Seq<(int, Answer)> = Seq::empty();
    let ghost mut __g: Groups = Seq::empty();
    let ghost mut __r: Seq<int> = Seq::empty();
//@ loop 0 pre
    let ghost mut __c = cids(self.collectors@);
    let ghost mut __q = w.queue[self.rx.ch()];
    proof { assert(__c + __r =~= __c); assert(__r + __q =~= __q); }
//@ loop 0 while_let
    w.quiet == old(w).quiet, w.polls == old(w).polls,
    self.tx == old(self).tx, self.rx == old(self).rx,
    __c == cids(self.collectors@), __c == cids(old(self).collectors@) + __r,
    w.quiet ==> __q == w.queue[self.rx.ch()] && __r + __q == old(w).queue[old(self).rx.ch()],
//@ loop 0 end
    proof {
        let c = cids(self.collectors@);
        assert(c.drop_last() =~= __c);
        received(cids(old(self).collectors@), __r, c);
        if w.quiet { assert(__q[0] == c.last()); taken(__r, __q, c.last()); __q = w.queue[self.rx.ch()]; }
        __r = __r.push(c.last());
        __c = c;
    }
//@ loop 0 post
    let ghost __all = cids(self.collectors@);
    proof { if w.quiet { assert(__r + __q =~= __r); } }
//@ loop 1 pre
    proof { asking_starts(cids(self.collectors@)); }
//@ loop 1 while
    w.quiet == old(w).quiet, w.polls =~= old(w).polls + __p,
    self.tx == old(self).tx, self.rx == old(self).rx,
    i <= self.collectors@.len(), asking(__all, cids(self.collectors@), i as int, __p),
    metrics@ =~= gathered(__p),
//@ loop 1 body
    let ghost __q = cids(self.collectors@);
    let ghost __i0 = i as int;
//@ loop 1 end
    proof {
        let a = w.polls.last().1;
        asking_turn(__all, __q, __i0, __p, cids(self.collectors@), i as int, a);
        assert(__p.push((__q[__i0], a)).drop_last() =~= __p);
        __p = __p.push((__q[__i0], a));
    }
//@ loop 1 post
    let ghost __w2 = *w;
    proof { asking_ends(__all, cids(self.collectors@), __p); assert(w.polls.skip(old(w).polls.len() as int) =~= __p); assert(asked_once(cids(old(self).collectors@), __r, ids(__p))); }
//@ loop 2 slice
    *w == __w2, __ks2@.len() == __i2,
    forall|i: int| 0 <= i < __i2 ==> kview(#[trigger] __ks2@[i]).0 == fkey(__s2@[i]),
    w.quiet ==> forall|i: int| 0 <= i < __i2 ==> kview(#[trigger] __ks2@[i]) == mkey(*w, __s2@[i]),
//@ loop 2 end
    proof { reveal(mkey); }
//@ loop 3 user
    *w == __w2, __s3.inner.wf(), __acc3@ =~= __s3.inner.s@.take(__s3.inner.pos as int),
    w.quiet ==> lviews(__s3.inner.s@) == labels_of(*w, mlabels(*__x2)),
//@ loop 3 post
    proof { assert(__acc3@ =~= __s3.inner.s@); }
//@ sort 0
    let ghost __k = $k@;
    proof { keys_preorder(__k); assert(named(__k, $v@)); if w.quiet { assert(keyed(*w, __k, $v@)); } }
//@ sorted 0
    let ghost __m = metrics@;
    proof {
        let p = sort_perm(__k, ord_of::<SortKey>());
        let n = arranged(__k, p);
        arranged_keys(*w, __k, __u, p);
        sorted_names(n, __m);
        if w.quiet { sorted_keys(*w, n, __m); }
    }
//@ loop 4 pre
    proof { none_yet(*w, families@, __g, __g4); }
//@ loop 4 owned
    *w == __w2,
    families@.len() > 0 ==> filled(entries(families@.last().metrics)),
    fams_named(families@, __g4.take(__s4.pos())),
    w.quiet ==> {
        &&& fams_are(*w, families@, __g) && tidy(*w, __g) && flat3(__g) =~= __g4.take(__s4.pos())
        &&& __g.len() > 0 ==> __s4.pos() > 0 && final_one(__g) == __g4[__s4.pos() - 1]
    },
//@ loop 4 body
    let ghost __f0 = families@;
    proof { if w.quiet { fams_filled(*w, families@, __g); } }
//@ loop 4 end
    proof {
        assert(fams_next(*w, __f0, __x4, families@)) by { reveal(fams_next); }
        if w.quiet {
            fams_grow(*w, __f0, __g, __x4, families@);
            if __g.len() > 0 { sorted_at(__g4, metric_cmp(*w), __s4.pos() - 1); }
            grow_tidy(*w, __g, __x4);
            __g = grow(*w, __g, __x4);
        }
        assert(__s4.pos() > 1 ==> __g4.take(__s4.pos() - 1).last() == __g4[__s4.pos() - 2]);
        if __s4.pos() > 1 { by_name_at(__g4, __s4.pos() - 1); }
        fams_named_next(*w, __f0, __g4.take(__s4.pos() - 1), __x4, families@);
        assert(__g4.take(__s4.pos()) =~= __g4.take(__s4.pos() - 1).push(__x4));
    }
//@ loop 4 post
    proof {
        assert(__g4.take(__g4.len() as int) =~= __g4);
        families_named(families@, __g4, gathered(__p));
        if w.quiet { assert(reported(*w, families@, __g, gathered(__p))); }
    }
//@ exit
    proof { if w.quiet { assert(reported(*w, __r.0@, __g, gathered(__p))); } }
