//@ spec
// ------------------------------------------------------------ the exposition
/// a number, with infinities and not-a-number spelled as documented
pub open spec fn num_text(x: F64) -> Seq<char> { if x.finite() { f64_text(x) } else if x.nan() { "NaN"@ } else if x.negb() { "-Inf"@ } else { "+Inf"@ } }
/// the labels in braces when there are any
pub open spec fn braces(l: Seq<LV>) -> Seq<char> { if l.len() == 0 { Seq::empty() } else { labels_text(l) } }
/// the timestamp exactly when one is set
pub open spec fn ts_text(t: Option<int>) -> Seq<char> { match t { Some(x) => " "@ + int_text(x), None => Seq::empty() } }
/// a sample line, without its end
pub open spec fn sample(name: Seq<char>, l: Seq<LV>, v: Seq<char>, t: Option<int>) -> Seq<char> { name + braces(l) + " "@ + v + ts_text(t) }
/// labels after another one
pub open spec fn more_labels(l: Seq<LV>) -> Seq<char>
    decreases l.len()
{ if l.len() == 0 { Seq::empty() } else { more_labels(l.drop_last()) + ","@ + label_text(l.last()) } }
pub open spec fn bucket_line(name: Seq<char>, l: Seq<LV>, b: (F64, int), t: Option<int>) -> Seq<char> {
    name + "_bucket{le=\""@ + num_text(b.0) + "\""@ + more_labels(l) + "} "@ + int_text(b.1) + ts_text(t) + "\n"@
}
pub open spec fn bucket_lines(name: Seq<char>, l: Seq<LV>, b: Seq<(F64, int)>, t: Option<int>) -> Seq<char>
    decreases b.len()
{ if b.len() == 0 { Seq::empty() } else { bucket_lines(name, l, b.drop_last(), t) + bucket_line(name, l, b.last(), t) } }
pub open spec fn quantile_line(name: Seq<char>, l: Seq<LV>, q: (crate::quantile::Quantile, F64), t: Option<int>) -> Seq<char> {
    name + "{quantile=\""@ + f64_text(q.0.0) + "\""@ + more_labels(l) + "} "@ + num_text(q.1) + ts_text(t) + "\n"@
}
pub open spec fn quantile_lines(name: Seq<char>, l: Seq<LV>, q: Seq<(crate::quantile::Quantile, F64)>, t: Option<int>) -> Seq<char>
    decreases q.len()
{ if q.len() == 0 { Seq::empty() } else { quantile_lines(name, l, q.drop_last(), t) + quantile_line(name, l, q.last(), t) } }
pub open spec fn sum_and_count(name: Seq<char>, l: Seq<LV>, sum: F64, count: int, t: Option<int>) -> Seq<char> {
    sample(name + "_sum"@, l, num_text(sum), t) + "\n"@ + sample(name + "_count"@, l, int_text(count), t)
}
/// the buckets a plain histogram shows
pub open spec fn cum_list(w: World, s: Seq<crate::bucket::Bucket>, n: int) -> Seq<(F64, int)> { Seq::new(n as nat, |i: int| (s[i].upper_bound, cum(w, s, i + 1))) }
pub open spec fn labels_of(w: World, l: crate::label::Labels) -> Seq<LV> { w.lab[l.0.id()] }
pub proof fn cat(a: Seq<char>, b: Seq<char>, c: Seq<char>)
    ensures (a + b) + c == a + (b + c),
{ assert((a + b) + c =~= a + (b + c)); }
// the same texts, written after a prefix
pub open spec fn more_labels_at(p: Seq<char>, l: Seq<LV>) -> Seq<char>
    decreases l.len()
{ if l.len() == 0 { p } else { more_labels_at(p, l.drop_last()) + ","@ + label_text(l.last()) } }
pub open spec fn bucket_line_at(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: (F64, int), t: Option<int>) -> Seq<char> {
    more_labels_at(p + name + "_bucket{le=\""@ + num_text(b.0) + "\""@, l) + "} "@ + int_text(b.1) + ts_text(t) + "\n"@
}
pub open spec fn bucket_lines_at(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: Seq<(F64, int)>, t: Option<int>) -> Seq<char>
    decreases b.len()
{ if b.len() == 0 { p } else { bucket_line_at(bucket_lines_at(p, name, l, b.drop_last(), t), name, l, b.last(), t) } }
pub open spec fn sum_and_count_at(p: Seq<char>, name: Seq<char>, l: Seq<LV>, sum: F64, count: int, t: Option<int>) -> Seq<char> {
    p + name + "_sum"@ + braces(l) + " "@ + num_text(sum) + ts_text(t) + "\n"@ + name + "_count"@ + braces(l) + " "@ + int_text(count) + ts_text(t)
}
pub proof fn four(p: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>)
    ensures p + a + b + c + d == p + (a + b + c + d),
{ cat(p, a, b); cat(p, a + b, c); cat(p, a + b + c, d); }
pub proof fn six(p: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>, g: Seq<char>)
    ensures p + a + b + c + d + e + g == p + (a + b + c + d + e + g),
{ four(p, a, b, c, d); cat(p, a + b + c + d, e); cat(p, a + b + c + d + e, g); }
pub proof fn more_labels_pre(p: Seq<char>, l: Seq<LV>)
    ensures more_labels_at(p, l) == p + more_labels(l),
    decreases l.len()
{
    if l.len() == 0 { assert(p + more_labels(l) =~= p); } else {
        more_labels_pre(p, l.drop_last());
        let m = more_labels(l.drop_last());
        cat(p, m, ","@); cat(p, m + ","@, label_text(l.last()));
    }
}
pub proof fn bucket_line_pre(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: (F64, int), t: Option<int>)
    ensures bucket_line_at(p, name, l, b, t) == p + bucket_line(name, l, b, t),
{
    let (x, y) = (num_text(b.0), "\""@);
    let h = name + "_bucket{le=\""@ + x + y;
    let m = more_labels(l);
    more_labels_pre(p + name + "_bucket{le=\""@ + x + y, l);
    four(p, name, "_bucket{le=\""@, x, y);
    cat(p, h, m);
    four(p, h + m, "} "@, int_text(b.1), ts_text(t));
    cat(p, h + m + "} "@ + int_text(b.1) + ts_text(t), "\n"@);
}
pub proof fn bucket_lines_pre(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: Seq<(F64, int)>, t: Option<int>)
    ensures bucket_lines_at(p, name, l, b, t) == p + bucket_lines(name, l, b, t),
    decreases b.len()
{
    if b.len() == 0 { assert(p + bucket_lines(name, l, b, t) =~= p); } else {
        bucket_lines_pre(p, name, l, b.drop_last(), t);
        bucket_line_pre(bucket_lines_at(p, name, l, b.drop_last(), t), name, l, b.last(), t);
        cat(p, bucket_lines(name, l, b.drop_last(), t), bucket_line(name, l, b.last(), t));
    }
}
pub proof fn sum_and_count_pre(p: Seq<char>, name: Seq<char>, l: Seq<LV>, sum: F64, count: int, t: Option<int>)
    ensures sum_and_count_at(p, name, l, sum, count, t) == p + sum_and_count(name, l, sum, count, t),
{
    let (br, x, y, ts, s, nl) = (braces(l), num_text(sum), int_text(count), ts_text(t), " "@, "\n"@);
    let (ns, nc) = (name + "_sum"@, name + "_count"@);
    // the first line
    let a = p + name + "_sum"@ + br + s + x + ts;
    six(p, name, "_sum"@, br, s, x, ts);
    let a1 = ns + br + s + x + ts;
    assert(a == p + a1);
    cat(p, a1, nl);
    let q = p + (a1 + nl);
    // the second one
    let b = q + name + "_count"@ + br + s + y + ts;
    six(q, name, "_count"@, br, s, y, ts);
    let b1 = nc + br + s + y + ts;
    assert(b == q + b1);
    cat(p, a1 + nl, b1);
}
/// all of a histogram
pub proof fn hist_pre(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: Seq<(F64, int)>, sum: F64, count: int, t: Option<int>)
    ensures sum_and_count_at(bucket_lines_at(p, name, l, b, t), name, l, sum, count, t) == p + (bucket_lines(name, l, b, t) + sum_and_count(name, l, sum, count, t)),
{
    bucket_lines_pre(p, name, l, b, t);
    sum_and_count_pre(bucket_lines_at(p, name, l, b, t), name, l, sum, count, t);
    cat(p, bucket_lines(name, l, b, t), sum_and_count(name, l, sum, count, t));
}
pub proof fn bucket_lines_at_step(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: Seq<(F64, int)>, x: (F64, int), t: Option<int>)
    ensures bucket_lines_at(p, name, l, b.push(x), t) == bucket_line_at(bucket_lines_at(p, name, l, b, t), name, l, x, t),
{ assert(b.push(x).drop_last() =~= b); }
pub proof fn more_labels_at_step(p: Seq<char>, l: Seq<LV>, k: int)
    requires 0 <= k < l.len(),
    ensures more_labels_at(p, l.take(k + 1)) == more_labels_at(p, l.take(k)) + ","@ + label_text(l[k]),
{ assert(l.take(k + 1).drop_last() =~= l.take(k)); }
pub open spec fn quantile_line_at(p: Seq<char>, name: Seq<char>, l: Seq<LV>, q: (crate::quantile::Quantile, F64), t: Option<int>) -> Seq<char> {
    more_labels_at(p + name + "{quantile=\""@ + f64_text(q.0.0) + "\""@, l) + "} "@ + num_text(q.1) + ts_text(t) + "\n"@
}
pub open spec fn quantile_lines_at(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: Seq<(crate::quantile::Quantile, F64)>, t: Option<int>) -> Seq<char>
    decreases b.len()
{ if b.len() == 0 { p } else { quantile_line_at(quantile_lines_at(p, name, l, b.drop_last(), t), name, l, b.last(), t) } }
pub proof fn quantile_line_pre(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: (crate::quantile::Quantile, F64), t: Option<int>)
    ensures quantile_line_at(p, name, l, b, t) == p + quantile_line(name, l, b, t),
{
    let (x, y) = (f64_text(b.0.0), "\""@);
    let h = name + "{quantile=\""@ + x + y;
    let m = more_labels(l);
    more_labels_pre(p + name + "{quantile=\""@ + x + y, l);
    four(p, name, "{quantile=\""@, x, y);
    cat(p, h, m);
    four(p, h + m, "} "@, num_text(b.1), ts_text(t));
    cat(p, h + m + "} "@ + num_text(b.1) + ts_text(t), "\n"@);
}
pub proof fn quantile_lines_pre(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: Seq<(crate::quantile::Quantile, F64)>, t: Option<int>)
    ensures quantile_lines_at(p, name, l, b, t) == p + quantile_lines(name, l, b, t),
    decreases b.len()
{
    if b.len() == 0 { assert(p + quantile_lines(name, l, b, t) =~= p); } else {
        quantile_lines_pre(p, name, l, b.drop_last(), t);
        quantile_line_pre(quantile_lines_at(p, name, l, b.drop_last(), t), name, l, b.last(), t);
        cat(p, quantile_lines(name, l, b.drop_last(), t), quantile_line(name, l, b.last(), t));
    }
}
/// all of a summary
pub proof fn sum_pre(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: Seq<(crate::quantile::Quantile, F64)>, sum: F64, count: int, t: Option<int>)
    ensures sum_and_count_at(quantile_lines_at(p, name, l, b, t), name, l, sum, count, t) == p + (quantile_lines(name, l, b, t) + sum_and_count(name, l, sum, count, t)),
{
    quantile_lines_pre(p, name, l, b, t);
    sum_and_count_pre(quantile_lines_at(p, name, l, b, t), name, l, sum, count, t);
    cat(p, quantile_lines(name, l, b, t), sum_and_count(name, l, sum, count, t));
}
pub proof fn quantile_lines_at_step(p: Seq<char>, name: Seq<char>, l: Seq<LV>, b: Seq<(crate::quantile::Quantile, F64)>, k: int, t: Option<int>)
    requires 0 <= k < b.len(),
    ensures quantile_lines_at(p, name, l, b.take(k + 1), t) == quantile_line_at(quantile_lines_at(p, name, l, b.take(k), t), name, l, b[k], t),
{ assert(b.take(k + 1).drop_last() =~= b.take(k)); }
pub open spec fn sum_face(h: &crate::metrics::summary::Summary, w: &World) -> (Seq<char>, Seq<LV>, Option<int>) { (name_text(h.0.quantile_name), labels_of(*w, h.0.labels), cell_ts(*w, h.0.timestamp)) }
pub open spec fn sum_total(h: &crate::metrics::summary::Summary, w: &World) -> F64 { f_of(w.cur[h.0.sum.0.id()]) }
pub open spec fn sum_count(h: &crate::metrics::summary::Summary, w: &World) -> int { w.cur[h.0.count.0.id()] }
/// all that a summary shows when its quantiles are q
pub open spec fn sum_text(h: &crate::metrics::summary::Summary, w: &World, q: Seq<(crate::quantile::Quantile, F64)>) -> Seq<char> {
    let (n, l, t) = sum_face(h, w);
    quantile_lines(n, l, q, t) + sum_and_count(n, l, sum_total(h, w), sum_count(h, w), t)
}
pub open spec fn hist_sum(h: &crate::metrics::histogram::Histogram, w: &World) -> F64 { f_of(w.cur[sum_id(*h.0)]) }
pub open spec fn hist_face(h: &crate::metrics::histogram::Histogram, w: &World) -> (Seq<char>, Seq<LV>, Option<int>) { (name_text(h.0.bucket_name), labels_of(*w, h.0.labels), cell_ts(*w, h.0.timestamp)) }

pub open spec fn __all_none<'a>() -> Seq<PeekIter<'a, crate::bucket::Bucket>> { Seq::empty() }
/// at most a cell of its own was made
pub open spec fn cell_more(o: World, n: World) -> bool { exists|id: int, v: int| #[trigger] born(o, n, id, v) }
pub open spec fn agg_hist_face(h: Seq<crate::metrics::histogram::Histogram>, w: &World) -> (Seq<char>, Seq<LV>, Option<int>) { (name_text(h[0].0.bucket_name), labels_of(*w, h[0].0.labels), hist_latest(*w, h)) }
/// what an aggregation of histograms shows when its buckets are es
pub open spec fn agg_hist_text(h: Seq<crate::metrics::histogram::Histogram>, o: &World, w: &World, es: Seq<(F64, int)>) -> Seq<char> {
    let (n, l, t) = agg_hist_face(h, o);
    bucket_lines(n, l, es, t) + sum_and_count(n, l, hist_sums(*w, h), hist_counts(*w, h), t)
}
/// how many observations of all members lie at or below x
pub open spec fn below(c: Map<int, int>, h: Seq<crate::metrics::histogram::Histogram>, x: int) -> int
    decreases h.len()
{ if h.len() == 0 { 0 } else { below(c, h.drop_last(), x) + gsum(c, h.last().0.buckets@, 0, x) } }
/// C11: the bounds of all members, each once and in ascending order up to +Inf, each with the count of everything at or below it
pub open spec fn listing(c: Map<int, int>, h: Seq<crate::metrics::histogram::Histogram>, es: Seq<(F64, int)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0.key() < (#[trigger] es[j]).0.key()
    &&& forall|i: int| 0 <= i < es.len() ==> (#[trigger] es[i]).1 == acc64(0, below(c, h, es[i].0.key())) && some_bound(h, es[i].0)
    &&& forall|m: int, k: int| 0 <= m < h.len() && 0 <= k < h[m].0.buckets@.len() ==> bound_listed(es, (#[trigger] h[m].0.buckets@[k]).upper_bound)
    &&& es.len() > 0 && es.last().0 == finf()
}
pub open spec fn some_bound(h: Seq<crate::metrics::histogram::Histogram>, x: F64) -> bool { exists|m: int, k: int| 0 <= m < h.len() && 0 <= k < h[m].0.buckets@.len() && (#[trigger] h[m].0.buckets@[k]).upper_bound == x }
pub open spec fn bound_listed(es: Seq<(F64, int)>, x: F64) -> bool { exists|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0.key() == x.key() }
pub open spec fn last_of(es: Seq<(F64, int)>) -> Option<int> { if es.len() == 0 { None } else { Some(es.last().0.key()) } }
/// the same for the bounds listed so far
pub open spec fn listing_to<'a>(c: Map<int, int>, all: Seq<PeekIter<'a, crate::bucket::Bucket>>, es: Seq<(F64, int)>) -> bool {
    &&& forall|i: int, j: int| 0 <= i < j < es.len() ==> (#[trigger] es[i]).0.key() < (#[trigger] es[j]).0.key()
    &&& forall|i: int| 0 <= i < es.len() ==> !(#[trigger] es[i]).0.nan() && es[i].1 == acc64(0, fsum(c, all, es[i].0.key())) && bound_left(all, es[i].0)
    &&& forall|b: crate::bucket::Bucket| #[trigger] left(all, b) && es.len() > 0 && b.upper_bound.key() <= es.last().0.key() ==> bound_listed(es, b.upper_bound)
}
pub proof fn listing_step<'a>(c: Map<int, int>, all: Seq<PeekIter<'a, crate::bucket::Bucket>>, es: Seq<(F64, int)>, x: (F64, int))
    requires
        listing_to(c, all, es), !x.0.nan(), x.1 == acc64(0, fsum(c, all, x.0.key())), bound_left(all, x.0),
        last_of(es) is Some ==> last_of(es)->0 < x.0.key(),
        forall|b: crate::bucket::Bucket| #[trigger] left(all, b) ==> (last_of(es) is Some && b.upper_bound.key() <= last_of(es)->0) || b.upper_bound.key() >= x.0.key(),
    ensures listing_to(c, all, es.push(x)),
{
    hide(fsum); hide(acc64); hide(left); hide(bound_left); hide(F64::nan); hide(F64::key);
    let n = es.push(x);
    assert forall|i: int| 0 <= i < n.len() implies !(#[trigger] n[i]).0.nan() && n[i].1 == acc64(0, fsum(c, all, n[i].0.key())) && bound_left(all, n[i].0) by {
        if i < es.len() { assert(n[i] == es[i]); } else { assert(n[i] == x); }
    }
    assert forall|i: int, j: int| 0 <= i < j < n.len() implies (#[trigger] n[i]).0.key() < (#[trigger] n[j]).0.key() by {
        if j == es.len() && i < es.len() - 1 { assert(es[i].0.key() < es[es.len() - 1].0.key()); }
    }
    assert forall|b: crate::bucket::Bucket| #[trigger] left(all, b) && n.len() > 0 && b.upper_bound.key() <= n.last().0.key() implies bound_listed(n, b.upper_bound) by {
        if last_of(es) is Some && b.upper_bound.key() <= last_of(es)->0 {
            assert(bound_listed(es, b.upper_bound));
            let i = choose|i: int| 0 <= i < es.len() && (#[trigger] es[i]).0.key() == b.upper_bound.key();
            assert(n[i] == es[i]);
        } else { assert(n[n.len() - 1].0.key() == b.upper_bound.key()); }
    }
}
pub proof fn below_is<'a>(c: Map<int, int>, h: Seq<crate::metrics::histogram::Histogram>, all: Seq<PeekIter<'a, crate::bucket::Bucket>>, x: int)
    requires lists_of(h, all),
    ensures below(c, h, x) == fsum(c, all, x),
    decreases h.len(),
{
    if h.len() > 0 {
        let (d, e) = (h.drop_last(), all.drop_last());
        assert forall|i: int| 0 <= i < d.len() implies (#[trigger] e[i]).pos == 0 && e[i].s@ == d[i].0.buckets@ by { assert(all[i].pos == 0); }
        below_is(c, d, e, x);
        assert(all[h.len() - 1].pos == 0);
    }
}
pub proof fn listing_done<'a>(c: Map<int, int>, h: Seq<crate::metrics::histogram::Histogram>, all: Seq<PeekIter<'a, crate::bucket::Bucket>>, n: crate::bucket::AggregatedCumulativeBuckets<'a>, es: Seq<(F64, int)>)
    requires h.len() > 0, all_hist_ok(h), lists_of(h, all), its_ok(all), listing_to(c, all, es), merged(c, all, n, last_of(es)), forall|b: crate::bucket::Bucket| !#[trigger] left(n.iters@, b),
    ensures listing(c, h, es),
{
    let e = if es.len() > 0 { es.last().0 } else { finf() };
    if es.len() > 0 { assert(!es[es.len() - 1].0.nan()); }
    merge_ends(c, h, all, n, last_of(es), e);
    assert(es.last().0 == finf());
    assert forall|i: int| 0 <= i < es.len() implies (#[trigger] es[i]).1 == acc64(0, below(c, h, es[i].0.key())) && some_bound(h, es[i].0) by {
        below_is(c, h, all, es[i].0.key());
        assert(bound_left(all, es[i].0));
        let b = choose|b: crate::bucket::Bucket| #[trigger] left(all, b) && b.upper_bound == es[i].0;
        reveal(left);
        let (m, k) = choose|m: int, k: int| 0 <= m < all.len() && all[m].pos <= k < all[m].s@.len() && #[trigger] all[m].s@[k] == b;
        assert(all[m].pos == 0);
        assert(h[m].0.buckets@[k].upper_bound == es[i].0);
    }
    assert forall|m: int, k: int| 0 <= m < h.len() && 0 <= k < h[m].0.buckets@.len() implies bound_listed(es, (#[trigger] h[m].0.buckets@[k]).upper_bound) by {
        let b = h[m].0.buckets@[k];
        assert(all[m].pos == 0 && all[m].s@[k] == b);
        assert(left(all, b)) by { reveal(left); assert(all[m].pos <= k); }
        assert(!left(n.iters@, b));
        assert(b.upper_bound.key() <= es.last().0.key());
    }
}
/// C11: the count of the +Inf bucket is the count of all observations
pub proof fn listing_counts(w: World, h: Seq<crate::metrics::histogram::Histogram>, es: Seq<(F64, int)>)
    requires listing(w.cur, h, es), all_hist_ok(h),
    ensures es.last().1 == hist_counts(w, h),
{
    assert(es[es.len() - 1].1 == acc64(0, below(w.cur, h, finf().key())));
    below_counts(w, h);
}
pub proof fn below_counts(w: World, h: Seq<crate::metrics::histogram::Histogram>)
    requires all_hist_ok(h),
    ensures acc64(0, below(w.cur, h, finf().key())) == hist_counts(w, h),
    decreases h.len(),
{
    if h.len() > 0 {
        let d = h.drop_last();
        assert forall|i: int| 0 <= i < d.len() implies hist_ok(*(#[trigger] d[i]).0) by { assert(d[i] == h[i]); }
        below_counts(w, d);
        assert(hist_ok(*h[h.len() - 1].0));
        let s = h.last().0.buckets@;
        gsum_inf(w.cur, s, 0);
        cum_total(w, s, s.len() as int);
        let (a, b) = (below(w.cur, d, finf().key()), tsum(w.cur, s, 0));
        assert(tsum_to(w.cur, s, s.len() as int) == b) by { tsum_split(w.cur, s, 0); }
        add_wrap(a, acc64(0, b)); add_wrap(a, b);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, 0x1_0000_0000_0000_0000);
        vstd::arithmetic::div_mod::lemma_add_mod_noop(a % 0x1_0000_0000_0000_0000, b % 0x1_0000_0000_0000_0000, 0x1_0000_0000_0000_0000);
        vstd::arithmetic::div_mod::lemma_mod_twice(a, 0x1_0000_0000_0000_0000);
        vstd::arithmetic::div_mod::lemma_mod_twice(b, 0x1_0000_0000_0000_0000);
    }
}
/// the first n counts added up
pub open spec fn tsum_to(c: Map<int, int>, s: Seq<crate::bucket::Bucket>, n: int) -> int
    decreases n
{ if n <= 0 { 0 } else { tsum_to(c, s, n - 1) + c[bid(s[n - 1])] } }
pub proof fn tsum_split(c: Map<int, int>, s: Seq<crate::bucket::Bucket>, p: int)
    requires 0 <= p <= s.len(),
    ensures tsum_to(c, s, s.len() as int) == tsum_to(c, s, p) + tsum(c, s, p),
    decreases s.len() - p,
{ if p < s.len() { tsum_split(c, s, p + 1); } }
pub proof fn cum_total(w: World, s: Seq<crate::bucket::Bucket>, n: int)
    requires 0 <= n <= s.len(),
    ensures cum(w, s, n) == acc64(0, tsum_to(w.cur, s, n)),
    decreases n,
{ if n > 0 { cum_total(w, s, n - 1); add_wrap(tsum_to(w.cur, s, n - 1), w.cur[bid(s[n - 1])]); } }

pub proof fn listing_start<'a>(c: Map<int, int>, h: Seq<crate::metrics::histogram::Histogram>, a: crate::bucket::AggregatedCumulativeBuckets<'a>, p: Seq<char>, n: Seq<char>, l: Seq<LV>, t: Option<int>)
    requires a.cumulative_count == 0,
    ensures merged(c, a.iters@, a, last_of(Seq::empty())), listing_to(c, a.iters@, Seq::empty()), bucket_lines_at(p, n, l, Seq::empty(), t) == p,
{}
pub proof fn no_more_labels(p: Seq<char>)
    ensures more_labels_at(p, Seq::empty()) == p,
{}

pub proof fn no_quantile_lines(p: Seq<char>, n: Seq<char>, l: Seq<LV>, t: Option<int>)
    ensures quantile_lines_at(p, n, l, Seq::empty(), t) == p,
{}
pub open spec fn agg_sum_face(h: Seq<crate::metrics::summary::Summary>, w: &World) -> (Seq<char>, Seq<LV>, Option<int>) { (name_text(h[0].0.quantile_name), labels_of(*w, h[0].0.labels), sum_latest(*w, h)) }
/// what an aggregation of summaries shows when its quantiles are q
pub open spec fn agg_sum_text(h: Seq<crate::metrics::summary::Summary>, o: &World, w: &World, q: Seq<(crate::quantile::Quantile, F64)>) -> Seq<char> {
    let (n, l, t) = agg_sum_face(h, o);
    quantile_lines(n, l, q, t) + sum_and_count(n, l, sum_sums(*w, h), sum_counts(*w, h), t)
}
/// visiting the members changes no counter, no sum and no label
pub proof fn visited_keeps(o: World, n: World, m: Seq<crate::metrics::summary::Summary>, v: Seq<Visit>)
    requires visited(o, n, m, v),
    ensures cells_kept(o, n), n.lab == o.lab, n.quiet == o.quiet,
    decreases m.len(),
{
    if m.len() > 0 {
        let p = choose|p: World| visited(o, p, m.drop_last(), v.drop_last()) && #[trigger] visit_one(p, n, m.last(), v.last());
        visited_keeps(o, p, m.drop_last(), v.drop_last());
        reveal(visit_one);
    }
}
pub proof fn visited_kept()
    ensures forall|o: World, n: World, m: Seq<crate::metrics::summary::Summary>, v: Seq<Visit>| #[trigger] visited(o, n, m, v) ==> cells_kept(o, n) && n.lab == o.lab && n.quiet == o.quiet,
{ assert forall|o: World, n: World, m: Seq<crate::metrics::summary::Summary>, v: Seq<Visit>| #[trigger] visited(o, n, m, v) implies cells_kept(o, n) && n.lab == o.lab && n.quiet == o.quiet by { visited_keeps(o, n, m, v); } }

/// one line or block of a family: an aggregation of metrics with the same name and labels
pub ghost enum Agg {
    C(crate::aggregated_metrics::AggregatedCounter),
    G(crate::aggregated_metrics::AggregatedGauge),
    S(crate::aggregated_metrics::AggregatedSummary),
    H(crate::aggregated_metrics::AggregatedHistogram),
}
pub open spec fn agg_c() -> spec_fn(crate::aggregated_metrics::AggregatedCounter) -> Agg { |m| Agg::C(m) }
pub open spec fn agg_g() -> spec_fn(crate::aggregated_metrics::AggregatedGauge) -> Agg { |m| Agg::G(m) }
pub open spec fn agg_s() -> spec_fn(crate::aggregated_metrics::AggregatedSummary) -> Agg { |m| Agg::S(m) }
pub open spec fn agg_h() -> spec_fn(crate::aggregated_metrics::AggregatedHistogram) -> Agg { |m| Agg::H(m) }
pub open spec fn entries(m: crate::metric::Metrics) -> Seq<Agg> {
    match m {
        crate::metric::Metrics::Counter(v) => v@.map_values(agg_c()),
        crate::metric::Metrics::Gauge(v) => v@.map_values(agg_g()),
        crate::metric::Metrics::Summary(v) => v@.map_values(agg_s()),
        crate::metric::Metrics::Histogram(v) => v@.map_values(agg_h()),
    }
}
/// an aggregation is made of at least one metric as `finish` makes them
pub open spec fn agg_ok(a: Agg) -> bool {
    match a {
        Agg::C(m) => true,
        Agg::G(m) => true,
        Agg::S(m) => m.inners@.len() > 0 && all_sum_ok(m.inners@),
        Agg::H(m) => m.inners@.len() > 0 && all_hist_ok(m.inners@),
    }
}
pub open spec fn all_ok(s: Seq<Agg>) -> bool { forall|i: int| 0 <= i < s.len() ==> agg_ok(#[trigger] s[i]) }
/// what the aggregation shows, and what showing it does
pub open spec fn shown(o: World, n: World, a: Agg, t: Seq<char>) -> bool {
    match a {
        Agg::C(m) => same(o, n) && t == sample(name_text(m.inner.0.name), labels_of(o, m.inner.0.labels), num_text(m.value), oi(m.timestamp)),
        Agg::G(m) => same(o, n) && t == sample(name_text(m.inner.0.name), labels_of(o, m.inner.0.labels), num_text(m.value), oi(m.timestamp)),
        Agg::S(m) => shown_sum(o, n, m.inners@, t),
        Agg::H(m) => shown_hist(o, n, m.inners@, t),
    }
}
pub open spec fn shown_hist(o: World, n: World, h: Seq<crate::metrics::histogram::Histogram>, t: Seq<char>) -> bool {
    cell_more(o, n) && exists|es: Seq<(F64, int)>| #[trigger] listing(n.cur, h, es) && t == agg_hist_text(h, &o, &n, es)
}
pub open spec fn shown_sum(o: World, n: World, h: Seq<crate::metrics::summary::Summary>, t: Seq<char>) -> bool {
    exists|p: World, v: Seq<Visit>, q: Seq<(crate::quantile::Quantile, F64)>|
        cell_more(o, p) && #[trigger] visited(p, n, h, v) && #[trigger] agg_reports(q, asked(h), pooled(v)) && t == agg_sum_text(h, &o, &n, q)
}
#[verifier::opaque]
pub open spec fn shown_one(o: World, n: World, a: Agg, t: Seq<char>) -> bool { shown(o, n, a, t) }
/// the aggregations are shown one after another
pub open spec fn all_shown(o: World, n: World, s: Seq<Agg>, ts: Seq<Seq<char>>) -> bool
    decreases s.len()
{
    ts.len() == s.len() && if s.len() == 0 { n == o } else { exists|p: World| all_shown(o, p, s.drop_last(), ts.drop_last()) && #[trigger] shown_one(p, n, s.last(), ts.last()) }
}
/// texts, each on a line of its own
pub open spec fn lines(ts: Seq<Seq<char>>) -> Seq<char>
    decreases ts.len()
{ if ts.len() == 0 { Seq::empty() } else { lines(ts.drop_last()) + ts.last() + "\n"@ } }
pub open spec fn kind_text(k: crate::metric::MetricKind) -> Seq<char> {
    match k {
        crate::metric::MetricKind::Counter => "counter"@,
        crate::metric::MetricKind::Gauge => "gauge"@,
        crate::metric::MetricKind::Summary => "summary"@,
        crate::metric::MetricKind::Histogram => "histogram"@,
    }
}
pub proof fn none_shown(w: World, p: Seq<char>, s: Seq<Agg>)
    ensures all_shown(w, w, s.take(0), Seq::empty()), p + lines(Seq::empty()) == p,
{ assert(p + lines(Seq::empty()) =~= p); }
/// the next one: the text t of it is what was written from b to e
pub open spec fn showing(o: World, n: World, a: Agg, b: Seq<char>, e: Seq<char>, t: Seq<char>) -> bool { shown_one(o, n, a, t) && e == b + t + "\n"@ }
pub proof fn shown_step(o: World, p: World, n: World, s: Seq<Agg>, ts: Seq<Seq<char>>, k: int, f0: Seq<char>, b: Seq<char>, e: Seq<char>) -> (r: Seq<Seq<char>>)
    requires 0 <= k < s.len(), all_shown(o, p, s.take(k), ts), b == f0 + lines(ts), exists|t: Seq<char>| #[trigger] showing(p, n, s[k], b, e, t),
    ensures all_shown(o, n, s.take(k + 1), r), e == f0 + lines(r),
{
    let t = choose|t: Seq<char>| #[trigger] showing(p, n, s[k], b, e, t);
    let r = ts.push(t);
    let s1 = s.take(k + 1);
    assert(s1.drop_last() =~= s.take(k));
    assert(s1.last() == s[k]);
    assert(r.drop_last() =~= ts);
    assert(all_shown(o, p, s1.drop_last(), r.drop_last()) && shown_one(p, n, s1.last(), r.last()));
    cat(f0, lines(ts), t);
    cat(f0, lines(ts) + t, "\n"@);
    r
}
pub open spec fn plain_c(m: &crate::aggregated_metrics::AggregatedCounter, w: &World) -> Seq<char> { sample(name_text(m.inner.0.name), labels_of(*w, m.inner.0.labels), num_text(m.value), oi(m.timestamp)) }
pub open spec fn plain_g(m: &crate::aggregated_metrics::AggregatedGauge, w: &World) -> Seq<char> { sample(name_text(m.inner.0.name), labels_of(*w, m.inner.0.labels), num_text(m.value), oi(m.timestamp)) }
pub proof fn showing_plain(o: World, a: Agg, b: Seq<char>, e: Seq<char>, t: Seq<char>)
    requires a is C || a is G, shown(o, o, a, t), e == b + t + "\n"@,
    ensures showing(o, o, a, b, e, t),
{ reveal(shown_one); }
pub proof fn showing_hist(o: World, n: World, m: crate::aggregated_metrics::AggregatedHistogram, b: Seq<char>, e: Seq<char>)
    requires cell_more(o, n), exists|es: Seq<(F64, int)>| #[trigger] listing(n.cur, m.inners@, es) && e == b + agg_hist_text(m.inners@, &o, &n, es) + "\n"@,
    ensures exists|t: Seq<char>| #[trigger] showing(o, n, Agg::H(m), b, e, t),
{
    let es = choose|es: Seq<(F64, int)>| #[trigger] listing(n.cur, m.inners@, es) && e == b + agg_hist_text(m.inners@, &o, &n, es) + "\n"@;
    reveal(shown_one);
    assert(showing(o, n, Agg::H(m), b, e, agg_hist_text(m.inners@, &o, &n, es)));
}
pub proof fn showing_sum(o: World, n: World, m: crate::aggregated_metrics::AggregatedSummary, b: Seq<char>, e: Seq<char>)
    requires exists|p: World, v: Seq<Visit>, q: Seq<(crate::quantile::Quantile, F64)>|
            cell_more(o, p) && #[trigger] visited(p, n, m.inners@, v) && #[trigger] agg_reports(q, asked(m.inners@), pooled(v)) && e == b + agg_sum_text(m.inners@, &o, &n, q) + "\n"@,
    ensures exists|t: Seq<char>| #[trigger] showing(o, n, Agg::S(m), b, e, t),
{
    let (p, v, q) = choose|p: World, v: Seq<Visit>, q: Seq<(crate::quantile::Quantile, F64)>|
            cell_more(o, p) && #[trigger] visited(p, n, m.inners@, v) && #[trigger] agg_reports(q, asked(m.inners@), pooled(v)) && e == b + agg_sum_text(m.inners@, &o, &n, q) + "\n"@;
    reveal(shown_one);
    assert(showing(o, n, Agg::S(m), b, e, agg_sum_text(m.inners@, &o, &n, q)));
}

pub open spec fn kind_of(m: crate::metric::Metrics) -> crate::metric::MetricKind {
    match m {
        crate::metric::Metrics::Counter(_) => crate::metric::MetricKind::Counter,
        crate::metric::Metrics::Gauge(_) => crate::metric::MetricKind::Gauge,
        crate::metric::Metrics::Summary(_) => crate::metric::MetricKind::Summary,
        crate::metric::Metrics::Histogram(_) => crate::metric::MetricKind::Histogram,
    }
}
/// the HELP line, when there is a help text, and the TYPE line
pub open spec fn help_line(name: Seq<char>, help: Option<Seq<char>>) -> Seq<char> {
    match help { Some(h) => "# HELP "@ + name + " "@ + esc(h, false) + "\n"@, None => Seq::empty() }
}
pub open spec fn type_line(name: Seq<char>, kind: Seq<char>) -> Seq<char> { "# TYPE "@ + name + " "@ + kind + "\n"@ }
pub open spec fn fam_head(m: crate::metric::MetricFamily) -> Seq<char> { help_line(name_text(m.name), sv(m.help)) + type_line(name_text(m.name), kind_text(kind_of(m.metrics))) }
/// C05: a family is its header and then its aggregations in order, each on lines of its own
pub open spec fn fam_shown(o: World, n: World, m: crate::metric::MetricFamily, t: Seq<char>) -> bool {
    exists|ts: Seq<Seq<char>>| #[trigger] all_shown(o, n, entries(m.metrics), ts) && t == fam_head(m) + lines(ts)
}
pub proof fn five(p: Seq<char>, a: Seq<char>, b: Seq<char>, c: Seq<char>, d: Seq<char>, e: Seq<char>)
    ensures p + a + b + c + d + e == p + (a + b + c + d + e),
{ four(p, a, b, c, d); cat(p, a + b + c + d, e); }
/// C05: the escaped help text stays on its line and decodes to the help text
pub proof fn no_esc(p: Seq<char>)
    ensures p + esc(Seq::empty(), false) == p,
{ assert(p + esc(Seq::empty(), false) =~= p); }
pub proof fn help_stays(h: Seq<char>)
    ensures no_feed(esc(h, false)),
    decreases h.len(),
{
    if h.len() > 0 {
        help_stays(h.drop_last());
        let (a, b) = (esc(h.drop_last(), false), esc1(h.last(), false));
        assert forall|i: int| 0 <= i < (a + b).len() implies (#[trigger] (a + b)[i]) != '\n' by { if i < a.len() { assert((a + b)[i] == a[i]); } else { assert((a + b)[i] == b[i - a.len()]); } }
    }
}
pub open spec fn no_feed(t: Seq<char>) -> bool { forall|i: int| 0 <= i < t.len() ==> (#[trigger] t[i]) != '\n' }

#[verifier::opaque]
pub open spec fn fam_one(o: World, n: World, m: crate::metric::MetricFamily, t: Seq<char>) -> bool { fam_shown(o, n, m, t) }
/// C05: the exposition is the texts of the families in order
pub open spec fn fams_shown(o: World, n: World, m: Seq<crate::metric::MetricFamily>, ts: Seq<Seq<char>>) -> bool
    decreases m.len()
{
    ts.len() == m.len() && if m.len() == 0 { n == o } else { exists|p: World| fams_shown(o, p, m.drop_last(), ts.drop_last()) && #[trigger] fam_one(p, n, m.last(), ts.last()) }
}
pub open spec fn joint(ts: Seq<Seq<char>>) -> Seq<char>
    decreases ts.len()
{ if ts.len() == 0 { Seq::empty() } else { joint(ts.drop_last()) + ts.last() } }
pub proof fn no_fams(w: World, m: Seq<crate::metric::MetricFamily>)
    ensures fams_shown(w, w, m.take(0), Seq::empty()), joint(Seq::empty()) =~= Seq::empty(),
{}
pub proof fn fams_step(o: World, p: World, n: World, m: Seq<crate::metric::MetricFamily>, ts: Seq<Seq<char>>, k: int, t: Seq<char>)
    requires 0 <= k < m.len(), fams_shown(o, p, m.take(k), ts), fam_shown(p, n, m[k], t),
    ensures fams_shown(o, n, m.take(k + 1), ts.push(t)), joint(ts.push(t)) == joint(ts) + t,
{
    let (m1, r) = (m.take(k + 1), ts.push(t));
    assert(m1.drop_last() =~= m.take(k));
    assert(m1.last() == m[k]);
    assert(r.drop_last() =~= ts);
    assert(fam_one(p, n, m1.last(), r.last())) by { reveal(fam_one); }
}

//@ fn metric::MetricValue::fmt(f) props=C05
    ensures wrote(*old(f), *final(f), r, num_text(self.0)),
//@ fn metrics::counter::Counter::fmt(f) props=C04,C05
    ensures same(*old(w), *final(w)), wrote_some(*old(f), *final(f), r),
        old(w).quiet ==> wrote(*old(f), *final(f), r, sample(name_text(self.0.name), labels_of(*old(w), self.0.labels), num_text(cnt_val(*old(w), self.0.value)), cell_ts(*old(w), self.0.timestamp))),
//@ fn metrics::gauge::Gauge::fmt(f) props=C04,C05
    ensures same(*old(w), *final(w)), wrote_some(*old(f), *final(f), r),
        old(w).quiet ==> wrote(*old(f), *final(f), r, sample(name_text(self.0.name), labels_of(*old(w), self.0.labels), num_text(f_of(old(w).cur[gid(*self)])), cell_ts(*old(w), self.0.timestamp))),
//@ fn aggregated_metrics::AggregatedCounter::fmt(f) props=C04,C05
    ensures same(*old(w), *final(w)), wrote_some(*old(f), *final(f), r),
        old(w).quiet ==> wrote(*old(f), *final(f), r, sample(name_text(self.inner.0.name), labels_of(*old(w), self.inner.0.labels), num_text(self.value), oi(self.timestamp))),
//@ fn aggregated_metrics::AggregatedGauge::fmt(f) props=C04,C05
    ensures same(*old(w), *final(w)), wrote_some(*old(f), *final(f), r),
        old(w).quiet ==> wrote(*old(f), *final(f), r, sample(name_text(self.inner.0.name), labels_of(*old(w), self.inner.0.labels), num_text(self.value), oi(self.timestamp))),
//@ fn metrics::histogram::Histogram::fmt(f) props=C04,C05 short
    ensures same(*old(w), *final(w)), wrote_some(*old(f), *final(f), r),
        old(w).quiet ==> wrote(*old(f), *final(f), r, ({
            let n = name_text(self.0.bucket_name); let l = labels_of(*old(w), self.0.labels); let t = cell_ts(*old(w), self.0.timestamp); let b = self.0.buckets@;
            bucket_lines(n, l, cum_list(*old(w), b, b.len() as int), t) + sum_and_count(n, l, f_of(old(w).cur[sum_id(*self.0)]), cum(*old(w), b, b.len() as int), t)
        })),
//@ entry
    let ghost (__nm, __lb, __ts) = hist_face(self, w);
//@ loop 0 user
    *w == *old(w), __s0.iter.wf(), __s0.iter.s@ == self.0.buckets@, f.sure() == old(f).sure(),
    old(w).quiet ==> timestamp@ == ts_text(__ts) && labels@ == braces(__lb),
    old(w).quiet ==> __s0.cumulative_count == cum(*w, self.0.buckets@, __s0.iter.pos as int),
    old(w).quiet ==> f@ == bucket_lines_at(old(f)@, __nm, __lb, cum_list(*w, self.0.buckets@, __s0.iter.pos as int), __ts),
  ensures
    __s0.iter.pos == self.0.buckets@.len(),
//@ loop 0 pre
    proof {
        assert(old(w).quiet ==> timestamp@ =~= ts_text(__ts));
        assert(old(w).quiet ==> labels@ =~= braces(__lb));
    }
//@ loop 0 body
    let ghost __f0 = f@;
    let ghost __p0 = __s0.iter.pos as int;
//@ loop 0 end
    proof {
        let b = self.0.buckets@;
        let x = (bucket.upper_bound, bucket.cumulative_count as int);
        bucket_lines_at_step(old(f)@, __nm, __lb, cum_list(*w, b, __p0 - 1), x, __ts);
        assert(old(w).quiet ==> cum_list(*w, b, __p0) =~= cum_list(*w, b, __p0 - 1).push(x));
        assert(old(w).quiet ==> f@ == bucket_line_at(__f0, __nm, __lb, x, __ts));
    }
//@ loop 1 user
    *w == *old(w), __s1.inner.wf(), f.sure() == old(f).sure(),
    old(w).quiet ==> lviews(__s1.inner.s@) == __lb,
    old(w).quiet ==> f@ == more_labels_at(__f0 + __nm + "_bucket{le=\""@ + num_text(bucket.upper_bound) + "\""@, lviews(__s1.inner.s@).take(__s1.inner.pos as int)),
  ensures
    __s1.inner.pos == __s1.inner.s@.len(),
//@ loop 1 pre
    proof { assert(lviews(__s1.inner.s@).take(0) =~= Seq::<LV>::empty()); }
//@ loop 1 body
    proof { more_labels_at_step(__f0 + __nm + "_bucket{le=\""@ + num_text(bucket.upper_bound) + "\""@, lviews(__s1.inner.s@), __s1.inner.pos - 1); assert(lviews(__s1.inner.s@)[__s1.inner.pos - 1] == lview(*__x1)); }
//@ loop 1 post
    proof { let t = __lb; assert(t.take(t.len() as int) =~= t); }
//@ exit
    proof {
        let b = self.0.buckets@;
        hist_pre(old(f)@, __nm, __lb, cum_list(*old(w), b, b.len() as int), hist_sum(self, old(w)), cum(*old(w), b, b.len() as int), __ts);
    }
//@ fn aggregated_metrics::AggregatedHistogram::fmt(f) props=C04,C05,C11,C15 short
    requires self.inners@.len() > 0, all_hist_ok(self.inners@),
    ensures
        wrote_some(*old(f), *final(f), r),
        cell_more(*old(w), *final(w)),
        old(w).quiet && r is Ok ==> exists|es: Seq<(F64, int)>| #[trigger] listing(final(w).cur, self.inners@, es) && final(f)@ == old(f)@ + agg_hist_text(self.inners@, old(w), final(w), es),
//@ head
    hide(acc64); hide(fsum); hide(below); hide(gsum); hide(hist_sums); hide(hist_counts); hide(merged); hide(listing_to); hide(lists_of); hide(listing); hide(its_ok); hide(all_hist_ok); hide(bucket_lines_at); hide(more_labels_at); hide(bucket_lines); hide(hist_latest);
//@ entry
    let ghost mut __w1 = *w;
    let ghost mut __es: Seq<(F64, int)> = Seq::empty();
    let ghost mut __all = __all_none();
    let ghost (__nm, __lb, __ts) = agg_hist_face(self.inners@, w);
//@ loop 0 user
    *w == __w1, __o0 == __s0, w.quiet == old(w).quiet, its_ok(__s0.iters@), f.sure() == old(f).sure(),
    lists_of(self.inners@, __all), its_ok(__all),
    old(w).quiet ==> timestamp@ == ts_text(__ts) && labels@ == braces(__lb) && w.lab == old(w).lab,
    old(w).quiet ==> f@ == bucket_lines_at(old(f)@, __nm, __lb, __es, __ts),
    old(w).quiet ==> merged(w.cur, __all, __s0, last_of(__es)) && listing_to(w.cur, __all, __es),
  ensures
    forall|b: crate::bucket::Bucket| !#[trigger] left(__o0.iters@, b),
    old(w).quiet ==> merged(w.cur, __all, __o0, last_of(__es)),
//@ loop 0 pre
    proof {
        __w1 = *w;
        __all = __s0.iters@;
        listing_start(w.cur, self.inners@, __s0, old(f)@, __nm, __lb, __ts);
        hist_latest_is(*old(w), self.inners@);
        assert(old(w).quiet ==> timestamp@ =~= ts_text(__ts));
        assert(old(w).quiet ==> labels@ =~= braces(__lb));
    }
    let ghost mut __o0 = __s0;
//@ loop 0 body
    let ghost __f0 = f@;
    let ghost __es0 = __es;
    proof {
        if old(w).quiet { merge_account(w.cur, __all, __o0, __s0, last_of(__es), Some(__x0)); listing_step(w.cur, __all, __es, (__x0.upper_bound, __x0.cumulative_count as int)); }
        __es = __es.push((__x0.upper_bound, __x0.cumulative_count as int));
        __o0 = __s0;
    }
//@ loop 0 end
    proof {
        let x = (bucket.upper_bound, bucket.cumulative_count as int);
        bucket_lines_at_step(old(f)@, __nm, __lb, __es0, x, __ts);
        assert(old(w).quiet ==> f@ == bucket_line_at(__f0, __nm, __lb, x, __ts));
    }
//@ loop 0 post
    proof { if old(w).quiet { listing_done(w.cur, self.inners@, __all, __o0, __es); } }
//@ loop 1 user
    *w == __w1, __s1.inner.wf(), f.sure() == old(f).sure(),
    old(w).quiet ==> lviews(__s1.inner.s@) == __lb,
    old(w).quiet ==> f@ == more_labels_at(__f0 + __nm + "_bucket{le=\""@ + num_text(bucket.upper_bound) + "\""@, lviews(__s1.inner.s@).take(__s1.inner.pos as int)),
  ensures
    __s1.inner.pos == __s1.inner.s@.len(),
//@ loop 1 pre
    proof { assert(lviews(__s1.inner.s@).take(0) =~= Seq::<LV>::empty()); no_more_labels(__f0 + __nm + "_bucket{le=\""@ + num_text(bucket.upper_bound) + "\""@); }
//@ loop 1 body
    proof { more_labels_at_step(__f0 + __nm + "_bucket{le=\""@ + num_text(bucket.upper_bound) + "\""@, lviews(__s1.inner.s@), __s1.inner.pos - 1); assert(lviews(__s1.inner.s@)[__s1.inner.pos - 1] == lview(*__x1)); }
//@ loop 1 post
    proof { assert(__lb.take(__lb.len() as int) =~= __lb); }
//@ exit
    proof { hist_pre(old(f)@, __nm, __lb, __es, hist_sums(*w, self.inners@), hist_counts(*w, self.inners@), __ts); }
//@ fn aggregated_metrics::AggregatedSummary::fmt(f) props=C04,C05,C12,C15 short
    requires self.inners@.len() > 0, all_sum_ok(self.inners@),
    ensures
        wrote_some(*old(f), *final(f), r),
        exists|p: World, v: Seq<Visit>, q: Seq<(crate::quantile::Quantile, F64)>|
            cell_more(*old(w), p) && #[trigger] visited(p, *final(w), self.inners@, v) && #[trigger] agg_reports(q, asked(self.inners@), pooled(v))
            && (old(w).quiet && r is Ok ==> final(f)@ == old(f)@ + agg_sum_text(self.inners@, old(w), final(w), q)),
//@ head
    hide(sum_latest); hide(sum_sums); hide(sum_counts); hide(all_sum_ok); hide(quantile_lines_at); hide(more_labels_at); hide(agg_reports); hide(visited); hide(asked);
//@ entry
    let ghost mut __w1 = *w;
    let ghost mut __qs: Seq<(crate::quantile::Quantile, F64)> = Seq::empty();
    let ghost (__nm, __lb, __ts) = agg_sum_face(self.inners@, w);
//@ loop 0 owned
    *w == __w1, w.quiet == old(w).quiet, f.sure() == old(f).sure(), __qs == __g0,
    old(w).quiet ==> timestamp@ == ts_text(__ts) && labels@ == braces(__lb) && w.lab == old(w).lab,
    old(w).quiet ==> f@ == quantile_lines_at(old(f)@, __nm, __lb, __qs.take(__s0.pos()), __ts),
//@ loop 0 pre
    proof {
        __w1 = *w;
        __qs = __g0;
        sum_latest_is(*old(w), self.inners@);
        assert(old(w).quiet ==> timestamp@ =~= ts_text(__ts));
        assert(old(w).quiet ==> labels@ =~= braces(__lb));
        assert(__qs.take(0) =~= Seq::empty());
        no_quantile_lines(old(f)@, __nm, __lb, __ts);
        visited_kept();
    }
//@ loop 0 body
    let ghost __f0 = f@;
//@ loop 0 end
    proof { quantile_lines_at_step(old(f)@, __nm, __lb, __qs, __s0.pos() - 1, __ts); }
//@ loop 0 post
    proof { assert(__qs.take(__qs.len() as int) =~= __qs); }
//@ loop 1 user
    *w == __w1, __s1.inner.wf(), f.sure() == old(f).sure(),
    old(w).quiet ==> lviews(__s1.inner.s@) == __lb,
    old(w).quiet ==> f@ == more_labels_at(__f0 + __nm + "{quantile=\""@ + f64_text(quantile.0) + "\""@, lviews(__s1.inner.s@).take(__s1.inner.pos as int)),
  ensures
    __s1.inner.pos == __s1.inner.s@.len(),
//@ loop 1 pre
    proof { assert(lviews(__s1.inner.s@).take(0) =~= Seq::<LV>::empty()); no_more_labels(__f0 + __nm + "{quantile=\""@ + f64_text(quantile.0) + "\""@); }
//@ loop 1 body
    proof { more_labels_at_step(__f0 + __nm + "{quantile=\""@ + f64_text(quantile.0) + "\""@, lviews(__s1.inner.s@), __s1.inner.pos - 1); assert(lviews(__s1.inner.s@)[__s1.inner.pos - 1] == lview(*__x1)); }
//@ loop 1 post
    proof { assert(__lb.take(__lb.len() as int) =~= __lb); }
//@ exit
    proof { sum_pre(old(f)@, __nm, __lb, __qs, sum_sums(*w, self.inners@), sum_counts(*w, self.inners@), __ts); }
//@ fn metrics::summary::Summary::fmt(f) props=C04,C05 short
    requires sum_ok(*self.0),
    ensures
        wrote_some(*old(f), *final(f), r),
        exists|t: int, a: Seq<(int, F64)>, b: Seq<(int, F64)>, q: Seq<(crate::quantile::Quantile, F64)>|
            #[trigger] visit(*old(w), *final(w), smp_id(*self.0), t, a, b) && cells_kept(*old(w), *final(w)) && trims(a, b, t, self.0.window.total())
            && #[trigger] reports(q, self.0.quantiles@, numbers(b))
            && (old(w).quiet ==> wrote(*old(f), *final(f), r, sum_text(self, old(w), q))),
//@ entry
    let ghost (__nm, __lb, __ts) = sum_face(self, w);
    let ghost mut __qs: Seq<(crate::quantile::Quantile, F64)> = Seq::empty();
    let ghost mut __w1 = *w;
//@ loop 0 owned
    f.sure() == old(f).sure(), *w == __w1,
    w.quiet == old(w).quiet, cells_kept(*old(w), *w), w.lab == old(w).lab,
    old(w).quiet ==> timestamp@ == ts_text(__ts) && labels@ == braces(__lb),
    old(w).quiet ==> f@ == quantile_lines_at(old(f)@, __nm, __lb, __g0.take(__s0.pos()), __ts),
//@ loop 0 pre
    proof {
        __qs = __g0;
        __w1 = *w;
        assert(old(w).quiet ==> timestamp@ =~= ts_text(__ts));
        assert(old(w).quiet ==> labels@ =~= braces(__lb));
        assert(__g0.take(0) =~= Seq::empty());
    }
//@ loop 0 body
    let ghost __f0 = f@;
//@ loop 0 end
    proof { quantile_lines_at_step(old(f)@, __nm, __lb, __g0, __s0.pos() - 1, __ts); }
//@ loop 0 post
    proof { assert(__g0.take(__g0.len() as int) =~= __g0); }
//@ loop 1 user
    *w == __w1, __s1.inner.wf(), f.sure() == old(f).sure(),
    old(w).quiet ==> lviews(__s1.inner.s@) == __lb,
    old(w).quiet ==> f@ == more_labels_at(__f0 + __nm + "{quantile=\""@ + f64_text(quantile.0) + "\""@, lviews(__s1.inner.s@).take(__s1.inner.pos as int)),
  ensures
    __s1.inner.pos == __s1.inner.s@.len(),
//@ loop 1 pre
    proof { assert(lviews(__s1.inner.s@).take(0) =~= Seq::<LV>::empty()); }
//@ loop 1 body
    proof { more_labels_at_step(__f0 + __nm + "{quantile=\""@ + f64_text(quantile.0) + "\""@, lviews(__s1.inner.s@), __s1.inner.pos - 1); assert(lviews(__s1.inner.s@)[__s1.inner.pos - 1] == lview(*__x1)); }
//@ loop 1 post
    proof { assert(__lb.take(__lb.len() as int) =~= __lb); }
//@ exit
    proof { sum_pre(old(f)@, __nm, __lb, __qs, sum_total(self, old(w)), sum_count(self, old(w)), __ts); }
//@ fn metric::MetricKind::fmt(f) props=C05
    ensures wrote(*old(f), *final(f), r, kind_text(*self)),
//@ fn metric::Metrics::fmt(f) props=C05 short
    requires all_ok(entries(*self)),
    ensures
        wrote_some(*old(f), *final(f), r), final(w).quiet == old(w).quiet,
        old(w).quiet && r is Ok ==> exists|ts: Seq<Seq<char>>| #[trigger] all_shown(*old(w), *final(w), entries(*self), ts) && final(f)@ == old(f)@ + lines(ts),
//@ head
    hide(all_shown); hide(lines); hide(visited); hide(listing); hide(agg_reports);
//@ entry
    let ghost mut __ts: Seq<Seq<char>> = Seq::empty();
    proof { none_shown(*w, f@, entries(*self)); visited_kept(); }
//@ loop 0 slice
    f.sure() == old(f).sure(), w.quiet == old(w).quiet, __s0@.map_values(agg_c()) == entries(*self),
    w.quiet ==> all_shown(*old(w), *w, entries(*self).take(__i0 as int), __ts) && f@ == old(f)@ + lines(__ts),
//@ loop 0 body
    let ghost __w0 = *w;
    let ghost __f0 = f@;
    proof { assert(entries(*self)[__i0 - 1] == Agg::C(*__x0)); assert(agg_ok(entries(*self)[__i0 - 1])); }
//@ loop 0 end
    proof {
        if w.quiet {
            let t = plain_c(__x0, &__w0); showing_plain(__w0, Agg::C(*__x0), __f0, f@, t);
            __ts = shown_step(*old(w), __w0, *w, entries(*self), __ts, __i0 - 1, old(f)@, __f0, f@);
        }
    }
//@ loop 0 post
    proof { assert(entries(*self).take(entries(*self).len() as int) =~= entries(*self)); }
//@ loop 1 slice
    f.sure() == old(f).sure(), w.quiet == old(w).quiet, __s1@.map_values(agg_g()) == entries(*self),
    w.quiet ==> all_shown(*old(w), *w, entries(*self).take(__i1 as int), __ts) && f@ == old(f)@ + lines(__ts),
//@ loop 1 body
    let ghost __w0 = *w;
    let ghost __f0 = f@;
    proof { assert(entries(*self)[__i1 - 1] == Agg::G(*__x1)); assert(agg_ok(entries(*self)[__i1 - 1])); }
//@ loop 1 end
    proof {
        if w.quiet {
            let t = plain_g(__x1, &__w0); showing_plain(__w0, Agg::G(*__x1), __f0, f@, t);
            __ts = shown_step(*old(w), __w0, *w, entries(*self), __ts, __i1 - 1, old(f)@, __f0, f@);
        }
    }
//@ loop 1 post
    proof { assert(entries(*self).take(entries(*self).len() as int) =~= entries(*self)); }
//@ loop 2 slice
    f.sure() == old(f).sure(), w.quiet == old(w).quiet, __s2@.map_values(agg_s()) == entries(*self),
    w.quiet ==> all_shown(*old(w), *w, entries(*self).take(__i2 as int), __ts) && f@ == old(f)@ + lines(__ts),
//@ loop 2 body
    let ghost __w0 = *w;
    let ghost __f0 = f@;
    proof { assert(entries(*self)[__i2 - 1] == Agg::S(*__x2)); assert(agg_ok(entries(*self)[__i2 - 1])); }
//@ loop 2 end
    proof {
        if w.quiet {
            showing_sum(__w0, *w, *__x2, __f0, f@);
            __ts = shown_step(*old(w), __w0, *w, entries(*self), __ts, __i2 - 1, old(f)@, __f0, f@);
        }
    }
//@ loop 2 post
    proof { assert(entries(*self).take(entries(*self).len() as int) =~= entries(*self)); }
//@ loop 3 slice
    f.sure() == old(f).sure(), w.quiet == old(w).quiet, __s3@.map_values(agg_h()) == entries(*self),
    w.quiet ==> all_shown(*old(w), *w, entries(*self).take(__i3 as int), __ts) && f@ == old(f)@ + lines(__ts),
//@ loop 3 body
    let ghost __w0 = *w;
    let ghost __f0 = f@;
    proof { assert(entries(*self)[__i3 - 1] == Agg::H(*__x3)); assert(agg_ok(entries(*self)[__i3 - 1])); }
//@ loop 3 end
    proof {
        if w.quiet {
            showing_hist(__w0, *w, *__x3, __f0, f@);
            __ts = shown_step(*old(w), __w0, *w, entries(*self), __ts, __i3 - 1, old(f)@, __f0, f@);
        }
    }
//@ loop 3 post
    proof { assert(entries(*self).take(entries(*self).len() as int) =~= entries(*self)); }
//@ fn metric::MetricFamily::name() props=C05,C14
    ensures *r == self.name,
//@ fn metric::MetricFamily::help() props=C05,C14
    ensures ov(r) == sv(self.help),
//@ fn metric::MetricFamily::kind() props=C05,C14
    ensures r == kind_of(self.metrics),
//@ fn metric::MetricFamily::metrics() props=C05,C14
    ensures *r == self.metrics,
//@ fn metric::MetricFamily::fmt(f) props=C05 short
    requires all_ok(entries(self.metrics)),
    ensures
        wrote_some(*old(f), *final(f), r), final(w).quiet == old(w).quiet,
        old(w).quiet && r is Ok ==> exists|t: Seq<char>| #[trigger] fam_shown(*old(w), *final(w), *self, t) && final(f)@ == old(f)@ + t,
//@ head
    hide(all_shown); hide(lines); hide(all_ok); hide(esc); hide(entries);
//@ entry
    let ghost __nm = name_text(self.name);
    proof {
        reveal_strlit("\\\\"); assert("\\\\"@ =~= seq!['\\', '\\']);
        reveal_strlit("\\n"); assert("\\n"@ =~= seq!['\\', 'n']);
        no_esc(f@ + "# HELP "@ + __nm + " "@);
        assert(f@ + help_line(__nm, None) =~= f@);
    }
//@ loop 0 chars
    *w == *old(w), f.sure() == old(f).sure(), sv(self.help) == Some(__s0@),
    f@ == old(f)@ + "# HELP "@ + __nm + " "@ + esc(__s0@.take(__i0 as int), false),
//@ loop 0 pre
    proof { assert(__s0@.take(0) =~= Seq::empty()); }
//@ loop 0 body
    let ghost __f0 = f@;
    proof { esc_step(__s0@, __i0 - 1, false); cat(old(f)@ + "# HELP "@ + __nm + " "@, esc(__s0@.take(__i0 - 1), false), esc1(__s0@[__i0 - 1], false)); }
//@ loop 0 end
    proof { assert(f@ == __f0 + esc1(__s0@[__i0 - 1], false)); }
//@ loop 0 post
    proof { assert(__s0@.take(__s0@.len() as int) =~= __s0@); }
//@ exit
    proof {
        if old(w).quiet {
            let (h, t) = (help_line(__nm, sv(self.help)), type_line(__nm, kind_text(kind_of(self.metrics))));
            if self.help is Some { five(old(f)@, "# HELP "@, __nm, " "@, esc(sv(self.help)->0, false), "\n"@); }
            five(old(f)@ + h, "# TYPE "@, __nm, " "@, kind_text(kind_of(self.metrics)), "\n"@);
            cat(old(f)@, h, t);
            if __r is Ok {
                let ts = choose|ts: Seq<Seq<char>>| #[trigger] all_shown(*old(w), *w, entries(self.metrics), ts) && f@ == old(f)@ + h + t + lines(ts);
                cat(old(f)@, fam_head(*self), lines(ts));
                assert(fam_shown(*old(w), *w, *self, fam_head(*self) + lines(ts)));
            }
        }
    }
//@ fn metric::MetricFamilies::into_vec() props=C14
    ensures r@ == self.0@,
//@ fn metric::MetricFamilies::as_ref() props=C14
    ensures r@ == self.0@,
//@ fn metric::MetricFamilies::to_text() props=C05
    requires forall|i: int| 0 <= i < self.0@.len() ==> all_ok(entries((#[trigger] self.0@[i]).metrics)),
    ensures
        old(w).quiet ==> exists|ts: Seq<Seq<char>>| #[trigger] fams_shown(*old(w), *final(w), self.0@, ts) && r@ == joint(ts),
//@ head
    hide(fams_shown); hide(joint); hide(fam_shown); hide(entries);
//@ entry
    let ghost mut __ts: Seq<Seq<char>> = Seq::empty();
    proof { no_fams(*w, self.0@); }
//@ loop 0 slice
    __s0@ == self.0@, w.quiet == old(w).quiet,
    w.quiet ==> fams_shown(*old(w), *w, self.0@.take(__i0 as int), __ts) && buf@ == joint(__ts),
//@ loop 0 body
    let ghost __w0 = *w;
    let ghost __b0 = buf@;
//@ loop 0 end
    proof {
        if w.quiet {
            let t = choose|t: Seq<char>| #[trigger] fam_shown(__w0, *w, *__x0, t) && buf@ == __b0 + t;
            fams_step(*old(w), __w0, *w, self.0@, __ts, __i0 - 1, t);
            __ts = __ts.push(t);
        }
    }
//@ loop 0 post
    proof { assert(self.0@.take(self.0@.len() as int) =~= self.0@); }
