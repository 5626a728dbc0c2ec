//@ spec
// ------------------------------------------------------------ buckets and histograms
pub open spec fn bid(b: crate::bucket::Bucket) -> int { b.count.0.id() }
pub open spec fn sum_id(h: crate::metrics::histogram::Inner) -> int { h.sum.0.id() }
/// numbers in strictly ascending order
pub open spec fn asc(s: Seq<crate::bucket::Bucket>) -> bool {
    &&& forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).upper_bound.nan()
    &&& forall|i: int, j: int| 0 <= i < j < s.len() ==> (#[trigger] s[i]).upper_bound.key() < (#[trigger] s[j]).upper_bound.key()
}
pub open spec fn apart(s: Seq<crate::bucket::Bucket>) -> bool { forall|i: int, j: int| 0 <= i < j < s.len() ==> bid(#[trigger] s[i]) != bid(#[trigger] s[j]) }
/// what `HistogramBuilder::finish` establishes, and nothing changes afterwards
pub open spec fn hist_ok(h: crate::metrics::histogram::Inner) -> bool {
    let s = h.buckets@;
    &&& asc(s) && apart(s) && s.len() > 0 && s.last().upper_bound == finf()
    &&& forall|i: int| 0 <= i < s.len() ==> bid(#[trigger] s[i]) != sum_id(h)
}
/// i is the first bucket whose upper bound is at least v
pub open spec fn is_first(s: Seq<crate::bucket::Bucket>, i: int, v: F64) -> bool {
    &&& 0 <= i < s.len() && v.le(s[i].upper_bound)
    &&& forall|j: int| 0 <= j < i ==> (#[trigger] s[j]).upper_bound.lt(v)
}
/// one indivisible step on cell a and one on cell b, in either order, and nothing else
pub open spec fn two_steps(o: World, n: World, a: int, fa: spec_fn(int) -> int, b: int, fb: spec_fn(int) -> int) -> bool {
    let ea = n.ev[a].last();
    let eb = n.ev[b].last();
    &&& n == World { cur: n.cur, ev: n.ev, ..o }
    &&& n.cur =~= o.cur.insert(a, ea.1).insert(b, eb.1)
    &&& n.ev =~= o.ev.insert(a, o.ev[a].push(ea)).insert(b, o.ev[b].push(eb))
    &&& ea.1 == fa(ea.0) && eb.1 == fb(eb.0)
    &&& (o.quiet ==> ea.0 == o.cur[a] && eb.0 == o.cur[b])
}
/// the count of the first n buckets together (64-bit)
pub open spec fn cum(w: World, s: Seq<crate::bucket::Bucket>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { (cum(w, s, n - 1) + w.cur[bid(s[n - 1])]) % 0x1_0000_0000_0000_0000 }
}
/// how many of the observed values went to bucket i
pub open spec fn n_in(s: Seq<crate::bucket::Bucket>, obs: Seq<F64>, i: int) -> int
    decreases obs.len()
{
    if obs.len() == 0 { 0 } else { n_in(s, obs.drop_last(), i) + (if is_first(s, i, obs.last()) { 1int } else { 0 }) }
}
/// how many of the observed values are not above x
pub open spec fn n_le(obs: Seq<F64>, x: F64) -> int
    decreases obs.len()
{
    if obs.len() == 0 { 0 } else { n_le(obs.drop_last(), x) + (if obs.last().le(x) { 1int } else { 0 }) }
}
/// the bucket cells hold exactly the observations
pub open spec fn holds(w: World, s: Seq<crate::bucket::Bucket>, obs: Seq<F64>) -> bool {
    forall|i: int| 0 <= i < s.len() ==> w.cur[bid(#[trigger] s[i])] == n_in(s, obs, i)
}
pub proof fn first_unique(s: Seq<crate::bucket::Bucket>, i: int, j: int, v: F64)
    requires is_first(s, i, v), is_first(s, j, v),
    ensures i == j,
{
    if i < j { assert(s[i].upper_bound.lt(v)); }
    if j < i { assert(s[j].upper_bound.lt(v)); }
}
pub proof fn n_in_bound(s: Seq<crate::bucket::Bucket>, obs: Seq<F64>, i: int)
    ensures 0 <= n_in(s, obs, i) <= obs.len(),
    decreases obs.len(),
{
    if obs.len() > 0 { n_in_bound(s, obs.drop_last(), i); }
}
/// C10: an observation keeps the buckets equal to the history of observations
pub proof fn observed(o: World, n: World, h: crate::metrics::histogram::Inner, obs: Seq<F64>, i: int, v: F64)
    requires
        hist_ok(h), o.quiet, holds(o, h.buckets@, obs), obs.len() < u64::MAX, is_first(h.buckets@, i, v),
        two_steps(o, n, bid(h.buckets@[i]), plus64(1), sum_id(h), plusf(v)),
    ensures
        holds(n, h.buckets@, obs.push(v)),
        f_of(n.cur[sum_id(h)]) == fadd(f_of(o.cur[sum_id(h)]), v),
{
    let s = h.buckets@;
    assert(obs.push(v).drop_last() =~= obs);
    assert forall|k: int| 0 <= k < s.len() implies n.cur[bid(#[trigger] s[k])] == n_in(s, obs.push(v), k) by {
        n_in_bound(s, obs, k);
        if is_first(s, k, v) { first_unique(s, i, k, v); }
        if k != i { if k < i { assert(bid(s[k]) != bid(s[i])); } else { assert(bid(s[i]) != bid(s[k])); } }
    }
    assert(f_of(fadd(f_of(o.cur[sum_id(h)]), v).bits as int) == fadd(f_of(o.cur[sum_id(h)]), v));
}
/// the number of observations in the first n buckets
pub open spec fn n_upto(s: Seq<crate::bucket::Bucket>, obs: Seq<F64>, n: int) -> int
    decreases n
{
    if n <= 0 { 0 } else { n_upto(s, obs, n - 1) + n_in(s, obs, n - 1) }
}
pub proof fn n_upto_step(s: Seq<crate::bucket::Bucket>, obs: Seq<F64>, n: int)
    requires obs.len() > 0, 0 <= n <= s.len(),
    ensures n_upto(s, obs, n) == n_upto(s, obs.drop_last(), n) + (if exists|i: int| 0 <= i < n && #[trigger] is_first(s, i, obs.last()) { 1int } else { 0 }),
    decreases n,
{
    if n > 0 {
        n_upto_step(s, obs, n - 1);
        let v = obs.last();
        if is_first(s, n - 1, v) {
            assert forall|i: int| 0 <= i < n - 1 implies !#[trigger] is_first(s, i, v) by { if is_first(s, i, v) { first_unique(s, i, n - 1, v); } }
        } else if exists|i: int| 0 <= i < n && #[trigger] is_first(s, i, v) {
            let i = choose|i: int| 0 <= i < n && #[trigger] is_first(s, i, v);
            assert(i < n - 1);
        }
    }
}
pub proof fn n_upto_is(s: Seq<crate::bucket::Bucket>, obs: Seq<F64>, n: int)
    requires asc(s), 1 <= n <= s.len(), forall|k: int| 0 <= k < obs.len() ==> !(#[trigger] obs[k]).nan(),
    ensures n_upto(s, obs, n) == n_le(obs, s[n - 1].upper_bound),
    decreases obs.len(),
{
    if obs.len() == 0 {
        n_upto_none(s, obs, n);
    } else {
        n_upto_is(s, obs.drop_last(), n);
        n_upto_step(s, obs, n);
        let v = obs.last();
        assert(!v.nan());
        if v.le(s[n - 1].upper_bound) { first_exists(s, v, n - 1); }
        else {
            assert forall|i: int| 0 <= i < n implies !#[trigger] is_first(s, i, v) by {
                if i < n - 1 { assert(s[i].upper_bound.key() < s[n - 1].upper_bound.key()); }
            }
        }
    }
}
pub proof fn n_upto_none(s: Seq<crate::bucket::Bucket>, obs: Seq<F64>, n: int)
    requires obs.len() == 0,
    ensures n_upto(s, obs, n) == 0,
    decreases n,
{
    if n > 0 { n_upto_none(s, obs, n - 1); }
}
/// a value not above bound n has a first bucket among 0..=n
pub proof fn first_exists(s: Seq<crate::bucket::Bucket>, v: F64, n: int)
    requires asc(s), 0 <= n < s.len(), v.le(s[n].upper_bound),
    ensures exists|i: int| 0 <= i <= n && #[trigger] is_first(s, i, v),
    decreases n,
{
    if n > 0 && v.le(s[n - 1].upper_bound) {
        first_exists(s, v, n - 1);
    } else {
        assert forall|j: int| 0 <= j < n implies (#[trigger] s[j]).upper_bound.lt(v) by {
            if j < n - 1 { assert(s[j].upper_bound.key() < s[n - 1].upper_bound.key()); }
        }
        assert(is_first(s, n, v));
    }
}
/// C10: the cumulative count of a bucket is the number of observed values not above its bound,
/// and that of the last bucket is the number of observations
pub proof fn cumulative_is(w: World, h: crate::metrics::histogram::Inner, obs: Seq<F64>, n: int)
    requires
        hist_ok(h), holds(w, h.buckets@, obs), obs.len() <= u64::MAX, 1 <= n <= h.buckets@.len(),
        forall|k: int| 0 <= k < obs.len() ==> !(#[trigger] obs[k]).nan(),
    ensures
        cum(w, h.buckets@, n) == n_le(obs, h.buckets@[n - 1].upper_bound),
        cum(w, h.buckets@, h.buckets@.len() as int) == obs.len(),
{
    let s = h.buckets@;
    cum_is(w, s, obs, n);
    n_upto_is(s, obs, n);
    cum_is(w, s, obs, s.len() as int);
    n_upto_is(s, obs, s.len() as int);
    n_le_all(obs);
}
pub proof fn n_le_all(obs: Seq<F64>)
    requires forall|k: int| 0 <= k < obs.len() ==> !(#[trigger] obs[k]).nan(),
    ensures n_le(obs, finf()) == obs.len(),
    decreases obs.len(),
{
    if obs.len() > 0 { n_le_all(obs.drop_last()); assert(!obs.last().nan()); }
}
pub proof fn n_le_bound(obs: Seq<F64>, x: F64)
    ensures 0 <= n_le(obs, x) <= obs.len(),
    decreases obs.len(),
{
    if obs.len() > 0 { n_le_bound(obs.drop_last(), x); }
}
pub proof fn cum_is(w: World, s: Seq<crate::bucket::Bucket>, obs: Seq<F64>, n: int)
    requires asc(s), holds(w, s, obs), obs.len() <= u64::MAX, 0 <= n <= s.len(), forall|k: int| 0 <= k < obs.len() ==> !(#[trigger] obs[k]).nan(),
    ensures cum(w, s, n) == n_upto(s, obs, n),
    decreases n,
{
    if n > 0 {
        cum_is(w, s, obs, n - 1);
        n_upto_is(s, obs, n);
        n_le_bound(obs, s[n - 1].upper_bound);
        n_in_bound(s, obs, n - 1);
        if n > 1 { n_upto_is(s, obs, n - 1); n_le_bound(obs, s[n - 2].upper_bound); }
    }
}
// ------------------------------------------------------------ merged buckets
/// the counts of the buckets of s from p on whose bound is not above x
pub open spec fn gsum(c: Map<int, int>, s: Seq<crate::bucket::Bucket>, p: int, x: int) -> int
    decreases s.len() - p
{
    if p < 0 || p >= s.len() { 0 } else { (if s[p].upper_bound.key() <= x { c[bid(s[p])] } else { 0 }) + gsum(c, s, p + 1, x) }
}
/// the same over all that is left of several bucket lists
pub open spec fn fsum<'a>(c: Map<int, int>, its: Seq<PeekIter<'a, crate::bucket::Bucket>>, x: int) -> int
    decreases its.len()
{
    if its.len() == 0 { 0 } else { fsum(c, its.drop_last(), x) + gsum(c, its.last().s@, its.last().pos as int, x) }
}
pub open spec fn it_ok<'a>(it: PeekIter<'a, crate::bucket::Bucket>) -> bool { it.wf() && asc(it.s@) }
pub proof fn it_step<'a>(it: PeekIter<'a, crate::bucket::Bucket>)
    requires it.pos < it.s@.len(),
    ensures (it.pos + 1) as usize == it.pos + 1,
{ assert(it.s.len() == it.s@.len()); }
pub open spec fn its_ok<'a>(its: Seq<PeekIter<'a, crate::bucket::Bucket>>) -> bool { forall|i: int| 0 <= i < its.len() ==> it_ok(#[trigger] its[i]) }
/// b is still to come in one of the lists
#[verifier::opaque]
pub open spec fn left<'a>(its: Seq<PeekIter<'a, crate::bucket::Bucket>>, b: crate::bucket::Bucket) -> bool {
    exists|i: int, k: int| 0 <= i < its.len() && its[i].pos <= k < its[i].s@.len() && #[trigger] its[i].s@[k] == b
}
/// nothing has a bound below x, and each list has something left
pub open spec fn heads_from<'a>(its: Seq<PeekIter<'a, crate::bucket::Bucket>>, x: int) -> bool {
    forall|j: int| 0 <= j < its.len() ==> (#[trigger] its[j]).pos < its[j].s@.len() && x <= its[j].s@[its[j].pos as int].upper_bound.key()
}
/// past the next bucket, if its bound is x
pub open spec fn adv<'a>(it: PeekIter<'a, crate::bucket::Bucket>, x: int) -> PeekIter<'a, crate::bucket::Bucket> {
    if it.pos < it.s@.len() && it.s@[it.pos as int].upper_bound.key() == x { PeekIter { s: it.s, pos: (it.pos + 1) as usize } } else { it }
}
pub open spec fn adv_all<'a>(its: Seq<PeekIter<'a, crate::bucket::Bucket>>, x: int) -> Seq<PeekIter<'a, crate::bucket::Bucket>> { its.map_values(|it: PeekIter<'a, crate::bucket::Bucket>| adv(it, x)) }
pub proof fn gsum_above(c: Map<int, int>, s: Seq<crate::bucket::Bucket>, p: int, x: int)
    requires asc(s), 0 <= p <= s.len(), p < s.len() ==> x < s[p].upper_bound.key(),
    ensures gsum(c, s, p, x) == 0,
    decreases s.len() - p,
{
    if p < s.len() { if p + 1 < s.len() { assert(s[p].upper_bound.key() < s[p + 1].upper_bound.key()); } gsum_above(c, s, p + 1, x); }
}
pub proof fn gsum_adv<'a>(c: Map<int, int>, it: PeekIter<'a, crate::bucket::Bucket>, key: int, x: int)
    requires it_ok(it), it.pos < it.s@.len(), key <= it.s@[it.pos as int].upper_bound.key(), key <= x,
    ensures ({ let n = adv(it, key); gsum(c, n.s@, n.pos as int, x) == gsum(c, it.s@, it.pos as int, x) - gsum(c, it.s@, it.pos as int, key) }),
{
    let s = it.s@;
    let p = it.pos as int;
    it_step(it);
    if s[p].upper_bound.key() == key {
        if p + 1 < s.len() { assert(s[p].upper_bound.key() < s[p + 1].upper_bound.key()); }
        gsum_above(c, s, p + 1, key);
    } else { gsum_above(c, s, p, key); }
}
pub proof fn fsum_adv<'a>(c: Map<int, int>, its: Seq<PeekIter<'a, crate::bucket::Bucket>>, key: int, x: int)
    requires its_ok(its), heads_from(its, key), key <= x,
    ensures fsum(c, adv_all(its, key), x) == fsum(c, its, x) - fsum(c, its, key),
    decreases its.len(),
{
    if its.len() > 0 {
        let d = its.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies it_ok(#[trigger] d[j]) by { assert(d[j] == its[j]); }
        assert forall|j: int| 0 <= j < d.len() implies (#[trigger] d[j]).pos < d[j].s@.len() && key <= d[j].s@[d[j].pos as int].upper_bound.key() by { assert(d[j] == its[j]); }
        fsum_adv(c, d, key, x);
        let l = its[its.len() - 1];
        assert(l == its.last());
        gsum_adv(c, l, key, x);
        assert(adv_all(its, key).drop_last() =~= adv_all(d, key));
        assert(adv_all(its, key).last() == adv(l, key));
    }
}
pub proof fn fsum_update<'a>(c: Map<int, int>, its: Seq<PeekIter<'a, crate::bucket::Bucket>>, i: int, y: PeekIter<'a, crate::bucket::Bucket>, x: int)
    requires 0 <= i < its.len(),
    ensures fsum(c, its.update(i, y), x) == fsum(c, its, x) - gsum(c, its[i].s@, its[i].pos as int, x) + gsum(c, y.s@, y.pos as int, x),
    decreases its.len(),
{
    let u = its.update(i, y);
    if i == its.len() - 1 { assert(u.drop_last() =~= its.drop_last()); }
    else { fsum_update(c, its.drop_last(), i, y, x); assert(u.drop_last() =~= its.drop_last().update(i, y)); assert(u.last() == its.last()); assert(its.drop_last()[i] == its[i]); }
}
/// taking out an exhausted list changes no sum and leaves the same buckets to come
pub proof fn exhausted_out<'a>(c: Map<int, int>, its: Seq<PeekIter<'a, crate::bucket::Bucket>>, i: int)
    requires 0 <= i < its.len(), its[i].pos == its[i].s@.len(),
    ensures
        forall|x: int| #[trigger] fsum(c, swap_removed(its, i), x) == fsum(c, its, x),
        forall|b: crate::bucket::Bucket| #[trigger] left(swap_removed(its, i), b) == left(its, b),
{
    let n = swap_removed(its, i);
    let u = its.update(i, its.last());
    assert forall|x: int| #[trigger] fsum(c, n, x) == fsum(c, its, x) by {
        fsum_update(c, its, i, its.last(), x);
        assert(u.last() == its.last());
        assert(gsum(c, its[i].s@, its[i].pos as int, x) == 0);
    }
    assert forall|b: crate::bucket::Bucket| #[trigger] left(n, b) == left(its, b) by {
        reveal(left);
        if left(n, b) {
            let (j, k) = choose|j: int, k: int| 0 <= j < n.len() && n[j].pos <= k < n[j].s@.len() && #[trigger] n[j].s@[k] == b;
            let j2 = if j == i { its.len() - 1 } else { j };
            assert(n[j] == its[j2]);
            assert(its[j2].s@[k] == b);
        }
        if left(its, b) {
            let (j, k) = choose|j: int, k: int| 0 <= j < its.len() && its[j].pos <= k < its[j].s@.len() && #[trigger] its[j].s@[k] == b;
            assert(j != i);
            let j2 = if j == its.len() - 1 { i } else { j };
            assert(n[j2] == its[j]);
            assert(n[j2].s@[k] == b);
        }
    }
}
pub proof fn left_adv<'a>(its: Seq<PeekIter<'a, crate::bucket::Bucket>>, key: int)
    requires its_ok(its), heads_from(its, key),
    ensures
        forall|b: crate::bucket::Bucket| #[trigger] left(adv_all(its, key), b) <==> left(its, b) && b.upper_bound.key() > key,
        forall|b: crate::bucket::Bucket| #[trigger] left(its, b) ==> b.upper_bound.key() >= key,
        its_ok(adv_all(its, key)),
{
    let n = adv_all(its, key);
    assert forall|j: int, k: int| 0 <= j < its.len() && its[j].pos <= k < its[j].s@.len() implies (#[trigger] its[j].s@[k]).upper_bound.key() >= key && (k > its[j].pos ==> its[j].s@[k].upper_bound.key() > key) by {
        let p = its[j].pos as int;
        assert(it_ok(its[j]));
        if p < k { assert(its[j].s@[p].upper_bound.key() < its[j].s@[k].upper_bound.key()); }
    }
    assert forall|b: crate::bucket::Bucket| #[trigger] left(n, b) <==> left(its, b) && b.upper_bound.key() > key by {
        reveal(left);
        if left(n, b) {
            let (j, k) = choose|j: int, k: int| 0 <= j < n.len() && n[j].pos <= k < n[j].s@.len() && #[trigger] n[j].s@[k] == b;
            assert(n[j] == adv(its[j], key));
            assert(its[j].pos < its[j].s@.len());
            it_step(its[j]);
            assert(its[j].pos <= k);
            assert(its[j].s@[k] == b);
        }
        if left(its, b) && b.upper_bound.key() > key {
            let (j, k) = choose|j: int, k: int| 0 <= j < its.len() && its[j].pos <= k < its[j].s@.len() && #[trigger] its[j].s@[k] == b;
            assert(n[j] == adv(its[j], key));
            it_step(its[j]);
            assert(its[j].s@[k].upper_bound.key() >= key);
            assert(n[j].s@[k] == b);
        }
    }
    assert forall|b: crate::bucket::Bucket| #[trigger] left(its, b) implies b.upper_bound.key() >= key by { reveal(left); }
    assert forall|j: int| 0 <= j < n.len() implies it_ok(#[trigger] n[j]) by { assert(n[j] == adv(its[j], key)); assert(it_ok(its[j])); }
}
/// m is infinity or the bound next in one of the first n lists
#[verifier::opaque]
pub open spec fn next_in<'a>(its: Seq<PeekIter<'a, crate::bucket::Bucket>>, n: int, m: F64) -> bool {
    exists|j: int| 0 <= j < n && j < its.len() && (#[trigger] its[j]).pos < its[j].s@.len() && its[j].s@[its[j].pos as int].upper_bound == m
}
pub proof fn next_in_left<'a>(its: Seq<PeekIter<'a, crate::bucket::Bucket>>, m: F64)
    requires next_in(its, its.len() as int, m),
    ensures bound_left(its, m),
{
    reveal(next_in);
    reveal(left);
    let j = choose|j: int| 0 <= j < its.len() && (#[trigger] its[j]).pos < its[j].s@.len() && its[j].s@[its[j].pos as int].upper_bound == m;
    assert(left(its, its[j].s@[its[j].pos as int]));
}
pub open spec fn bound_left<'a>(its: Seq<PeekIter<'a, crate::bucket::Bucket>>, m: F64) -> bool { exists|b: crate::bucket::Bucket| #[trigger] left(its, b) && b.upper_bound == m }
pub proof fn nothing_left<'a>(its: Seq<PeekIter<'a, crate::bucket::Bucket>>)
    requires its.len() == 0,
    ensures forall|b: crate::bucket::Bucket| !#[trigger] left(its, b),
{ reveal(left); }
pub proof fn add_wrap(a: int, b: int)
    ensures acc64(acc64(0, a), b) == acc64(0, a + b),
{ vstd::arithmetic::div_mod::lemma_add_mod_noop(a, b, 0x1_0000_0000_0000_0000); vstd::arithmetic::div_mod::lemma_add_mod_noop(a % 0x1_0000_0000_0000_0000, b, 0x1_0000_0000_0000_0000); vstd::arithmetic::div_mod::lemma_mod_twice(a, 0x1_0000_0000_0000_0000); }
/// 64-bit accumulation
pub open spec fn acc64(a: int, b: int) -> int { (a + b) % 0x1_0000_0000_0000_0000 }
/// an aggregation which has listed every bound up to `last` (none yet), for the bucket lists `all`
pub open spec fn merged<'a>(c: Map<int, int>, all: Seq<PeekIter<'a, crate::bucket::Bucket>>, a: crate::bucket::AggregatedCumulativeBuckets<'a>, last: Option<int>) -> bool {
    match last {
        None => a.cumulative_count == 0 && a.iters@ == all,
        Some(k) => {
            &&& a.cumulative_count == acc64(0, fsum(c, all, k))
            &&& forall|x: int| x >= k ==> #[trigger] fsum(c, a.iters@, x) == fsum(c, all, x) - fsum(c, all, k)
            &&& forall|b: crate::bucket::Bucket| #[trigger] left(a.iters@, b) <==> left(all, b) && b.upper_bound.key() > k
        },
    }
}
/// what one call of next does
pub open spec fn merge_next<'a>(c: Map<int, int>, quiet: bool, o: crate::bucket::AggregatedCumulativeBuckets<'a>, n: crate::bucket::AggregatedCumulativeBuckets<'a>, r: Option<crate::bucket::CumulativeBucket>) -> bool {
    match r {
        None => n.cumulative_count == o.cumulative_count && (forall|b: crate::bucket::Bucket| !#[trigger] left(o.iters@, b)) && (forall|b: crate::bucket::Bucket| !#[trigger] left(n.iters@, b)),
        Some(e) => {
            let k = e.upper_bound.key();
            &&& !e.upper_bound.nan() && bound_left(o.iters@, e.upper_bound)
            &&& forall|b: crate::bucket::Bucket| #[trigger] left(o.iters@, b) ==> b.upper_bound.key() >= k
            &&& forall|b: crate::bucket::Bucket| #[trigger] left(n.iters@, b) <==> left(o.iters@, b) && b.upper_bound.key() > k
            &&& n.cumulative_count == e.cumulative_count
            &&& quiet ==> e.cumulative_count == acc64(o.cumulative_count as int, fsum(c, o.iters@, k))
            &&& forall|x: int| x >= k ==> #[trigger] fsum(c, n.iters@, x) == fsum(c, o.iters@, x) - fsum(c, o.iters@, k)
        },
    }
}
/// C11: listing the next bound keeps the account: every bound is listed once, in ascending order,
/// each with the total count of all members' buckets not above it, until none is left
pub proof fn merge_account<'a>(c: Map<int, int>, all: Seq<PeekIter<'a, crate::bucket::Bucket>>, o: crate::bucket::AggregatedCumulativeBuckets<'a>, n: crate::bucket::AggregatedCumulativeBuckets<'a>, last: Option<int>, r: Option<crate::bucket::CumulativeBucket>)
    requires merged(c, all, o, last), merge_next(c, true, o, n, r),
    ensures
        match r {
            Some(e) => {
                let k = e.upper_bound.key();
                &&& merged(c, all, n, Some(k))
                &&& last is Some ==> last->0 < k
                &&& bound_left(all, e.upper_bound)
                &&& e.cumulative_count == acc64(0, fsum(c, all, k))
                // no bound was left out
                &&& forall|b: crate::bucket::Bucket| #[trigger] left(all, b) ==> (last is Some && b.upper_bound.key() <= last->0) || b.upper_bound.key() >= k
            },
            // all were listed
            None => forall|b: crate::bucket::Bucket| #[trigger] left(all, b) ==> last is Some && b.upper_bound.key() <= last->0,
        },
{
    match r {
        Some(e) => {
            let k = e.upper_bound.key();
            let b = choose|b: crate::bucket::Bucket| #[trigger] left(o.iters@, b) && b.upper_bound == e.upper_bound;
            assert(left(all, b));
            let l = match last { Some(l) => fsum(c, all, l), None => 0 };
            if last is Some { assert(left(all, b) && b.upper_bound.key() > last->0); }
            assert(fsum(c, o.iters@, k) == fsum(c, all, k) - l);
            assert(acc64(acc64(0, l), fsum(c, all, k) - l) == acc64(0, fsum(c, all, k))) by {
                add_wrap(l, fsum(c, all, k) - l);
            }
            assert forall|x: int| x >= k implies #[trigger] fsum(c, n.iters@, x) == fsum(c, all, x) - fsum(c, all, k) by {
                assert(fsum(c, n.iters@, x) == fsum(c, o.iters@, x) - fsum(c, o.iters@, k));
            }
            assert forall|b: crate::bucket::Bucket| #[trigger] left(n.iters@, b) <==> left(all, b) && b.upper_bound.key() > k by { assert(left(n.iters@, b) <==> left(o.iters@, b) && b.upper_bound.key() > k); }
            assert forall|b: crate::bucket::Bucket| #[trigger] left(all, b) implies (last is Some && b.upper_bound.key() <= last->0) || b.upper_bound.key() >= k by { if left(o.iters@, b) {} }
        },
        None => {
            assert forall|b: crate::bucket::Bucket| #[trigger] left(all, b) implies last is Some && b.upper_bound.key() <= last->0 by { if left(o.iters@, b) {} }
        },
    }
}
pub open spec fn tsum(c: Map<int, int>, s: Seq<crate::bucket::Bucket>, p: int) -> int
    decreases s.len() - p
{ if p < 0 || p >= s.len() { 0 } else { c[bid(s[p])] + tsum(c, s, p + 1) } }
pub open spec fn total<'a>(c: Map<int, int>, its: Seq<PeekIter<'a, crate::bucket::Bucket>>) -> int
    decreases its.len()
{ if its.len() == 0 { 0 } else { total(c, its.drop_last()) + tsum(c, its.last().s@, its.last().pos as int) } }
pub proof fn gsum_inf(c: Map<int, int>, s: Seq<crate::bucket::Bucket>, p: int)
    requires 0 <= p, forall|i: int| 0 <= i < s.len() ==> !(#[trigger] s[i]).upper_bound.nan(),
    ensures gsum(c, s, p, finf().key()) == tsum(c, s, p),
    decreases s.len() - p,
{ if p < s.len() { assert(!s[p].upper_bound.nan()); gsum_inf(c, s, p + 1); } }
pub proof fn fsum_inf<'a>(c: Map<int, int>, its: Seq<PeekIter<'a, crate::bucket::Bucket>>)
    requires its_ok(its),
    ensures fsum(c, its, finf().key()) == total(c, its),
    decreases its.len(),
{
    if its.len() > 0 {
        let d = its.drop_last();
        assert forall|j: int| 0 <= j < d.len() implies it_ok(#[trigger] d[j]) by { assert(d[j] == its[j]); }
        assert(it_ok(its[its.len() - 1]));
        fsum_inf(c, d);
        gsum_inf(c, its.last().s@, its.last().pos as int);
    }
}
/// C11: for one or more member histograms the list ends at +Inf, with the count of all observations of all of them
pub proof fn merge_ends<'a>(c: Map<int, int>, h: Seq<crate::metrics::histogram::Histogram>, all: Seq<PeekIter<'a, crate::bucket::Bucket>>, o: crate::bucket::AggregatedCumulativeBuckets<'a>, last: Option<int>, e: F64)
    requires last is Some ==> !e.nan() && e.key() == last->0,
        h.len() > 0, all_hist_ok(h), lists_of(h, all), its_ok(all), merged(c, all, o, last), forall|b: crate::bucket::Bucket| !#[trigger] left(o.iters@, b),
    ensures last == Some(finf().key()), o.cumulative_count == acc64(0, total(c, all)),
{
    reveal(left);
    let l = h[0].0.buckets@;
    assert(hist_ok(*h[0].0));
    assert(all[0].s@ == l);
    let b = all[0].s@[l.len() - 1];
    assert(left(all, b));
    assert(left(o.iters@, b) <==> (last matches Some(k) ==> b.upper_bound.key() > k));
    fsum_inf(c, all);
    assert(last->0 == finf().key()) by {
        // nothing lies beyond infinity
        assert(last->0 >= finf().key());
    }
}
/// the lists an aggregation starts from
pub open spec fn lists_of<'a>(h: Seq<crate::metrics::histogram::Histogram>, its: Seq<PeekIter<'a, crate::bucket::Bucket>>) -> bool {
    its.len() == h.len() && forall|i: int| 0 <= i < h.len() ==> (#[trigger] its[i]).pos == 0 && its[i].s@ == h[i].0.buckets@
}
pub open spec fn all_hist_ok(h: Seq<crate::metrics::histogram::Histogram>) -> bool { forall|i: int| 0 <= i < h.len() ==> hist_ok(*(#[trigger] h[i]).0) }
impl OwnCollector for crate::metrics::histogram::HistogramCollector { open spec fn cid(&self) -> int { handle_id(self.0.target()) } }

//@ fn bucket::Bucket::count() props=C10,C11
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == old(w).cur[bid(*self)],
//@ fn bucket::Bucket::upper_bound() props=C09,C10,C11
    ensures r == self.upper_bound,
//@ fn bucket::Bucket::new(upper_bound) props=C09,C18
    ensures
        r is Ok <==> !upper_bound.nan(),
        match r {
            Ok(b) => b.upper_bound == upper_bound && born(*old(w), *final(w), bid(b), 0),
            Err(e) => e is InvalidInput && same(*old(w), *final(w)),
        },
//@ fn bucket::Bucket::increment() props=C07,C10
    ensures step(*old(w), *final(w), bid(*self), plus64(1)),
//@ fn bucket::CumulativeBucket::cumulative_count() props=C10,C11
    ensures r == self.cumulative_count,
//@ fn bucket::CumulativeBucket::upper_bound() props=C10,C11
    ensures r == self.upper_bound,
//@ fn bucket::CumulativeBuckets::new(buckets) props=C05,C10
    ensures r.cumulative_count == 0, r.iter.s@ == buckets@, r.iter.pos == 0,
//@ fn bucket::CumulativeBuckets::next() props=C05,C10
    requires old(self).iter.wf(),
    ensures
        same(*old(w), *final(w)), final(self).iter.wf(), final(self).iter.s == old(self).iter.s,
        ({
            let s = old(self).iter.s@;
            let p = old(self).iter.pos as int;
            match r {
                Some(c) => p < s.len() && final(self).iter.pos == p + 1 && c.upper_bound == s[p].upper_bound
                    && final(self).cumulative_count == c.cumulative_count
                    && (old(w).quiet && old(self).cumulative_count == cum(*old(w), s, p) ==> c.cumulative_count == cum(*old(w), s, p + 1)),
                None => p == s.len() && final(self).iter.pos == p && final(self).cumulative_count == old(self).cumulative_count,
            }
        }),
//@ fn metrics::histogram::Histogram::metric_name() props=C14,C18
    ensures *r == self.0.bucket_name,
//@ fn metrics::histogram::Histogram::help() props=C05,C18
    ensures ov(r) == sv(self.0.help),
//@ fn metrics::histogram::Histogram::labels() props=C14,C18
    ensures *r == self.0.labels,
//@ fn metrics::histogram::Histogram::labels_mut() props=C02,C03
    ensures *r.inner == old(self).0.labels, ov(r.reserved) == Some("le"@), *final(self) == *old(self),
//@ fn metrics::histogram::Histogram::timestamp() props=C15,C17
    ensures *r == self.0.timestamp,
//@ fn metrics::histogram::Histogram::timestamp_mut() props=C17
    ensures *r.0 == self.0.timestamp,
//@ fn metrics::histogram::Histogram::buckets() props=C09,C10,C11
    ensures r@ == self.0.buckets@,
//@ fn metrics::histogram::Histogram::cumulative_buckets() props=C05,C10
    ensures r.cumulative_count == 0, r.iter.s@ == self.0.buckets@, r.iter.pos == 0,
//@ fn metrics::histogram::Histogram::count() props=C10,C15
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == cum(*old(w), self.0.buckets@, self.0.buckets@.len() as int),
//@ loop 0 slice
    *w == *old(w), old(w).quiet ==> __acc0 == cum(*old(w), self.0.buckets@, __i0 as int), __s0@ == self.0.buckets@,
//@ fn metrics::histogram::Histogram::sum() props=C07,C10,C15
    ensures same(*old(w), *final(w)), old(w).quiet ==> r == f_of(old(w).cur[sum_id(*self.0)]),
//@ fn metrics::histogram::Histogram::observe(value) props=C07,C10
    requires hist_ok(*self.0),
    ensures
        !value.nan(),
        exists|i: int| #[trigger] is_first(self.0.buckets@, i, value)
            && two_steps(*old(w), *final(w), bid(self.0.buckets@[i]), plus64(1), sum_id(*self.0), plusf(value)),
//@ panics value.nan() && *w == *old(w)
//@ closure 0 req |b: crate::bucket::Bucket| !b.upper_bound.nan() && !value.nan()
//@ closure 0 cmp |b: crate::bucket::Bucket| int_cmp(b.upper_bound.key(), value.key())
//@ searched 0
    proof {
        let i = match $r { Ok(i) => i as int, Err(i) => i as int };
        assert(self.0.buckets@.last().upper_bound == finf());
        assert(is_first(self.0.buckets@, i, value));
    }
//@ fn metrics::histogram::Histogram::time(f) props=C07,C10
    requires hist_ok(*self.0),
    ensures
        r == f.result(*old(w)),
        exists|d: Duration, i: int| d.wf() && #[trigger] is_first(self.0.buckets@, i, seconds_of(d))
            && two_steps(f.after(*old(w)), *final(w), bid(self.0.buckets@[i]), plus64(1), sum_id(*self.0), plusf(seconds_of(d))),
//@ entry
    proof { ax_seconds(); }
//@ fn metrics::histogram::Histogram::collector() props=C16,C18
    ensures r.0.target() == *self.0,
//@ fn metrics::histogram::HistogramCollector::collect() props=C16
    ensures same(*old(w), *final(w)), final(self).0 == old(self).0,
        match r {
            Some(m) => alive(*old(w), old(self).0.target()) && (m.v matches crate::metric::Metric::Histogram(c) && *c.0 == old(self).0.target()),
            None => !alive(*old(w), old(self).0.target()),
        },
//@ fn bucket::AggregatedCumulativeBuckets::new(histograms) props=C11
    ensures r.cumulative_count == 0, lists_of(histograms@, r.iters@), all_hist_ok(histograms@) ==> its_ok(r.iters@),
//@ loop 0 slice
    __s0@ == histograms@, __acc0@.len() == __i0,
    forall|j: int| 0 <= j < __i0 ==> (#[trigger] __acc0@[j]).pos == 0 && __acc0@[j].s@ == histograms@[j].0.buckets@,
//@ loop 0 post
    proof {
        if all_hist_ok(histograms@) {
            assert forall|j: int| 0 <= j < __acc0@.len() implies it_ok(#[trigger] __acc0@[j]) by { assert(hist_ok(*histograms@[j].0)); }
        }
    }
//@ fn bucket::AggregatedCumulativeBuckets::next() props=C05,C11
    requires its_ok(old(self).iters@),
    ensures same(*old(w), *final(w)), its_ok(final(self).iters@), merge_next(old(w).cur, old(w).quiet, *old(self), *final(self), r),
//@ loop 0 while
    *w == *old(w), 0 <= i <= self.iters@.len(),
    self.cumulative_count == old(self).cumulative_count,
    its_ok(self.iters@),
    forall|x: int| #![trigger fsum(w.cur, self.iters@, x)] #![trigger fsum(w.cur, old(self).iters@, x)] fsum(w.cur, self.iters@, x) == fsum(w.cur, old(self).iters@, x),
    forall|b: crate::bucket::Bucket| #![trigger left(self.iters@, b)] #![trigger left(old(self).iters@, b)] left(self.iters@, b) == left(old(self).iters@, b),
    !min.nan(), min == finf() || next_in(self.iters@, i as int, min),
    forall|j: int| 0 <= j < i ==> (#[trigger] self.iters@[j]).pos < self.iters@[j].s@.len() && min.key() <= self.iters@[j].s@[self.iters@[j].pos as int].upper_bound.key(),
  decreases self.iters@.len() - i,
//@ loop 0 body
    let ghost __h = self.iters@;
    let ghost __n = i as int;
    let ghost __m = min;
    proof { assert(it_ok(self.iters@[i as int])); }
//@ loop 0 end
    proof {
        reveal(next_in);
        if next_in(__h, __n, __m) {
            let j = choose|j: int| 0 <= j < __n && j < __h.len() && (#[trigger] __h[j]).pos < __h[j].s@.len() && __h[j].s@[__h[j].pos as int].upper_bound == __m;
            assert(self.iters@[j] == __h[j]);
        }
        if self.iters@ == __h { assert(self.iters@[__n] == __h[__n]); }
        if __h[__n].pos == __h[__n].s@.len() && self.iters@ == swap_removed(__h, __n) {
            exhausted_out(w.cur, __h, __n);
        }
    }
//@ loop 0 post
    proof {
        if self.iters@.len() == 0 { nothing_left(self.iters@); }
        else {
            let h = self.iters@[0];
            reveal(next_in);
            if min == finf() { assert(it_ok(h)); assert(h.s@[h.pos as int].upper_bound == finf()); assert(next_in(self.iters@, self.iters@.len() as int, min)); }
            next_in_left(self.iters@, min);
            left_adv(self.iters@, min.key());
            assert forall|x: int| x >= min.key() implies #[trigger] fsum(w.cur, adv_all(self.iters@, min.key()), x) == fsum(w.cur, self.iters@, x) - fsum(w.cur, self.iters@, min.key()) by { fsum_adv(w.cur, self.iters@, min.key(), x); }
        }
    }
//@ loop 1 mut
    *w == *old(w),
    forall|j: int| __i1 <= j < __g1.len() ==> self.iters@[j] == #[trigger] __g1[j],
    forall|j: int| 0 <= j < __i1 ==> self.iters@[j] == adv(#[trigger] __g1[j], min.key()),
    old(w).quiet ==> self.cumulative_count == acc64(old(self).cumulative_count as int, fsum(w.cur, __g1.take(__i1 as int), min.key())),
//@ loop 1 body
    proof {
        let j = __i1 - 1;
        let it = __g1[j];
        it_step(it);
        assert(it_ok(it));
        assert(__g1.take(__i1 as int).drop_last() =~= __g1.take(j));
        assert(__g1.take(__i1 as int).last() == it);
        gsum_adv(w.cur, it, min.key(), min.key());
        let p = it.pos as int;
        if p + 1 < it.s@.len() { assert(it.s@[p].upper_bound.key() < it.s@[p + 1].upper_bound.key()); }
        gsum_above(w.cur, it.s@, p + 1, min.key());
    }
//@ loop 1 post
    proof { assert(__g1.take(__g1.len() as int) =~= __g1); assert(self.iters@ =~= adv_all(__g1, min.key())); }
