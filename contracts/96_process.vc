//@ spec
// ------------------------------------------------------------ the process collector
/// a metric as seen by a reader: its kind, name and value
pub type Seen = (int, Parts, F64);
pub open spec fn pseen(w: World, m: crate::metric::Metric) -> Seen {
    (mkind(m).rank(), nparts(mname(m)), match m {
        crate::metric::Metric::Counter(c) => cnt_val(w, c.0.value),
        crate::metric::Metric::Gauge(g) => f_of(w.cur[gid(g)]),
        _ => f0(),
    })
}
pub open spec fn pseens(w: World, s: Seq<crate::metric::Metric>) -> Seq<Seen> { s.map_values(|m: crate::metric::Metric| pseen(w, m)) }
/// the cells its value is in exist
pub open spec fn pin(w: World, m: crate::metric::Metric) -> bool {
    match m {
        crate::metric::Metric::Counter(c) => w.cur.dom().contains(cnt_f(c.0.value)) && w.cur.dom().contains(cnt_u(c.0.value)),
        crate::metric::Metric::Gauge(g) => w.cur.dom().contains(gid(g)),
        _ => true,
    }
}
pub open spec fn pname(s: Seq<char>) -> Parts { (Some("process"@), None, s) }
pub open spec fn pgauge(n: Seq<char>, x: F64) -> Seen { (crate::metric::MetricKind::Gauge.rank(), pname(n), x) }
pub open spec fn pcounter(n: Seq<char>, x: F64) -> Seen { (crate::metric::MetricKind::Counter.rank(), pname(n), cnt_of(x)) }
/// the value of a new counter which x was added to
pub open spec fn cnt_of(x: F64) -> F64 {
    if !f0().le(x) { fadd(f0(), of_int(0)) } else if small_integral(x) { fadd(f0(), of_int(fto_u64(x) as int)) } else { fadd(fadd(f0(), x), of_int(0)) }
}
pub open spec fn ticks() -> F64 { of_int(sysconf_answer(2) as int) }
/// C20: the CPU time is reported as it is
/// kani: counted, ratio
pub axiom fn ax_cnt_of(n: int, t: int)
    requires 0 <= n <= i64::MAX, 0 < t <= i64::MAX,
    ensures f0().le(fdiv(of_int(n), of_int(t))), forall|x: F64| f0().le(x) ==> (#[trigger] cnt_of(x)).eq(x);
/// the first of the lines which begins with p
pub open spec fn first_with(ls: Seq<Seq<char>>, p: Seq<char>) -> Option<Seq<char>>
    decreases ls.len()
{
    if ls.len() == 0 { None } else {
        match first_with(ls.drop_last(), p) { Some(l) => Some(l), None => if starts(ls.last(), p) { Some(ls.last()) } else { None } }
    }
}
/// C20: the boot time in /proc/stat is the number in its line btime
pub open spec fn boot_in(t: Seq<char>) -> Option<u64> {
    match first_with(lines_of(t), "btime "@) { Some(l) => u64_of(rtrim(ltrim(l.skip(6)))), None => None }
}
pub broadcast proof fn b_first_next(v: Seq<&str>, i: int, p: Seq<char>)
    requires 0 <= i < v.len(),
    ensures #![trigger first_with(texts(v).take(i), p), v[i]] first_with(texts(v).take(i + 1), p) == (match first_with(texts(v).take(i), p) {
        Some(l) => Some(l), None => if starts(v[i]@, p) { Some(v[i]@) } else { None } }),
{ assert(texts(v).take(i + 1).drop_last() =~= texts(v).take(i)); }
pub broadcast proof fn b_first_stays(ls: Seq<Seq<char>>, i: int, p: Seq<char>)
    requires 0 <= i <= ls.len(), first_with(ls.take(i), p) is Some || i == ls.len(),
    ensures #[trigger] first_with(ls.take(i), p) == first_with(ls, p),
    decreases ls.len() - i
{
    if i == ls.len() { assert(ls.take(i) =~= ls); } else {
        assert(ls.take(i + 1).drop_last() =~= ls.take(i));
        b_first_stays(ls, i + 1, p);
    }
}
pub broadcast proof fn b_first_starts(ls: Seq<Seq<char>>, p: Seq<char>)
    ensures #[trigger] first_with(ls, p) matches Some(l) ==> starts(l, p),
    decreases ls.len()
{ if ls.len() > 0 { b_first_starts(ls.drop_last(), p); } }
/// what the operating system said last, of each thing it was asked (None: never asked)
pub struct Said { pub limits: Option<Option<Limits>>, pub fds: Option<Option<usize>>, pub stat: Option<Option<Stat>>, pub boot: Option<Option<u64>> }
pub open spec fn says(s: Said, e: OsEv) -> Said {
    match e {
        OsEv::Limits(x) => Said { limits: Some(x), ..s },
        OsEv::Stat(x) => Said { stat: Some(x), ..s },
        OsEv::Text(p, x) => if p == "/proc/stat"@ { Said { boot: Some(match x { Some(t) => boot_in(t), None => None }), ..s } } else { s },
        OsEv::Dir(p, x) => if p == "/proc/self/fd"@ { Said { fds: Some(x), ..s } } else { s },
    }
}
pub open spec fn said_in(a: Seq<OsEv>) -> Said
    decreases a.len()
{ if a.len() == 0 { Said { limits: None, fds: None, stat: None, boot: None } } else { says(said_in(a.drop_last()), a.last()) } }
pub open spec fn since(o: World, n: World) -> bool { o.os.len() <= n.os.len() }
#[verifier::opaque]
pub open spec fn said(b: World, n: World) -> Said { said_in(n.os.skip(b.os.len() as int)) }
pub broadcast proof fn b_said_none(o: World)
    ensures #[trigger] said(o, o) == said_in(Seq::empty()),
{ reveal(said); assert(o.os.skip(o.os.len() as int) =~= Seq::empty()); }
pub broadcast proof fn b_said_ask(b: World, o: World, n: World, e: OsEv)
    requires since(b, o), os_asked(o, n, e),
    ensures #![trigger since(b, o), os_asked(o, n, e)] since(b, n), said(b, n) == says(said(b, o), e),
{
    reveal(said);
    let k = b.os.len() as int;
    assert(n.os.skip(k).drop_last() =~= o.os.skip(k));
    assert(n.os.skip(k).last() == e);
}
pub broadcast proof fn b_said_kept(b: World, o: World, n: World)
    requires pgrew(o, n), since(b, o),
    ensures #![trigger since(b, o), pgrew(o, n)] since(b, n), said(b, n) == said(b, o),
{ reveal(said); }
/// every question was asked
pub open spec fn said_enough(s: Said) -> bool {
    s.limits is Some && s.fds is Some && s.stat is Some && (s.stat->0 is Some ==> s.boot is Some)
}
pub open spec fn one(b: bool, x: Seen) -> vstd::multiset::Multiset<Seen> { if b { vstd::multiset::Multiset::singleton(x) } else { vstd::multiset::Multiset::empty() } }
pub open spec fn said_fds(s: Said) -> vstd::multiset::Multiset<Seen> {
    one(s.limits->0 is Some && s.limits->0->0.max_open_files.soft is Some, pgauge("max_fds"@, of_int(s.limits->0->0.max_open_files.soft->0 as int)))
        .add(one(s.fds->0 is Some, pgauge("open_fds"@, of_int(if s.fds->0->0 >= 1 { s.fds->0->0 - 1 } else { 0 }))))
}
pub open spec fn said_times(s: Said) -> vstd::multiset::Multiset<Seen> {
    one(s.stat->0 is Some, pcounter("cpu_seconds_total"@, fdiv(of_int(s.stat->0->0.utime + s.stat->0->0.stime), ticks())))
        .add(one(s.stat->0 is Some && s.boot->0 is Some, pgauge("start_time_seconds"@, fadd(of_int(s.boot->0->0 as int), fdiv(of_int(s.stat->0->0.start_time as int), ticks())))))
}
pub open spec fn said_size(s: Said) -> vstd::multiset::Multiset<Seen> {
    one(s.stat->0 is Some, pgauge("threads_total"@, of_int(s.stat->0->0.num_threads as int)))
        .add(one(s.stat->0 is Some, pgauge("virtual_memory_bytes"@, of_int(s.stat->0->0.vsize as int))))
        .add(one(s.stat->0 is Some, pgauge("resident_memory_bytes"@, of_int(s.stat->0->0.rss * sysconf_answer(30)))))
}
/// the metrics which the answers call for
pub open spec fn said_all(s: Said) -> vstd::multiset::Multiset<Seen> { said_fds(s).add(said_times(s)).add(said_size(s)) }
/// C20: the metrics are those which the answers call for
pub open spec fn told(o: World, n: World, m: Seq<crate::metric::Metric>) -> bool {
    said_enough(said(o, n)) && pall(n, m) == said_all(said(o, n))
}
/// what a reader sees in a list of metrics
#[verifier::opaque]
pub open spec fn pall(w: World, s: Seq<crate::metric::Metric>) -> vstd::multiset::Multiset<Seen> { pseens(w, s).to_multiset() }
#[verifier::opaque]
pub open spec fn pins(w: World, s: Seq<crate::metric::Metric>) -> bool { forall|i: int| 0 <= i < s.len() ==> pin(w, #[trigger] s[i]) }
/// new cells only
pub open spec fn pgrew(o: World, n: World) -> bool { grew(o, n) && n.quiet == o.quiet && n.os == o.os }
pub proof fn pseens_same(o: World, n: World, s: Seq<crate::metric::Metric>)
    requires grew(o, World { os: o.os, ..n }), pins(o, s),
    ensures pseens(n, s) == pseens(o, s), pins(n, s),
{
    reveal(pins);
    assert forall|i: int| 0 <= i < s.len() implies pseen(n, s[i]) == pseen(o, s[i]) && pin(n, s[i]) by { assert(pin(o, s[i])); }
    assert(pseens(n, s) =~= pseens(o, s));
}
pub broadcast proof fn b_pnone(w: World, s: Seq<crate::metric::Metric>)
    requires s.len() == 0,
    ensures #![trigger pall(w, s)] #![trigger pins(w, s)] pins(w, s), pall(w, s) == vstd::multiset::Multiset::<Seen>::empty(),
{
    reveal(pins); reveal(pall);
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
    assert(pseens(w, s) =~= Seq::empty());
    assert(pall(w, s) =~= vstd::multiset::Multiset::empty());
}
/// a metric is pushed
pub broadcast proof fn b_ppush(o: World, n: World, s: Seq<crate::metric::Metric>, m: crate::metric::Metric)
    requires pgrew(o, n), pins(o, s), pin(n, m),
    ensures #![trigger pgrew(o, n), pins(o, s), s.push(m)] pins(n, s.push(m)), pall(n, s.push(m)) == pall(o, s).insert(pseen(n, m)),
{
    pseens_same(o, n, s);
    reveal(pins); reveal(pall);
    assert(pseens(n, s.push(m)) =~= pseens(o, s).push(pseen(n, m)));
    broadcast use vstd::seq_lib::group_to_multiset_ensures;
}
/// a question is asked
pub broadcast proof fn b_pask(o: World, n: World, s: Seq<crate::metric::Metric>, e: OsEv)
    requires os_asked(o, n, e), pins(o, s),
    ensures #![trigger os_asked(o, n, e), pins(o, s)] pins(n, s), pall(n, s) == pall(o, s),
{ pseens_same(o, n, s); reveal(pall); }
//@ fn metric::Metric::from_Counter(f) props=C20
    ensures r == crate::metric::Metric::Counter(f),
//@ fn metric::Metric::from_Gauge(f) props=C20
    ensures r == crate::metric::Metric::Gauge(f),
//@ fn metric::Metric::from_Histogram(f) props=C20
    ensures r == crate::metric::Metric::Histogram(f),
//@ fn metric::Metric::from_Summary(f) props=C20
    ensures r == crate::metric::Metric::Summary(f),
//@ fn metrics::process::CLK_TCK() props=C20
    ensures r == ticks(),
//@ fn metrics::process::PAGESIZE() props=C20
    ensures r == sysconf_answer(30),
//@ entry
    proof { ax_sysconf(); }
//@ fn metrics::process::open_fds() props=C20
    ensures exists|n: Option<usize>| #[trigger] os_asked(*old(w), *final(w), OsEv::Dir("/proc/self/fd"@, n))
        && r == (match n { Some(k) => Some((if k >= 1 { k - 1 } else { 0 }) as usize), None => None }),
//@ fn metrics::process::boot_time() props=C20
    ensures exists|t: Option<Seq<char>>| #[trigger] os_asked(*old(w), *final(w), OsEv::Text("/proc/stat"@, t))
        && r == (match t { Some(x) => boot_in(x), None => None }),
//@ entry
    proof { reveal_strlit("btime "); broadcast use {b_starts, b_first_next, b_first_stays, b_first_starts}; }
//@ loop 0 lines
    invariant texts(__s0@) == lines_of(stat@), __i0 <= __s0@.len(), first_with(texts(__s0@).take(__i0 as int), "btime "@) == (match __acc0 { Some(l) => Some(l@), None => None }),
//@ fn metrics::process::counter(name, value) props=C20
    requires good_name(name@),
    ensures old(w).quiet ==> pgrew(*old(w), *final(w)) && pin(*final(w), r) && pseen(*final(w), r) == pcounter(name@, value),
//@ fn metrics::process::gauge(name, value) props=C20
    requires good_name(name@),
    ensures old(w).quiet ==> pgrew(*old(w), *final(w)) && pin(*final(w), r) && pseen(*final(w), r) == pgauge(name@, value),
//@ fn metrics::process::ProcessMetricsCollector::new() props=C20
    ensures true,
//@ fn metrics::process::ProcessMetricsCollector::default() props=C20
    ensures true,
//@ fn metrics::process::ProcessMetricsCollector::collect() props=C20
    ensures r is Some, old(w).quiet ==> told(*old(w), *final(w), r->0.seq()),
//@ entry
    proof { broadcast use {b_pnone, b_ppush, b_pask, b_said_none, b_said_ask, b_said_kept}; assert(since(*w, *w)); assert(pins(*w, Seq::empty())); }
//@ exit
    proof {
        if old(w).quiet {
            assert(said_enough(said(*old(w), *w)));
            assert(pall(*w, __r->0.seq()) =~= said_all(said(*old(w), *w)));
        }
    }
