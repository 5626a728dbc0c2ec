//! Volume: each property at sizes far beyond what the other cases use.
use crate::any::*;
use crate::clock;
use crate::ctx::*;
use crate::gen::*;
use crate::{ck, ck_eq};
use prometrics::metric::*;
use prometrics::metrics::*;
use prometrics::timestamp::TimestampMut;
use prometrics::*;
use std::sync::{Arc, Mutex};
use std::time::Duration;

type R = std::result::Result<(), String>;
const NS: i128 = 1_000_000_000;

fn e<E: std::fmt::Display>(x: E) -> String {
    x.to_string()
}
/// sizes: around the integers written in the code under test, around powers of two, and any
fn sizes(c: &mut Ctx, max: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![];
    for i in c.dict.ints.clone() {
        if i > 30 && i < max as i128 {
            v.extend([i as usize - 1, i as usize, i as usize + 1, (2 * i as usize + 3).min(max)]);
        }
    }
    let mut k = 64;
    while k < max {
        v.push(k + 1 + c.rng.below(k));
        k *= 2;
    }
    v.sort();
    v.dedup();
    // one large one early, the rest in any order
    let mut w = vec![max];
    c.rng.shuffle(&mut v);
    w.extend(v);
    w
}
fn same<T: PartialEq + std::fmt::Debug>(got: &[T], want: &[T], what: &str) -> R {
    ck_eq!(got.len(), want.len(), "{what}: how many");
    for i in 0..got.len() {
        ck!(got[i] == want[i], "{what}: number {i} of {} is {:?}, expected {:?}", got.len(), got[i], want[i]);
    }
    Ok(())
}
fn agg(g: &mut Gatherer) -> std::result::Result<MetricFamilies, String> {
    let f = g.gather();
    ck_len(&f, 1)?;
    Ok(f)
}
fn ck_len(f: &MetricFamilies, n: usize) -> R {
    ck_eq!(f.as_ref().len(), n, "families");
    Ok(())
}

pub fn volume(prop: &str, c: &mut Ctx) {
    let (max, f): (usize, fn(&mut Ctx, usize, u64) -> R) = match prop {
        "C01" => (100_000, names),
        "C02" => (100_000, label_names),
        "C03" => (1200, labels),
        "C04" => (100_000, escapes),
        "C05" => (1500, text),
        "C06" => (100_000, counter),
        "C08" => (100_000, gauge),
        "C09" => (20_000, buckets),
        "C10" => (60_000, observed),
        "C11" => (3000, merged),
        "C12" => (70_000, quantiles),
        "C13" => (70_000, window),
        "C14" => (3000, gathered),
        "C15" => (5000, totals),
        "C16" => (3000, polled),
        "C18" => (1200, built),
        _ => return,
    };
    for n in sizes(c, max) {
        if !c.within(0.12) {
            break;
        }
        let seed = c.rng.u64();
        // the case draws from its own generator, so that it can be run again
        let mut sub = Ctx::new(seed, c.thorough, c.dict.clone(), c.budget);
        c.case(format!("volume: size {n}, drawn with {seed}"), true, || f(&mut sub, n, seed));
    }
}

fn names(c: &mut Ctx, n: usize, _: u64) -> R {
    let mut s: Vec<u8> = (0..n).map(|_| *c.rng.pick(b"abcxyzABCXYZ0189_:")).collect();
    s[0] = b'a';
    let good = String::from_utf8(s.clone()).unwrap();
    let m = Counter::new(&good).map_err(|x| format!("a good name is refused: {x}"))?;
    ck!(m.metric_name().to_string() == good, "name shown differs");
    let mut b = CounterBuilder::new("x");
    b.namespace(&good).subsystem(&good);
    let m = b.finish().map_err(|x| format!("good parts are refused: {x}"))?;
    ck!(m.metric_name().to_string() == format!("{good}_{good}_x"), "name shown differs");
    for _ in 0..20 {
        let k = match c.rng.below(3) {
            0 => n - 1,
            1 => c.rng.below(n),
            _ => n / 2,
        };
        let mut t: Vec<char> = good.chars().collect();
        t[k] = *c.rng.pick(&['-', ' ', 'é', '\n', '.', '\0', '/', '@', '[', '`', '{', ';']);
        let t: String = t.into_iter().collect();
        ck!(invalid(&Counter::new(&t)), "a name with a bad character at {k} of {n} is not refused");
        let mut b = GaugeBuilder::new("x");
        b.namespace(&t);
        ck!(invalid(&b.finish()), "a namespace with a bad character at {k} of {n} is not refused");
        let mut b = GaugeBuilder::new("x");
        b.subsystem(&t);
        ck!(invalid(&b.finish()), "a subsystem with a bad character at {k} of {n} is not refused");
    }
    Ok(())
}
fn label_names(c: &mut Ctx, n: usize, _: u64) -> R {
    let mut s: Vec<u8> = (0..n).map(|_| *c.rng.pick(b"abcxyzABCXYZ0189_")).collect();
    s[0] = b'a';
    let good = String::from_utf8(s).unwrap();
    let v: String = (0..n).map(|_| any_char(&mut c.rng)).collect();
    let mut m = AnyBuilder::new(KINDS[n % 4], "m").finish().map_err(e)?;
    m.labels_mut().insert(&good, &v).map_err(|x| format!("a good label is refused: {x}"))?;
    ck!(m.label_vec() == vec![(good.clone(), v.clone())], "the label differs from what was given");
    for _ in 0..20 {
        let k = match c.rng.below(3) {
            0 => n - 1,
            1 => c.rng.below(n),
            _ => n / 2,
        };
        let mut t: Vec<char> = good.chars().collect();
        t[k] = *c.rng.pick(&['-', ' ', 'é', '\n', '.', '\0', ':']);
        let t: String = t.into_iter().collect();
        ck!(invalid(&m.labels_mut().insert(&t, "")), "a label name with a bad character at {k} of {n} is not refused");
        ck!(invalid(&AnyBuilder::new(KINDS[(n + 1) % 4], "m").label(&t, "").finish().map(|_| ())), "built with a label name with a bad character at {k} of {n}");
    }
    ck!(m.label_vec() == vec![(good, v)], "a refusal changed the labels");
    Ok(())
}
fn labels(c: &mut Ctx, n: usize, _: u64) -> R {
    let mut names: Vec<String> = (0..n).map(|i| format!("l{:x}", (i as u64).wrapping_mul(0x9E37_79B9) & 0xffff_ffff)).collect();
    names.sort();
    names.dedup();
    let mut want: Vec<(String, String)> = names.iter().map(|x| (x.clone(), format!("v{x}"))).collect();
    let mut order: Vec<usize> = (0..names.len()).collect();
    c.rng.shuffle(&mut order);
    let k = KINDS[n % 4];
    let mut b = AnyBuilder::new(k, "m");
    let half = order.len() / 2;
    for i in &order[..half] {
        b.label(&names[*i], "old");
    }
    let mut m = b.finish().map_err(e)?;
    for i in &order {
        m.labels_mut().insert(&names[*i], &want[*i].1).map_err(e)?;
    }
    same(&m.label_vec(), &want, "labels")?;
    for (a, v) in &want {
        ck!(m.labels().get(a).map_or(false, |l| l.value() == v && l.name() == a), "label {a} is not found");
    }
    ck!(m.labels().get("zzz").is_none() && m.labels().get("").is_none(), "a label which is not there is found");
    for _ in 0..n / 3 {
        let i = c.rng.below(want.len());
        let a = want.remove(i).0;
        m.labels_mut().remove(&a);
    }
    same(&m.label_vec(), &want, "labels after removals")?;
    m.labels_mut().clear();
    same(&m.label_vec(), &[], "labels after clear")
}
fn escapes(c: &mut Ctx, n: usize, _: u64) -> R {
    let v: String = (0..n).map(|_| if c.rng.bool() { *c.rng.pick(&['\\', '"', '\n', '\'', '\r', '\t', '\u{85}', '\u{2028}', 'n']) } else { any_char(&mut c.rng) }).collect();
    let k = KINDS[n % 4];
    let mut b = AnyBuilder::new(k, "m");
    let mut g = Gatherer::new();
    b.label("x", &v).help(&v).registry(g.registry());
    let m = b.finish().map_err(e)?;
    m.feed(0.5);
    let line = format!("x=\"{}\"", escape_label(&v));
    for t in [m.text(), g.gather().to_text()] {
        ck!(t.contains(&line), "the label is not written as it must be (value of {n} characters)");
    }
    ck!(g.gather().to_text().starts_with(&format!("# HELP m {}\n", escape_help(&v))), "the help is not written as it must be (text of {n} characters)");
    Ok(())
}
fn text(c: &mut Ctx, n: usize, _: u64) -> R {
    let mut g = Gatherer::new();
    let k = if n % 2 == 0 { Kind::Counter } else { Kind::Gauge };
    let mut keep = vec![];
    let mut order: Vec<usize> = (0..n).collect();
    c.rng.shuffle(&mut order);
    for i in order {
        let mut b = AnyBuilder::new(k, "m");
        b.label("i", &format!("{i:06}")).registry(g.registry());
        let m = b.finish().map_err(e)?;
        m.feed(i as f64);
        keep.push(m);
    }
    let t = g.gather().to_text();
    let mut want = vec![format!("# TYPE m {}", k.text())];
    want.extend((0..n).map(|i| format!("m{{i=\"{i:06}\"}} {i}")));
    let got: Vec<String> = t.split_terminator('\n').map(|s| s.to_string()).collect();
    same(&got, &want, "lines")?;
    ck!(t.ends_with('\n'), "the last line is not ended");
    // many buckets in one histogram
    let h = HistogramBuilder::with_linear_buckets("h", 0.0, 1.0, n).finish().map_err(e)?;
    for i in 0..n {
        h.observe(i as f64);
    }
    let mut want: Vec<String> = (0..n).map(|i| format!("h_bucket{{le=\"{i}\"}} {}", i + 1)).collect();
    want.push(format!("h_bucket{{le=\"+Inf\"}} {n}"));
    want.push(format!("h_sum {}", (n * n.saturating_sub(1) / 2) as f64));
    want.push(format!("h_count {n}"));
    let got: Vec<String> = h.to_string().split_terminator('\n').map(|s| s.to_string()).collect();
    same(&got, &want, "lines of a histogram")
}
fn counter(c: &mut Ctx, n: usize, _: u64) -> R {
    let m = Counter::new("c").map_err(e)?;
    let mut want = 0u64;
    for i in 0..n {
        match c.rng.below(3) {
            0 => {
                m.increment();
                want += 1;
            }
            1 => {
                let a = c.rng.below(1000) as u64;
                m.add_u64(a);
                want += a;
            }
            _ => {
                let a = c.rng.below(1000) as u64;
                m.add(a as f64).map_err(e)?;
                want += a;
            }
        }
        ck!(m.value() == want as f64, "after {} operations the value is {}, expected {want}", i + 1, m.value());
    }
    Ok(())
}
fn gauge(c: &mut Ctx, n: usize, _: u64) -> R {
    let m = Gauge::new("g").map_err(e)?;
    let mut want = 0i64;
    for i in 0..n {
        let a = c.rng.below(1000) as i64;
        match c.rng.below(4) {
            0 => {
                m.increment();
                want += 1;
            }
            1 => {
                m.decrement();
                want -= 1;
            }
            2 => {
                m.add(a as f64);
                want += a;
            }
            _ => {
                m.subtract(a as f64);
                want -= a;
            }
        }
        ck!(m.value() == want as f64, "after {} operations the value is {}, expected {want}", i + 1, m.value());
    }
    Ok(())
}
fn buckets(c: &mut Ctx, n: usize, _: u64) -> R {
    let mut bounds: Vec<f64> = (0..n).map(|i| i as f64 / 4.0 - 100.0).collect();
    let mut want = bounds.clone();
    want.push(f64::INFINITY);
    c.rng.shuffle(&mut bounds);
    let mut b = HistogramBuilder::new("h");
    b.buckets(bounds);
    let h = b.finish().map_err(e)?;
    same(&h.buckets().iter().map(|b| b.upper_bound()).collect::<Vec<_>>(), &want, "bounds")?;
    ck!(h.buckets().iter().all(|b| b.count() == 0), "a new bucket is not empty");
    let h = HistogramBuilder::with_linear_buckets("h", -100.0, 0.25, n).finish().map_err(e)?;
    same(&h.buckets().iter().map(|b| b.upper_bound()).collect::<Vec<_>>(), &want, "linear bounds")
}
fn observed(c: &mut Ctx, n: usize, _: u64) -> R {
    let nb = 1 + c.rng.below(3000.min(n));
    let h = HistogramBuilder::with_linear_buckets("h", 0.0, 2.0, nb).finish().map_err(e)?;
    let mut want = vec![0u64; nb + 1];
    let mut sum = 0.0;
    let few = c.rng.bool();
    for _ in 0..n {
        let v = c.rng.below(if few { 4 } else { 2 * nb + 10 }) as f64 - 1.0;
        h.observe(v);
        sum += v;
        want[if v <= 0.0 { 0 } else { ((v / 2.0).ceil() as usize).min(nb) }] += 1;
    }
    same(&h.buckets().iter().map(|b| b.count()).collect::<Vec<_>>(), &want, "bucket counts")?;
    let cum: Vec<u64> = want.iter().scan(0, |a, x| {
        *a += x;
        Some(*a)
    }).collect();
    same(&h.cumulative_buckets().map(|b| b.cumulative_count()).collect::<Vec<_>>(), &cum, "cumulative counts")?;
    ck_eq!(h.count(), n as u64, "count");
    ck_eq!(h.sum(), sum, "sum");
    Ok(())
}
fn merged(c: &mut Ctx, n: usize, _: u64) -> R {
    // n buckets over some members
    let mut g = Gatherer::new();
    let most = if c.rng.one_in(4) { 400.min(n) } else { 8 };
    let members = 1 + c.rng.below(most);
    let per = n / members + 1;
    let mut all: Vec<(f64, u64)> = vec![];
    let mut keep = vec![];
    let mut total = 0;
    for _ in 0..members {
        let mut b = HistogramBuilder::new("h");
        let bounds: Vec<f64> = (0..per).map(|_| c.rng.below(2 * n) as f64).collect();
        b.buckets(bounds).registry(g.registry());
        let h = b.finish().map_err(e)?;
        for _ in 0..c.rng.below(30) {
            h.observe(c.rng.below(2 * n + 2) as f64);
        }
        total += h.count();
        all.extend(h.buckets().iter().map(|b| (b.upper_bound(), b.count())));
        keep.push(h);
    }
    all.sort_by(|a, b| a.0.partial_cmp(&b.0).unwrap());
    let mut want: Vec<(f64, u64)> = vec![];
    let mut sum = 0;
    for (b, k) in all {
        sum += k;
        match want.last_mut() {
            Some(l) if l.0 == b => l.1 = sum,
            _ => want.push((b, sum)),
        }
    }
    let f = agg(&mut g)?;
    match f.as_ref()[0].metrics() {
        Metrics::Histogram(v) if v.len() == 1 => {
            same(&v[0].cumulative_buckets().map(|b| (b.upper_bound(), b.cumulative_count())).collect::<Vec<_>>(), &want, "cumulative buckets")?;
            ck_eq!(v[0].count(), total, "count");
        }
        _ => return Err("not one entry".into()),
    }
    Ok(())
}
fn qs(c: &mut Ctx, n: usize) -> Vec<f64> {
    let mut q: Vec<f64> = vec![0.0, 0.5, 0.99, 1.0];
    for _ in 0..20 {
        q.push((c.rng.below(n + 1) as f64 / n as f64).min(1.0));
    }
    q.sort_by(|a, b| a.partial_cmp(b).unwrap());
    q.dedup();
    q
}
fn want_q(q: &[f64], mut s: Vec<f64>) -> Vec<(f64, f64)> {
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = s.len();
    if n == 0 { vec![] } else { q.iter().map(|q| (*q, s[((q * n as f64).floor() as usize).min(n - 1)])).collect() }
}
fn quantiles(c: &mut Ctx, n: usize, _: u64) -> R {
    let q = qs(c, n);
    let mut g = Gatherer::new();
    let members = 1 + c.rng.below(4);
    let mut all = vec![];
    let mut keep = vec![];
    for m in 0..members {
        let mut b = SummaryBuilder::new("s", Duration::from_secs(100_000));
        for q in &q {
            b.quantile(*q);
        }
        b.registry(g.registry());
        let s = b.finish().map_err(e)?;
        let k = if m == 0 { n } else { c.rng.below(n) };
        let v: Vec<f64> = (0..k).map(|_| c.rng.below(2 * n) as f64 - n as f64).collect();
        for x in &v {
            s.observe(*x);
        }
        same(&s.quantiles().iter().map(|x| (x.0.as_f64(), x.1)).collect::<Vec<_>>(), &want_q(&q, v.clone()), "quantiles of one summary")?;
        all.extend(v);
        keep.push(s);
    }
    let f = agg(&mut g)?;
    match f.as_ref()[0].metrics() {
        Metrics::Summary(v) if v.len() == 1 => same(&v[0].quantiles().iter().map(|x| (x.0.as_f64(), x.1)).collect::<Vec<_>>(), &want_q(&q, all), "quantiles of the aggregation"),
        _ => Err("not one entry".into()),
    }
}
fn window(c: &mut Ctx, n: usize, _: u64) -> R {
    if !clock::self_test() {
        return Ok(());
    }
    let r = (|| {
        let q = qs(c, n);
        let w = 1_000_000i128;
        let mut b = SummaryBuilder::new("s", Duration::from_nanos(w as u64));
        for q in &q {
            b.quantile(*q);
        }
        let s = b.finish().map_err(e)?;
        // about n samples are within the window at a time
        let mut t = 1_700_000_000 * NS;
        let mut all: Vec<(i128, f64)> = vec![];
        let step = (2 * w / n as i128).max(1) as usize;
        let total = if c.rng.bool() { n } else { 2 * n };
        let mut sum = 0.0;
        for i in 0..total {
            t += if total == n { 0 } else { c.rng.below(step + 1) as i128 };
            clock::set_wall(t);
            let v = ((i * 7919) % (2 * total)) as f64;
            s.observe(v);
            sum += v;
            all.push((t, v));
            if i + 1 == total || (i % (total / 6 + 1) == 0 && i > 0) {
                if c.rng.bool() {
                    t += c.rng.below(w as usize / 2) as i128;
                    clock::set_wall(t);
                }
                let cur: Vec<f64> = all.iter().filter(|x| t - x.0 <= w).map(|x| x.1).collect();
                let k = cur.len();
                same(&s.quantiles().iter().map(|x| (x.0.as_f64(), x.1)).collect::<Vec<_>>(), &want_q(&q, cur), &format!("after {} observations, {k} of them in the window: quantiles", i + 1))?;
                ck_eq!(s.count(), (i + 1) as u64, "count");
                ck_eq!(s.sum(), sum, "sum");
            }
        }
        Ok(())
    })();
    clock::real_wall();
    r
}
fn gathered(c: &mut Ctx, n: usize, _: u64) -> R {
    let mut g = Gatherer::new();
    let (a, b) = (if c.rng.bool() { n } else { 5 }, if c.rng.bool() { n } else { 5 });
    let nf = 1 + c.rng.below(a);
    let nl = 1 + c.rng.below(b);
    let mut want: std::collections::BTreeMap<(String, Kind), std::collections::BTreeMap<String, f64>> = Default::default();
    let mut keep = vec![];
    for _ in 0..n {
        let (f, l) = (format!("m{}", c.rng.below(nf)), format!("{}", c.rng.below(nl)));
        let k = if c.rng.bool() { Kind::Counter } else { Kind::Gauge };
        let mut b = AnyBuilder::new(k, &f);
        b.label("l", &l).registry(g.registry());
        let m = b.finish().map_err(e)?;
        m.feed(1.0);
        keep.push(m);
        *want.entry((f, k)).or_default().entry(l).or_default() += 1.0;
    }
    let fams = families(&g.gather());
    same(&fams.iter().map(|f| (f.name.clone(), f.kind)).collect::<Vec<_>>(), &want.keys().cloned().collect::<Vec<_>>(), "families")?;
    for f in &fams {
        let w = &want[&(f.name.clone(), f.kind)];
        let got: Vec<(String, f64)> = f.entries.iter().map(|e| (e.labels[0].1.clone(), e.total)).collect();
        same(&got, &w.iter().map(|(a, b)| (a.clone(), *b)).collect::<Vec<_>>(), &format!("entries of {}", f.name))?;
    }
    Ok(())
}
fn totals(c: &mut Ctx, n: usize, _: u64) -> R {
    let k = KINDS[c.rng.below(4)];
    let mut g = Gatherer::new();
    let mut keep = vec![];
    let (mut sum, mut last) = (0.0, None);
    let late = c.rng.below(n);
    for i in 0..n {
        let mut b = AnyBuilder::new(k, "m");
        b.registry(g.registry());
        let m = b.finish().map_err(e)?;
        let x = c.rng.below(1000) as f64;
        m.feed(x);
        sum += x;
        if i == late || c.rng.one_in(50) {
            let t = if i == late { 1_000_000 } else { c.rng.below(1000) as i64 - 500 };
            stamp(&m, t);
            last = last.max(Some(t));
        }
        keep.push(m);
    }
    let fams = families(&g.gather());
    ck_eq!(fams.len(), 1, "families");
    ck_eq!(fams[0].entries.len(), 1, "entries");
    let x = &fams[0].entries[0];
    ck_eq!(x.total, sum, "total of {n} {k:?}");
    ck_eq!(x.timestamp, last, "timestamp of {n} {k:?}");
    if let Some(k) = x.count {
        ck_eq!(k, n as u64, "count");
    }
    Ok(())
}
fn stamp(m: &Any, t: i64) {
    let mut x: TimestampMut = m.timestamp_mut();
    x.set(t);
}
struct Few {
    own: Counter,
    left: usize,
    id: usize,
    polls: Arc<Mutex<Vec<usize>>>,
}
impl Collect for Few {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.polls.lock().unwrap().push(self.id);
        if self.left == 0 {
            return None;
        }
        self.left -= 1;
        Some(vec![self.own.clone().into()].into_iter())
    }
}
fn polled(c: &mut Ctx, n: usize, _: u64) -> R {
    let mut g = Gatherer::new();
    let r = g.registry();
    let polls: Arc<Mutex<Vec<usize>>> = Default::default();
    let mut left = vec![];
    for id in 0..n {
        let k = c.rng.below(4);
        let mut b = CounterBuilder::new("m");
        b.label("id", &id.to_string());
        r.register(Few { own: b.finish().map_err(e)?, left: k, id, polls: polls.clone() });
        left.push(Some(k));
    }
    for round in 0..6 {
        polls.lock().unwrap().clear();
        let fams = families(&g.gather());
        let mut asked = polls.lock().unwrap().clone();
        asked.sort();
        let live: Vec<usize> = (0..n).filter(|i| left[*i].is_some()).collect();
        same(&asked, &live, &format!("round {round}: collectors asked"))?;
        let mut want = vec![];
        for i in live {
            left[i] = match left[i] {
                Some(0) => None,
                Some(k) => {
                    want.push(i);
                    Some(k - 1)
                }
                None => None,
            };
        }
        let mut got: Vec<usize> = fams.iter().flat_map(|f| &f.entries).map(|x| x.labels[0].1.parse().unwrap()).collect();
        got.sort();
        same(&got, &want, &format!("round {round}: metrics gathered"))?;
    }
    Ok(())
}
fn built(c: &mut Ctx, n: usize, _: u64) -> R {
    // n labels and n registries, of the common builder and of the metric's own
    let mut gs: Vec<Gatherer> = (0..n).map(|_| Gatherer::new()).collect();
    let mut b = MetricBuilder::without_registry();
    let mut want: std::collections::BTreeMap<String, String> = Default::default();
    let half = c.rng.below(n);
    for g in &gs[..half] {
        b.registry(g.registry());
    }
    for i in 0..n {
        let (a, v) = (format!("l{}", c.rng.below(n)), i.to_string());
        b.label(&a, &v);
        want.insert(a, v);
    }
    let k = KINDS[n % 4];
    let mut m = AnyBuilder::from(k, &b, "m");
    for g in &gs[half..] {
        m.registry(g.registry());
    }
    let m = m.finish().map_err(e)?;
    let want: Vec<_> = want.into_iter().collect();
    same(&m.label_vec(), &want, "labels")?;
    for (i, g) in gs.iter_mut().enumerate() {
        ck!(g.gather().as_ref().len() == 1, "registry {i} of {n} does not have the metric");
    }
    Ok(())
}
