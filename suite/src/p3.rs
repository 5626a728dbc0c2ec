//! C14..C18: gathering, aggregation, collectors, time, builders.
use crate::any::*;
use crate::clock;
use crate::ctx::*;
use crate::gen::*;
use crate::{ck, ck_eq};
use prometrics::metric::*;
use prometrics::metrics::*;
use prometrics::timestamp::*;
use prometrics::*;
use std::collections::BTreeMap;
use std::sync::{Arc, Mutex};
use std::time::{Duration, SystemTime, UNIX_EPOCH};

type R = std::result::Result<(), String>;
type Parts = (Option<String>, Option<String>, String);

#[derive(Clone, Debug)]
struct M {
    kind: Kind,
    parts: Parts,
    help: Option<String>,
    labels: BTreeMap<String, String>,
    late: bool, // labels given after building
    via: u8,    // 0: builder registry, 1: collector registered by hand, 2: custom collector returning several
}

fn build(m: &M, r: Option<&Registry>) -> std::result::Result<Any, String> {
    let mut b = AnyBuilder::new(m.kind, &m.parts.2);
    if let Some(s) = &m.parts.0 {
        b.namespace(s);
    }
    if let Some(s) = &m.parts.1 {
        b.subsystem(s);
    }
    if let Some(h) = &m.help {
        b.help(h);
    }
    if !m.late {
        for (k, v) in &m.labels {
            b.label(k, v);
        }
    }
    if let Some(r) = r {
        b.registry(r.clone());
    }
    let mut x = b.finish().map_err(|e| format!("build: {e}"))?;
    if m.late {
        for (k, v) in &m.labels {
            x.labels_mut().insert(k, v).map_err(|e| e.to_string())?;
        }
    }
    Ok(x)
}

/// A collector which returns the given metrics each time, as often as told, then nothing.
struct Fixed {
    metrics: Vec<Metric>,
    left: usize,
    polls: Arc<Mutex<Vec<usize>>>,
    id: usize,
}
impl Collect for Fixed {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.polls.lock().unwrap().push(self.id);
        if self.left == 0 {
            None
        } else {
            self.left -= 1;
            Some(self.metrics.clone().into_iter())
        }
    }
}

fn run_gather(ms: &[M], order: &[usize]) -> R {
    let mut g = Gatherer::new();
    let r = g.registry();
    let mut keep = vec![];
    let mut custom: Vec<Metric> = vec![];
    for (pos, i) in order.iter().enumerate() {
        let m = &ms[*i];
        let x = build(m, if m.via == 0 { Some(&r) } else { None })?;
        match m.via {
            0 => {}
            1 => x.register(&r),
            _ => custom.push(x.metric()),
        }
        x.feed((1u64 << i) as f64);
        keep.push(x);
        if custom.len() >= 3 || (pos + 1 == order.len() && !custom.is_empty()) {
            let metrics = std::mem::take(&mut custom);
            r.register(Fixed { metrics, left: usize::MAX, polls: Default::default(), id: 0 });
        }
    }
    // expected: (name parts, kind) -> labels -> sum of the members' bits, number of members
    let mut want: BTreeMap<(Parts, Kind), BTreeMap<Vec<(String, String)>, (u64, u64)>> = BTreeMap::new();
    for (i, m) in ms.iter().enumerate() {
        let e = want.entry((m.parts.clone(), m.kind)).or_default().entry(m.labels.clone().into_iter().collect()).or_default();
        e.0 |= 1 << i;
        e.1 += 1;
    }
    for round in 0..2 {
        let fs = g.gather();
        let fams = families(&fs);
        let got_keys: Vec<_> = fams.iter().map(|f| (f.parts.clone(), f.kind)).collect();
        let want_keys: Vec<_> = want.keys().cloned().collect();
        ck_eq!(got_keys, want_keys, "round {round}: families in order");
        for f in &fams {
            let w = &want[&(f.parts.clone(), f.kind)];
            let got: Vec<_> = f.entries.iter().map(|e| e.labels.clone()).collect();
            let exp: Vec<_> = w.keys().cloned().collect();
            ck_eq!(got, exp, "round {round}: label sets of family {:?} {:?}", f.name, f.kind);
            for e in &f.entries {
                let (bits, n) = w[&e.labels];
                ck_eq!(e.total, bits as f64, "round {round}: total of {:?} {:?} {:?}", f.name, f.kind, e.labels);
                if let Some(c) = e.count {
                    ck_eq!(c, n, "round {round}: count of {:?} {:?} {:?}", f.name, f.kind, e.labels);
                }
                ck_eq!(e.name, f.name, "name of an entry");
            }
            let helps: Vec<_> = ms.iter().filter(|m| m.parts == f.parts && m.kind == f.kind).map(|m| m.help.clone()).collect();
            ck!(helps.contains(&f.help), "help {:?} of family {:?} is no member's", f.help, f.name);
        }
    }
    Ok(())
}

/// Gathers while other threads change labels: n metrics over the given families, each worth 1.
fn run_racing(fams: &[(Parts, Kind)], n: usize, values: usize, gathers: usize, seed: u64) -> R {
    use std::sync::atomic::{AtomicBool, Ordering};
    let mut g = Gatherer::new();
    let r = g.registry();
    let mut ms: Vec<Any> = vec![];
    for i in 0..n {
        let (parts, kind) = fams[i % fams.len()].clone();
        let labels = [("x".to_string(), (i % values).to_string())].into_iter().collect();
        let x = build(&M { kind, parts, help: None, labels, late: false, via: 0 }, Some(&r))?;
        x.feed(1.0);
        ms.push(x);
    }
    let mut want: BTreeMap<(Parts, Kind), f64> = BTreeMap::new();
    for i in 0..n {
        *want.entry(fams[i % fams.len()].clone()).or_default() += 1.0;
    }
    let keys: Vec<_> = want.keys().cloned().collect();
    let check = |g: &mut Gatherer, last: bool| -> R {
        let fs = g.gather();
        let got = families(&fs);
        ck_eq!(got.iter().map(|f| (f.parts.clone(), f.kind)).collect::<Vec<_>>(), keys, "families in order");
        for f in &got {
            let total: f64 = f.entries.iter().map(|e| e.count.map_or(e.total, |c| c as f64)).sum();
            ck_eq!(total, want[&(f.parts.clone(), f.kind)], "number of metrics reported in {:?} {:?}", f.name, f.kind);
            if last {
                for e in f.entries.windows(2) {
                    ck!(e[0].labels < e[1].labels, "label sets {:?} and {:?} in this order", e[0].labels, e[1].labels);
                }
            }
        }
        Ok(())
    };
    let stop = Arc::new(AtomicBool::new(false));
    let mut threads = vec![];
    for t in 0..2 {
        let (stop, mut mine): (_, Vec<Any>) = (stop.clone(), ms.iter().skip(t).step_by(2).cloned().collect());
        let mut rng = Rng::new(seed.wrapping_add(t as u64));
        threads.push(std::thread::spawn(move || {
            while !stop.load(Ordering::Relaxed) {
                let i = rng.below(mine.len());
                let mut l = mine[i].labels_mut();
                match rng.below(8) {
                    0 => l.remove("x"),
                    1 => l.clear(),
                    _ => l.insert(if rng.one_in(4) { "y" } else { "x" }, &rng.below(values).to_string()).unwrap(),
                }
            }
        }));
    }
    let res = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (0..gathers).try_for_each(|i| check(&mut g, false).map_err(|e| format!("gather {i}: {e}")))));
    stop.store(true, Ordering::Relaxed);
    for t in threads {
        t.join().map_err(|e| format!("panic while changing labels: {}", panic_text(&*e)))?;
    }
    match res {
        Ok(r) => r?,
        Err(e) => return Err(format!("panic: {}", panic_text(&*e))),
    }
    check(&mut g, true).map_err(|e| format!("gathered when the labels had settled: {e}"))
}
fn racing(c: &mut Ctx) {
    let nm = |s: &str| (None, None, s.to_string());
    let n = *c.rng.pick(&[2, 7, 24, 60, 150, 300]);
    let values = *c.rng.pick(&[2, 3, 20, 1000]);
    let fams: Vec<(Parts, Kind)> = match c.rng.below(3) {
        0 => vec![(nm("a"), *c.rng.pick(&KINDS))],
        1 => KINDS.iter().map(|k| (nm("a"), *k)).collect(),
        _ => ["b", "a", "ab"].iter().flat_map(|s| KINDS.iter().map(move |k| (nm(s), *k))).collect(),
    };
    let gathers = 4000 / (n + 10);
    let seed = c.rng.u64();
    c.case(format!("{n} metrics of {fams:?} gathered {gathers} times while two threads change their labels (values below {values}, seed {seed})"), true, || run_racing(&fams, n, values, gathers, seed));
}

pub fn c14(c: &mut Ctx) {
    while c.within(0.15) {
        racing(c);
    }
    let small = |kind, name: &str, labels: &[(&str, &str)], via| M {
        kind,
        parts: (None, None, name.to_string()),
        help: None,
        labels: labels.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect(),
        late: false,
        via,
    };
    // every sequence of up to four metrics out of these (name, kind, labels, way of registering)
    let al = [
        small(Kind::Counter, "a", &[], 0),
        small(Kind::Counter, "a", &[("x", "1")], 0),
        small(Kind::Counter, "a", &[("x", "2")], 1),
        small(Kind::Gauge, "a", &[], 0),
        small(Kind::Histogram, "a", &[("x", "1")], 2),
        small(Kind::Summary, "b", &[], 0),
        small(Kind::Counter, "b", &[("x", "1")], 0),
    ];
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..if c.thorough { 5 } else { 4 } {
        for s in &seqs {
            let ms: Vec<M> = s.iter().map(|i| al[*i].clone()).collect();
            let order: Vec<usize> = (0..ms.len()).collect();
            c.case(format!("registered in this order: {ms:?}"), ms.len() > 1, || run_gather(&ms, &order));
        }
        seqs = seqs.iter().flat_map(|s| (0..al.len()).map(move |i| [s.clone(), vec![i]].concat())).collect();
        if !c.within(0.5) {
            break;
        }
    }
    while c.within(1.0) {
        let n = size(c, 50);
        let names: Vec<String> = (0..1 + c.rng.below(4)).map(|_| valid_name(&mut c.rng)).collect();
        let lnames: Vec<String> = (0..1 + c.rng.below(3)).map(|_| valid_name(&mut c.rng)).filter(|n| n != "le" && n != "quantile").chain(["x".to_string()]).collect();
        let d = c.dict.strs.clone();
        let lvals: Vec<String> = (0..1 + c.rng.below(3)).map(|_| any_string(&mut c.rng, &d)).collect();
        let few = c.rng.bool();
        let ms: Vec<M> = (0..n)
            .map(|_| {
                let r = &mut c.rng;
                let opt = |r: &mut Rng, names: &[String]| if r.one_in(4) { Some(r.pick(names).clone()) } else { None };
                let parts = (opt(r, &names), opt(r, &names), r.pick(&names).clone());
                let mut labels = BTreeMap::new();
                for _ in 0..r.below(if few { 2 } else { 4 }) {
                    labels.insert(r.pick(&lnames).clone(), r.pick(&lvals).clone());
                }
                M { kind: *r.pick(&KINDS), parts, help: if r.bool() { Some(any_string(r, &d)) } else { None }, labels, late: r.one_in(3), via: r.below(3) as u8 }
            })
            .collect();
        let mut order: Vec<usize> = (0..n).collect();
        c.rng.shuffle(&mut order);
        c.case(format!("registered in order {order:?}: {ms:?}"), n > 1, || run_gather(&ms, &order));
    }
}

pub fn c15(c: &mut Ctx) {
    let run = |k: Kind, members: &[(Vec<f64>, Option<i64>)], exact: bool| -> R {
        let mut g = Gatherer::new();
        let mut ms = vec![];
        for (vals, ts) in members {
            let mut b = AnyBuilder::new(k, "m");
            b.label("l", "v");
            b.registry(g.registry());
            let m = b.finish().map_err(|e| e.to_string())?;
            for v in vals {
                m.feed(*v);
            }
            if let Some(t) = ts {
                m.timestamp_mut().set(*t);
            }
            ms.push(m);
        }
        for round in 0..2 {
            let fs = g.gather();
            let fams = families(&fs);
            if members.is_empty() {
                return Ok(());
            }
            ck_eq!(fams.len(), 1, "families");
            ck_eq!(fams[0].entries.len(), 1, "entries");
            let e = &fams[0].entries[0];
            let sum: f64 = ms.iter().fold(0.0, |a, m| a + m.total());
            if exact || members.len() <= 2 {
                ck!(feq(e.total, sum), "round {round}: total {:?}, expected {:?}", e.total, sum);
            } else {
                // any order of addition
                let abs: f64 = ms.iter().map(|m| m.total().abs()).sum();
                ck!(feq(e.total, sum) || !abs.is_finite() || (e.total - sum).abs() <= abs * 1e-12, "round {round}: total {:?}, expected about {:?}", e.total, sum);
            }
            if e.count.is_some() {
                ck_eq!(e.count, Some(ms.iter().map(|m| m.count().unwrap()).sum::<u64>()), "round {round}: count");
            }
            let ts = members.iter().filter_map(|m| m.1).max();
            ck_eq!(e.timestamp, ts, "round {round}: timestamp");
            let line_ts = e.text.lines().last().map(|l| l.rsplit(' ').next().unwrap_or("").to_string()).unwrap_or_default();
            if let Some(t) = ts {
                ck_eq!(line_ts, t.to_string(), "round {round}: timestamp shown");
            }
        }
        Ok(())
    };
    let tss = [None, Some(0), Some(-1), Some(5), Some(i64::MAX), Some(i64::MIN + 1), Some(1)];
    for k in KINDS {
        for a in tss {
            for b in tss {
                for d in tss {
                    let ms = [(vec![1.0, 2.0], a), (vec![4.0], b), (vec![8.0, 16.0, 32.0], d)];
                    c.case(format!("{k:?} {ms:?}"), true, || run(k, &ms, true));
                }
                c.case(format!("{k:?} timestamps {a:?} {b:?}"), true, || run(k, &[(vec![3.0], a), (vec![5.0], b)], true));
            }
            c.case(format!("{k:?} timestamp {a:?} alone"), true, || run(k, &[(vec![3.0], a)], true));
        }
        for x in special_floats() {
            for y in [0.0, 1.0, -1.5, 1e300, f64::INFINITY] {
                if k == Kind::Histogram && (x.is_nan() || y.is_nan()) {
                    continue;
                }
                c.case(format!("{k:?} of {x:?} and {y:?}"), true, || run(k, &[(vec![x], None), (vec![y], Some(3))], false));
            }
        }
    }
    while c.within(1.0) {
        let k = *c.rng.pick(&KINDS);
        let fd = c.dict.floats.clone();
        let n = 1 + size(c, 40);
        let exact = c.rng.bool();
        let ms: Vec<(Vec<f64>, Option<i64>)> = (0..n)
            .map(|_| {
                let nv = c.rng.below(5);
                let v = (0..nv).map(|_| if exact { c.rng.below(1 << 20) as f64 / 4.0 } else { number(&mut c.rng, &fd) }).collect();
                let t = match c.rng.below(4) {
                    0 => None,
                    1 => *c.rng.pick(&tss),
                    2 => Some((c.rng.u64() as i64).max(i64::MIN + 1)),
                    _ => Some(c.rng.below(100) as i64 - 50),
                };
                (v, t)
            })
            .collect();
        c.case(format!("{k:?} {ms:?}"), n > 1, || run(k, &ms, exact));
    }
}

#[derive(Clone, Debug)]
enum ROp {
    Metric(Kind),         // build and register a metric
    DropHandle(usize),    // drop one handle of a metric
    CloneHandle(usize),   // one more handle
    Custom(usize, usize), // a collector returning this many metrics, this many times
    Nested,               // a collector which registers another one while it is asked
    Gather,
}
struct Nest {
    reg: Registry,
    polls: Arc<Mutex<Vec<usize>>>,
    id: usize,
    child: Option<(Metric, usize)>,
    own: Metric,
}
impl Collect for Nest {
    type Metrics = std::vec::IntoIter<Metric>;
    fn collect(&mut self) -> Option<Self::Metrics> {
        self.polls.lock().unwrap().push(self.id);
        if let Some((m, id)) = self.child.take() {
            self.reg.register(Fixed { metrics: vec![m], left: usize::MAX, polls: self.polls.clone(), id });
        }
        Some(vec![self.own.clone()].into_iter())
    }
}
fn run_registry(ops: &[ROp], handles: bool) -> R {
    let mut g = Gatherer::new();
    let reg = g.registry();
    let polls: Arc<Mutex<Vec<usize>>> = Default::default();
    struct Live {
        handles: Vec<Any>,
        id: usize,
    }
    let mut metrics: Vec<Live> = vec![];
    struct Cust {
        id: usize,
        left: usize,
        names: Vec<usize>,
        dead: bool,
    }
    let mut custom: Vec<Cust> = vec![];
    let mut nested_pending: Vec<(usize, usize, usize)> = vec![];
    let mut next = 0usize;
    let name = |id: usize| format!("m{id}");
    let mut all_ops = ops.to_vec();
    all_ops.push(ROp::Gather);
    all_ops.push(ROp::Gather);
    let mut keep: Vec<Any> = vec![];
    for (i, o) in all_ops.iter().enumerate() {
        match o {
            ROp::Metric(k) => {
                let mut b = AnyBuilder::new(*k, &name(next));
                b.registry(if handles { g.registry() } else { reg.clone() });
                let m = b.finish().map_err(|e| e.to_string())?;
                metrics.push(Live { handles: vec![m], id: next });
                next += 1;
            }
            ROp::DropHandle(j) => {
                let n = metrics.len();
                if n > 0 {
                    metrics[j % n].handles.pop();
                }
            }
            ROp::CloneHandle(j) => {
                let n = metrics.len();
                if n > 0 {
                    if let Some(h) = metrics[j % n].handles.last().cloned() {
                        metrics[j % n].handles.push(h);
                    }
                }
            }
            ROp::Custom(nm, times) => {
                let mut ms = vec![];
                let mut names = vec![];
                for _ in 0..*nm {
                    let m = AnyBuilder::new(KINDS[next % 4], &name(next)).finish().map_err(|e| e.to_string())?;
                    ms.push(m.metric());
                    keep.push(m);
                    names.push(next);
                    next += 1;
                }
                let id = 1000 + next;
                next += 1;
                reg.register(Fixed { metrics: ms, left: *times, polls: polls.clone(), id });
                custom.push(Cust { id, left: *times, names, dead: false });
            }
            ROp::Nested => {
                let a = AnyBuilder::new(Kind::Gauge, &name(next)).finish().map_err(|e| e.to_string())?;
                let b = AnyBuilder::new(Kind::Gauge, &name(next + 1)).finish().map_err(|e| e.to_string())?;
                let (ida, idb) = (2000 + next, 2001 + next);
                reg.register(Nest { reg: g.registry(), polls: polls.clone(), id: ida, child: Some((b.metric(), idb)), own: a.metric() });
                custom.push(Cust { id: ida, left: usize::MAX, names: vec![next], dead: false });
                nested_pending.push((custom.len() - 1, idb, next + 1));
                next += 2;
                keep.push(a);
                keep.push(b);
            }
            ROp::Gather => {
                polls.lock().unwrap().clear();
                let fs = g.gather();
                let mut got: Vec<String> = families(&fs).iter().flat_map(|f| f.entries.iter().map(|e| e.name.clone()).collect::<Vec<_>>()).collect();
                got.sort();
                let mut want: Vec<String> = metrics.iter().filter(|m| !m.handles.is_empty()).map(|m| name(m.id)).collect();
                let mut asked: Vec<usize> = vec![];
                for c in custom.iter_mut().filter(|c| !c.dead) {
                    asked.push(c.id);
                    if c.left == 0 {
                        c.dead = true;
                    } else {
                        if c.left != usize::MAX {
                            c.left -= 1;
                        }
                        want.extend(c.names.iter().map(|n| name(*n)));
                    }
                }
                // what was registered during this gather counts from the next one on, or from this one
                let mut optional: Vec<String> = vec![];
                let mut optional_ids: Vec<usize> = vec![];
                for (_, id, n) in nested_pending.drain(..) {
                    custom.push(Cust { id, left: usize::MAX, names: vec![n], dead: false });
                    optional.push(name(n));
                    optional_ids.push(id);
                }
                want.sort();
                let mut got2 = got.clone();
                got2.retain(|n| !optional.contains(n));
                ck_eq!(got2, want, "op {i}: metrics gathered");
                let mut p = polls.lock().unwrap().clone();
                p.retain(|x| !optional_ids.contains(x));
                p.sort();
                asked.sort();
                ck_eq!(p, asked, "op {i}: collectors asked");
                for m in metrics.iter().filter(|m| !m.handles.is_empty()) {
                    m.handles[0].feed(1.0);
                }
                // the gathered metric is that very metric: what is fed shows up next time
                let fs = g.gather();
                for c in custom.iter_mut().filter(|c| !c.dead) {
                    if c.left == 0 {
                        c.dead = true;
                    } else if c.left != usize::MAX {
                        c.left -= 1;
                    }
                }
                let fams = families(&fs);
                for m in metrics.iter().filter(|m| !m.handles.is_empty()) {
                    let t: f64 = fams.iter().filter(|f| f.name == name(m.id)).flat_map(|f| f.entries.iter().map(|e| e.total)).sum();
                    ck_eq!(t, m.handles[0].total(), "op {i}: value gathered of {}", name(m.id));
                }
            }
        }
    }
    Ok(())
}
pub fn c16(c: &mut Ctx) {
    let al = [
        ROp::Metric(Kind::Counter),
        ROp::Metric(Kind::Histogram),
        ROp::DropHandle(0),
        ROp::DropHandle(1),
        ROp::CloneHandle(0),
        ROp::Custom(1, 1),
        ROp::Custom(2, usize::MAX),
        ROp::Custom(0, 2),
        ROp::Custom(1, 0),
        ROp::Nested,
        ROp::Gather,
    ];
    let mut seqs: Vec<Vec<ROp>> = vec![vec![]];
    for _ in 0..if c.thorough { 5 } else { 4 } {
        for s in &seqs {
            c.case(format!("{s:?}"), s.len() > 1, || run_registry(s, s.len() % 2 == 0));
        }
        seqs = seqs.iter().flat_map(|s| al.iter().map(move |o| [s.clone(), vec![o.clone()]].concat())).collect();
        if !c.within(0.5) {
            break;
        }
    }
    // the four kinds of collectors on their own
    for k in KINDS {
        c.case(format!("collector of a {k:?} by hand"), true, || {
            let m = AnyBuilder::new(k, "m").finish().map_err(|e| e.to_string())?;
            m.feed(3.0);
            fn once<C: Collect>(mut c: C, m: Any) -> R {
                for _ in 0..3 {
                    let v: Vec<Metric> = c.collect().ok_or("exhausted while the metric is alive")?.collect();
                    ck_eq!(v.len(), 1, "metrics");
                    ck_eq!(kind_of(v[0].kind()), m.kind(), "kind");
                    ck_eq!(v[0].name().to_string(), m.name().to_string(), "name");
                    let t = match &v[0] {
                        Metric::Counter(x) => x.value(),
                        Metric::Gauge(x) => x.value(),
                        Metric::Summary(x) => x.sum(),
                        Metric::Histogram(x) => x.sum(),
                    };
                    ck_eq!(t, m.total(), "value");
                }
                let h = m.clone();
                drop(m);
                ck!(c.collect().is_some(), "exhausted while a handle is alive");
                drop(h);
                ck!(c.collect().is_none(), "not exhausted after the last handle is gone");
                ck!(c.collect().is_none(), "not exhausted for good");
                Ok(())
            }
            match m.clone() {
                Any::Counter(x) => once(x.collector(), { drop(x); m }),
                Any::Gauge(x) => once(x.collector(), { drop(x); m }),
                Any::Summary(x) => once(x.collector(), { drop(x); m }),
                Any::Histogram(x) => once(x.collector(), { drop(x); m }),
            }
        });
    }
    c.case("a registry outlives its gatherer; two gatherers; the default registry".into(), true, || {
        let mut g1 = Gatherer::default();
        let mut g2 = Gatherer::new();
        let r1 = g1.registry();
        let m = CounterBuilder::new("only").registry(r1.clone()).registry(g2.registry()).finish().map_err(|e| e.to_string())?;
        m.add_u64(4);
        for g in [&mut g1, &mut g2] {
            ck_eq!(g.gather().to_text(), "# TYPE only counter\nonly 4\n", "text");
        }
        drop(g1);
        r1.register(m.collector());
        let x = GaugeBuilder::new("late").registry(r1).finish().map_err(|e| e.to_string())?;
        x.set(1.0);
        ck_eq!(g2.gather().to_text(), "# TYPE only counter\nonly 4\n", "text");
        let d = CounterBuilder::new("suite_default").default_registry().finish().map_err(|e| e.to_string())?;
        let e = CounterBuilder::new("suite_default").registry(default_registry()).finish().map_err(|e| e.to_string())?;
        let f = MetricBuilder::new().counter("suite_default").finish().map_err(|e| e.to_string())?;
        let h = MetricBuilder::default().counter("suite_default").finish().map_err(|e| e.to_string())?;
        d.increment();
        e.add_u64(10);
        f.add_u64(100);
        h.add_u64(1000);
        let t = default_gatherer().lock().unwrap().gather().to_text();
        ck_eq!(t, "# TYPE suite_default counter\nsuite_default 1111\n", "default gatherer");
        Ok(())
    });
    c.case("threads registering while gathering".into(), true, || {
        let mut g = Gatherer::new();
        let reg = g.registry();
        let n = 300;
        let all: Mutex<Vec<Any>> = Mutex::new(vec![]);
        std::thread::scope(|s| {
            for t in 0..4 {
                let (reg, all) = (reg.clone(), &all);
                s.spawn(move || {
                    for i in 0..n {
                        let mut b = AnyBuilder::new(KINDS[i % 4], &format!("t{t}_{i}"));
                        b.registry(reg.clone());
                        let m = b.finish().unwrap();
                        all.lock().unwrap().push(m);
                    }
                });
            }
            for _ in 0..50 {
                let _ = g.gather();
            }
        });
        let f = families(&g.gather());
        ck_eq!(f.len(), 4 * n, "families after all registrations");
        Ok(())
    });
    while c.within(1.0) {
        let n = 1 + size(c, 60);
        let ops: Vec<ROp> = (0..n)
            .map(|_| match c.rng.below(12) {
                0..=3 => ROp::Metric(*c.rng.pick(&KINDS)),
                4 | 5 => ROp::DropHandle(c.rng.below(50)),
                6 => ROp::CloneHandle(c.rng.below(50)),
                7 | 8 => ROp::Custom(c.rng.below(4), *c.rng.pick(&[0, 1, 2, 3, usize::MAX])),
                9 => ROp::Nested,
                _ => ROp::Gather,
            })
            .collect();
        let h = c.rng.bool();
        c.case(format!("{ops:?}"), true, || run_registry(&ops, h));
    }
}

pub fn c17(c: &mut Ctx) {
    #[derive(Clone, Debug)]
    enum T {
        Set(i64),
        Time(i128), // nanoseconds from the epoch
        Now(i128),
        Clear,
    }
    fn st(ns: i128) -> SystemTime {
        let d = |ns: i128| Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32);
        if ns >= 0 {
            UNIX_EPOCH + d(ns)
        } else {
            UNIX_EPOCH - d(-ns)
        }
    }
    let run = |k: Kind, ops: &[T]| -> R {
        let m = AnyBuilder::new(k, "m").finish().map_err(|e| e.to_string())?;
        let other = m.clone();
        ck_eq!(m.timestamp().get(), None, "timestamp of a new metric");
        for (i, o) in ops.iter().enumerate() {
            let want = match o {
                T::Set(t) => {
                    m.timestamp_mut().set(*t);
                    Some(*t)
                }
                T::Time(ns) => {
                    m.timestamp_mut().set_time(st(*ns));
                    Some((*ns / 1_000_000) as i64)
                }
                T::Now(ns) => {
                    clock::set_wall(*ns);
                    m.timestamp_mut().set_now();
                    clock::real_wall();
                    Some((*ns / 1_000_000) as i64)
                }
                T::Clear => {
                    m.timestamp_mut().clear();
                    None
                }
            };
            ck_eq!(m.timestamp().get(), want, "op {i} {o:?}");
            ck_eq!(m.timestamp_mut().get(), want, "op {i} {o:?}, through timestamp_mut");
            ck_eq!(other.timestamp().get(), want, "op {i} {o:?}, another handle");
        }
        Ok(())
    };
    let ok_clock = clock::self_test();
    let mut interesting: Vec<i128> = vec![0, 1, 999_999, 1_000_000, 1_000_001, 999_999_999, 1_000_000_000, 1_500_000_000, 1_000_000_000 * 86400 * 365, 1_999_999_999, 1_234_567_890_123_456_789];
    interesting.extend(interesting.clone().iter().map(|x| -x));
    for e in 0..62 {
        interesting.push((1i128 << e) * 1_000_003);
        interesting.push(-(1i128 << e) * 1_000_003);
    }
    // the ends of what fits in 64 bits of milliseconds
    let lim = 9_223_372_036_854_775i128; // seconds
    interesting.extend([lim * 1_000_000_000, -lim * 1_000_000_000, lim * 1_000_000_000 - 1, -lim * 1_000_000_000 + 1]);
    for k in KINDS {
        for t in &interesting {
            c.case(format!("{k:?} set_time {t} ns"), true, || run(k, &[T::Time(*t)]));
            c.case(format!("{k:?} set {t} ms"), true, || run(k, &[T::Set(*t as i64), T::Clear, T::Set((*t / 7) as i64)]));
        }
        for t in [0, 1, -1, i64::MAX, i64::MIN + 1, i64::MIN + 2] {
            c.case(format!("{k:?} set {t} ms"), true, || run(k, &[T::Set(t), T::Set(t), T::Clear, T::Clear]));
        }
    }
    for t in &interesting {
        let ns = t.unsigned_abs() % 18_446_744_073_709_551_615_000_000_000;
        let d = Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32);
        c.case(format!("duration_to_seconds {d:?}"), true, || {
            ck_eq!(duration_to_seconds(d), d.as_secs() as f64 + d.subsec_nanos() as f64 / 1e9, "seconds");
            Ok(())
        });
    }
    while c.within(1.0) {
        let k = *c.rng.pick(&KINDS);
        let n = 1 + size(c, 30);
        let ints = c.dict.ints.clone();
        let r = &mut c.rng;
        let ops: Vec<T> = (0..n)
            .map(|_| {
                let ns = match r.below(3) {
                    0 => *r.pick(&interesting),
                    1 => r.u64() as i64 as i128 >> r.below(64),
                    _ => (r.below(4000) as i128 - 2000) * 500_000 + r.below(3) as i128 - 1,
                };
                match r.below(8) {
                    0 => T::Clear,
                    1 | 2 => T::Set((r.u64() as i64 >> r.below(64)).max(i64::MIN + 1)),
                    3 if !ints.is_empty() => T::Set((*r.pick(&ints) as i64).saturating_add(r.below(3) as i64 - 1).max(i64::MIN + 1)),
                    4 if ok_clock && ns.abs() < 1 << 62 => T::Now(ns),
                    _ => T::Time(ns),
                }
            })
            .collect();
        c.case(format!("{k:?} {ops:?}"), true, || run(k, &ops));
        let d = Duration::new(c.rng.u64() >> c.rng.below(64), c.rng.below(1_000_000_000) as u32);
        c.case(format!("duration_to_seconds {d:?}"), true, || {
            ck_eq!(duration_to_seconds(d), d.as_secs() as f64 + d.subsec_nanos() as f64 / 1e9, "seconds");
            Ok(())
        });
        // timers and the current time use the same conversion
        if ok_clock {
            let ns = (c.rng.u64() >> c.rng.below(64)) as u128 % 1_000_000_000_000_000_000;
            let start = 1_000_000_000_000u128;
            let d = Duration::new((ns / 1_000_000_000) as u64, (ns % 1_000_000_000) as u32);
            let secs = d.as_secs() as f64 + d.subsec_nanos() as f64 / 1e9;
            c.case(format!("time() around work of {d:?}"), ns > 0, || {
                let (a, b) = (Counter::new("c").unwrap(), Gauge::new("g").unwrap());
                let (x, y) = (Histogram::new("h").unwrap(), Summary::new("s", Duration::from_secs(9)).unwrap());
                let mut out = vec![];
                for i in 0..4 {
                    clock::set_mono(start);
                    let work = || {
                        clock::set_mono(start + ns);
                        41 + i
                    };
                    out.push(match i {
                        0 => a.time(work),
                        1 => b.time(work),
                        2 => x.time(work),
                        _ => y.time(work),
                    });
                }
                clock::real_mono();
                ck_eq!(out, vec![41, 42, 43, 44], "results of the work");
                ck_eq!([a.value(), b.value(), x.sum(), y.sum()], [secs; 4], "seconds recorded");
                ck_eq!([x.count(), y.count()], [1, 1], "observations");
                let ns = ns as i128 - 500_000_000_000_000_000;
                clock::set_wall(ns);
                b.set_to_current_time();
                clock::real_wall();
                let p = ns.abs();
                let s = (p / 1_000_000_000) as f64 + (p % 1_000_000_000) as f64 / 1e9;
                ck_eq!(b.value(), if ns < 0 { -s } else { s }, "current time");
                Ok(())
            });
        }
    }
}

#[derive(Clone, Debug)]
enum B {
    Ns(String),
    Ss(String),
    Help(String),
    Label(String, String),
    Reg(usize),
    Bucket(f64),
    Quant(f64),
    SetReg(usize),
}
pub fn c18(c: &mut Ctx) {
    let run = |k: Kind, name: &str, common: Option<(bool, Vec<B>)>, own: &[B]| -> R {
        let mut gs: Vec<Gatherer> = (0..3).map(|_| Gatherer::new()).collect();
        let (mut ns, mut ss, mut help, mut labels): (Option<String>, Option<String>, Option<String>, BTreeMap<String, String>) = Default::default();
        let mut regs: Vec<usize> = vec![];
        let mut nums: Vec<f64> = vec![];
        let mut b = if let Some((with, ops)) = &common {
            let mut mb = if *with {
                regs.push(0);
                MetricBuilder::with_registry(gs[0].registry())
            } else {
                MetricBuilder::without_registry()
            };
            for o in ops {
                match o {
                    B::Ns(s) => {
                        mb.namespace(s);
                        ns = Some(s.clone())
                    }
                    B::Ss(s) => {
                        mb.subsystem(s);
                        ss = Some(s.clone())
                    }
                    B::Label(a, v) => {
                        mb.label(a, v);
                        labels.insert(a.clone(), v.clone());
                    }
                    B::Reg(i) => {
                        mb.registry(gs[*i].registry());
                        regs.push(*i)
                    }
                    B::SetReg(i) => {
                        mb.set_registry(gs[*i].registry());
                        regs = vec![*i]
                    }
                    _ => {}
                }
            }
            // builders made from it before do not matter
            let _ = AnyBuilder::from(KINDS[name.len() % 4], &mb, "other");
            AnyBuilder::from(k, &mb.clone(), name)
        } else {
            AnyBuilder::new(k, name)
        };
        for o in own {
            match o {
                B::Ns(s) => {
                    b.namespace(s);
                    ns = Some(s.clone())
                }
                B::Ss(s) => {
                    b.subsystem(s);
                    ss = Some(s.clone())
                }
                B::Help(s) => {
                    b.help(s);
                    help = Some(s.clone())
                }
                B::Label(a, v) => {
                    b.label(a, v);
                    labels.insert(a.clone(), v.clone());
                }
                B::Reg(i) | B::SetReg(i) => {
                    b.registry(gs[*i].registry());
                    regs.push(*i)
                }
                B::Bucket(x) => {
                    if let AnyBuilder::Histogram(b) = &mut b {
                        b.bucket(*x);
                        nums.push(*x)
                    }
                }
                B::Quant(x) => {
                    if let AnyBuilder::Summary(b) = &mut b {
                        b.quantile(*x);
                        nums.push(*x)
                    }
                }
            }
        }
        let ok = good_name(name, true)
            && ns.as_ref().map_or(true, |s| good_name(s, true))
            && ss.as_ref().map_or(true, |s| good_name(s, true))
            && labels.keys().all(|l| good_label_name(l) && k.reserved() != Some(l))
            && match k {
                Kind::Histogram => nums.iter().all(|x| !x.is_nan()),
                Kind::Summary => nums.iter().all(|q| 0.0 <= *q && *q <= 1.0),
                _ => true,
            };
        let check = |m: &Any| -> R {
            ck_eq!(m.name().namespace(), ns.as_deref(), "namespace");
            ck_eq!(m.name().subsystem(), ss.as_deref(), "subsystem");
            ck_eq!(m.name().name(), name, "name");
            ck_eq!(m.help(), help.as_deref(), "help");
            ck_eq!(m.label_vec(), labels.clone().into_iter().collect::<Vec<_>>(), "labels");
            ck_eq!(m.timestamp().get(), None, "timestamp");
            ck_eq!(m.total(), 0.0, "value or sum");
            ck_eq!(m.count().unwrap_or(0), 0, "count");
            let mm = m.metric();
            ck_eq!(kind_of(mm.kind()), k, "kind");
            ck_eq!(mm.name().to_string(), m.name().to_string(), "name as a metric");
            ck_eq!(label_vec(mm.labels()), m.label_vec(), "labels as a metric");
            Ok(())
        };
        match b.finish() {
            Ok(m) => {
                ck!(ok, "built although something is invalid");
                check(&m)?;
                let shown = [ns.as_deref(), ss.as_deref(), Some(name)].into_iter().flatten().collect::<Vec<_>>().join("_");
                m.feed(2.0);
                for (i, g) in gs.iter_mut().enumerate() {
                    let n = regs.iter().filter(|r| **r == i).count();
                    let fs = g.gather();
                    let fams = families(&fs);
                    ck_eq!(fams.len(), (n > 0) as usize, "families of registry {i}");
                    if n > 0 {
                        ck_eq!(fams[0].name, shown, "name in registry {i}");
                        ck_eq!(fams[0].kind, k, "kind in registry {i}");
                        ck_eq!(fams[0].help, help, "help in registry {i}");
                        ck_eq!(fams[0].entries[0].total, 2.0 * n as f64, "registrations with registry {i} (each adds 2)");
                        ck_eq!(fams[0].entries[0].labels, m.label_vec(), "labels in registry {i}");
                    }
                }
                // the builder can build another, independent metric
                let m2 = b.finish().map_err(|e| format!("second build: {e}"))?;
                check(&m2).map_err(|e| format!("second build: {e}"))?;
            }
            Err(e) => {
                ck!(!ok, "refused although everything is valid: {e}");
                ck_eq!(*e.kind(), ErrorKind::InvalidInput, "kind of the error");
                for (i, g) in gs.iter_mut().enumerate() {
                    ck_eq!(g.gather().to_text(), "", "registry {i} after a failed build");
                }
            }
        }
        Ok(())
    };
    for k in KINDS {
        for ops in [
            vec![],
            vec![B::Ns("n".into())],
            vec![B::Ss("s".into())],
            vec![B::Help("h".into())],
            vec![B::Help(String::new())],
            vec![B::Label("a".into(), "1".into()), B::Label("a".into(), "2".into())],
            vec![B::Reg(0), B::Reg(0), B::Reg(1)],
            vec![B::Reg(0), B::Label("__x".into(), "".into())],
            vec![B::Reg(1), B::Bucket(f64::NAN), B::Quant(2.0)],
            vec![B::Reg(1), B::Bucket(1.0), B::Quant(1.0)],
            vec![B::Ns("1".into()), B::Reg(0)],
            vec![B::Label("le".into(), "".into()), B::Reg(0)],
            vec![B::Label("quantile".into(), "".into()), B::Reg(0)],
        ] {
            for common in [None, Some((true, vec![])), Some((false, vec![])), Some((true, ops.clone())), Some((false, ops.clone()))] {
                for name in ["m", "", "1"] {
                    c.case(format!("{k:?} {name:?} common {common:?} own {ops:?}"), true, || run(k, name, common.clone(), &ops));
                }
            }
        }
    }
    while c.within(1.0) {
        let k = *c.rng.pick(&KINDS);
        let d = c.dict.strs.clone();
        let fd = c.dict.floats.clone();
        let bad = c.rng.one_in(3);
        fn ops(c: &mut Ctx, bad: bool, d: &[String], fd: &[f64]) -> Vec<B> {
            let n = size(c, 25);
            (0..n)
                .map(|_| {
                    let r = &mut c.rng;
                    let nm = |r: &mut Rng| if bad && r.one_in(6) { any_string(r, d) } else if r.bool() { valid_name(r) } else { r.pick(&["a", "b", "c", "le", "quantile"]).to_string() };
                    match r.below(9) {
                        0 => B::Ns(nm(r)),
                        1 => B::Ss(nm(r)),
                        2 => B::Help(any_string(r, d)),
                        3 | 4 => {
                            let mut n = nm(r);
                            if !bad && (n == "le" || n == "quantile") {
                                n = "ok".into();
                            }
                            B::Label(n, any_string(r, d))
                        }
                        5 => B::Reg(r.below(3)),
                        6 => B::SetReg(r.below(3)),
                        7 => B::Bucket(if bad { float(r, fd) } else { number(r, fd) }),
                        _ => B::Quant(if bad && r.one_in(4) { float(r, fd) } else { r.below(101) as f64 / 100.0 }),
                    }
                })
                .collect()
        }
        let name = if bad && c.rng.one_in(4) { any_string(&mut c.rng, &d) } else { valid_name(&mut c.rng) };
        let common = if c.rng.bool() { Some((c.rng.bool(), ops(c, bad, &d, &fd))) } else { None };
        let own = ops(c, bad, &d, &fd);
        c.case(format!("{k:?} {name:?} common {common:?} own {own:?}"), true, || run(k, &name, common.clone(), &own));
    }
}
