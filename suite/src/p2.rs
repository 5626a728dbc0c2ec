//! C06..C13: values, concurrency, histograms, summaries.
use crate::any::*;
use crate::clock;
use crate::ctx::*;
use crate::gen::*;
use crate::{ck, ck_eq};
use prometrics::metric::*;
use prometrics::metrics::*;
use prometrics::quantile::Quantile;
use prometrics::*;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Barrier};
use std::time::Duration;

type R = std::result::Result<(), String>;

#[derive(Clone, Debug)]
enum COp {
    Inc,
    Add(f64),
    AddU(u64),
    Read,
}
fn run_counter(ops: &[COp]) -> R {
    let c = Counter::new("c").map_err(|e| e.to_string())?;
    ck_eq!(c.value(), 0.0, "initial value");
    let other = c.clone();
    let (mut int, mut frac) = (0u128, 0.0f64);
    for (i, o) in ops.iter().enumerate() {
        let before = c.value();
        match o {
            COp::Inc => {
                if int + 1 >= 1 << 64 {
                    continue;
                }
                c.increment();
                int += 1
            }
            COp::AddU(n) => {
                if int + *n as u128 >= 1 << 64 {
                    continue;
                }
                c.add_u64(*n);
                int += *n as u128
            }
            COp::Add(x) => {
                let whole = *x >= 0.0 && x.floor() == *x && *x < 9007199254740992.0;
                if whole && int + *x as u128 >= 1 << 64 {
                    continue;
                }
                let r = c.add(*x);
                if *x >= 0.0 {
                    ck!(r.is_ok(), "op {i} {o:?}: refused");
                    if whole {
                        int += *x as u128
                    } else {
                        frac += x
                    }
                } else {
                    ck!(invalid(&r), "op {i} {o:?}: not refused with InvalidInput: {r:?}");
                    ck_eq!(c.value().to_bits(), before.to_bits(), "op {i} {o:?}: value after a refused amount");
                }
            }
            COp::Read => {}
        }
        let want = frac + int as u64 as f64;
        ck!(feq(c.value(), want), "op {i} {o:?}: value {:?}, expected {:?}", c.value(), want);
        ck!(c.value() >= before, "op {i} {o:?}: value went down from {before:?} to {:?}", c.value());
        ck!(feq(other.value(), want), "op {i} {o:?}: another handle shows {:?}", other.value());
    }
    Ok(())
}

pub fn c06(c: &mut Ctx) {
    let sp = special_floats();
    for x in &sp {
        for y in &sp {
            c.case(format!("counter add {x:?}, add {y:?}"), true, || run_counter(&[COp::Add(*x), COp::Add(*y)]));
        }
        for n in [0, 1, 2, 3, (1 << 53) - 1, 1 << 53, (1 << 53) + 1, 1 << 63, u64::MAX] {
            c.case(format!("counter add_u64 {n}, add {x:?}, increment"), true, || run_counter(&[COp::AddU(n), COp::Add(*x), COp::Inc]));
            c.case(format!("counter increment, add {x:?}, add_u64 {n}"), true, || run_counter(&[COp::Inc, COp::Add(*x), COp::AddU(n)]));
        }
    }
    for e in 0..1100 {
        for m in [1.0f64, 1.5, 1.25, 1.9999999999999998, 1.0000000000000002] {
            let x = m * 2f64.powi(e - 60);
            c.case(format!("counter add {x:?}"), true, || run_counter(&[COp::Inc, COp::Add(x), COp::Add(x), COp::Add(-x), COp::Inc]));
        }
    }
    let ints = c.dict.ints.clone();
    while c.within(1.0) {
        let mut ops = vec![];
        let fd = c.dict.floats.clone();
        for _ in 0..1 + size(c, 200) {
            let r = &mut c.rng;
            ops.push(match r.below(6) {
                0 => COp::Inc,
                1 => COp::AddU(match r.below(4) {
                    0 => r.u64() >> r.below(64),
                    1 if !ints.is_empty() => (*r.pick(&ints) as u64).wrapping_add(r.below(3) as u64).wrapping_sub(1),
                    _ => r.below(10) as u64,
                }),
                2 => COp::Read,
                3 if !ints.is_empty() => COp::Add((*r.pick(&ints) as f64) + [0.0, 0.5, 1.0, -1.0][r.below(4)]),
                _ => {
                    let x = float(r, &fd);
                    COp::Add(if r.one_in(4) { x } else { x.abs() })
                }
            });
        }
        c.case(format!("counter {ops:?}"), true, || run_counter(&ops));
    }
}

/// Runs f on n threads at once; f gets the thread's number.
fn threads<F: Fn(usize) + Sync>(n: usize, f: F) {
    let b = Barrier::new(n);
    std::thread::scope(|s| {
        for i in 0..n {
            let (b, f) = (&b, &f);
            s.spawn(move || {
                b.wait();
                f(i)
            });
        }
    });
}

pub fn c07(c: &mut Ctx) {
    let reps: u64 = if c.thorough { 300_000 } else { 60_000 };
    let mut round = 0u64;
    while round == 0 || c.within(0.8) {
        round += 1;
        for nt in [2usize, 4, 8, 3] {
            // counters: every way of adding, all at once
            c.case(format!("round {round}: {nt} threads x {reps} increments / integral adds / fractional adds of one counter, with readers"), true, || {
                let k = Counter::new("c").unwrap();
                let stop = AtomicBool::new(false);
                let down = AtomicU64::new(0);
                std::thread::scope(|s| {
                    s.spawn(|| {
                        let mut last = 0.0;
                        while !stop.load(SeqCst) {
                            let v = k.value();
                            if v < last {
                                down.fetch_add(1, SeqCst);
                            }
                            last = v;
                        }
                    });
                    threads(nt, |i| {
                        let h = k.clone();
                        for j in 0..reps {
                            match (j + i as u64) % 4 {
                                0 => h.increment(),
                                1 => h.add(2.0).unwrap(),
                                2 => h.add_u64(3),
                                _ => h.add(0.5).unwrap(),
                            }
                        }
                    });
                    stop.store(true, SeqCst);
                });
                ck_eq!(down.load(SeqCst), 0, "times a reader saw the value go down");
                let per: f64 = 1.0 + 2.0 + 3.0 + 0.5;
                ck_eq!(k.value(), per * (reps / 4 * nt as u64) as f64, "total");
                Ok(())
            });
            for which in 0..4 {
                let what = ["increment", "add(2.0)", "add_u64(3)", "add(0.25)"][which];
                c.case(format!("round {round}: {nt} threads x {reps} counter {what}"), true, || {
                    let k = Counter::new("c").unwrap();
                    threads(nt, |_| {
                        for _ in 0..reps {
                            match which {
                                0 => k.increment(),
                                1 => k.add(2.0).unwrap(),
                                2 => k.add_u64(3),
                                _ => k.add(0.25).unwrap(),
                            }
                        }
                    });
                    ck_eq!(k.value(), [1.0, 2.0, 3.0, 0.25][which] * (reps * nt as u64) as f64, "total");
                    Ok(())
                });
            }
            c.case(format!("round {round}: {nt} threads x {reps} gauge add / subtract / increment / decrement"), true, || {
                let g = GaugeBuilder::new("g").initial_value(7.0).finish().unwrap();
                threads(nt, |i| {
                    let h = g.clone();
                    for j in 0..reps {
                        match (j + i as u64) % 4 {
                            0 => h.increment(),
                            1 => h.add(2.5),
                            2 => h.subtract(0.25),
                            _ => h.decrement(),
                        }
                    }
                });
                let per: f64 = 1.0 + 2.5 - 0.25 - 1.0;
                ck_eq!(g.value(), 7.0 + per * (reps / 4 * nt as u64) as f64, "total");
                Ok(())
            });
            c.case(format!("round {round}: {nt} threads, gauge add(1) against set"), true, || {
                for _ in 0..200 {
                    let g = Gauge::new("g").unwrap();
                    let n = 40u64;
                    threads(nt, |i| {
                        if i == 0 {
                            g.set(1000.0)
                        } else {
                            for _ in 0..n {
                                g.add(1.0)
                            }
                        }
                    });
                    let v = g.value();
                    ck!(v >= 1000.0 && v <= 1000.0 + (n * (nt as u64 - 1)) as f64, "value {v} after one set(1000) and adds of 1: the set took no effect or an add was lost or applied twice");
                }
                Ok(())
            });
            c.case(format!("round {round}: {nt} threads x {} track_inprogress", reps / 4), true, || {
                let g = Gauge::new("g").unwrap();
                threads(nt, |_| {
                    for j in 0..reps / 4 {
                        let r = g.track_inprogress(|| if g.value() >= 1.0 && g.value() <= nt as f64 { j } else { u64::MAX });
                        assert_eq!(r, j, "value out of range while work runs");
                    }
                });
                ck_eq!(g.value(), 0.0, "value after all work");
                Ok(())
            });
            c.case(format!("round {round}: {nt} threads x {} histogram observations", reps), true, || {
                let h = HistogramBuilder::with_linear_buckets("h", 0.0, 1.0, 4).finish().unwrap();
                let stop = AtomicBool::new(false);
                let bad = AtomicU64::new(0);
                std::thread::scope(|s| {
                    s.spawn(|| {
                        let mut last = 0;
                        while !stop.load(SeqCst) {
                            let n = h.count();
                            let _ = h.sum();
                            if n < last {
                                bad.fetch_add(1, SeqCst);
                            }
                            last = n;
                        }
                    });
                    threads(nt, |i| {
                        let h = h.clone();
                        for j in 0..reps {
                            h.observe(((j + i as u64) % 6) as f64 - 0.5)
                        }
                    });
                    stop.store(true, SeqCst);
                });
                ck_eq!(bad.load(SeqCst), 0, "times a reader saw the count go down");
                let n = reps * nt as u64;
                ck_eq!(h.count(), n, "count");
                let mut want = vec![0u64; 5];
                let mut sum = 0.0;
                for i in 0..nt as u64 {
                    for j in 0..reps {
                        let x = (j + i) % 6;
                        want[(x as usize).min(4)] += 1;
                        sum += x as f64 - 0.5;
                    }
                }
                ck_eq!(h.buckets().iter().map(|b| b.count()).collect::<Vec<_>>(), want, "bucket counts");
                ck_eq!(h.sum(), sum, "sum");
                Ok(())
            });
            c.case(format!("round {round}: {nt} threads x {} summary observations", reps / 8), true, || {
                let s = Summary::new("s", Duration::from_secs(0)).unwrap();
                threads(nt, |_| {
                    for _ in 0..reps / 8 {
                        s.observe(0.5)
                    }
                });
                let n = reps / 8 * nt as u64;
                ck_eq!(s.count(), n, "count");
                ck_eq!(s.sum(), n as f64 * 0.5, "sum");
                Ok(())
            });
            if c.failures.len() >= 3 {
                return;
            }
        }
    }
    // Reads change nothing.
    while c.within(1.0) {
        let k = *c.rng.pick(&KINDS);
        let mut s = crate::p1::rand_spec(c, k);
        s.values.retain(|v| v.is_finite());
        c.case(format!("reading twice: {s:?}"), true, || {
            let g = Gatherer::new();
            let m = s.build(&g)?;
            let a = (m.text(), m.total().to_bits(), m.count(), m.timestamp().get(), m.label_vec());
            let _ = (m.metric(), m.help().map(|s| s.to_string()), m.name().to_string());
            if let Any::Histogram(h) = &m {
                let _ = h.cumulative_buckets().count();
            }
            let b = (m.text(), m.total().to_bits(), m.count(), m.timestamp().get(), m.label_vec());
            ck_eq!(b, a, "second reading");
            Ok(())
        });
    }
}

#[derive(Clone, Debug)]
enum GOp {
    Set(f64),
    Add(f64),
    Sub(f64),
    Inc,
    Dec,
    Track(Vec<GOp>),
}
fn run_gauge(g: &Gauge, v: &mut f64, ops: &[GOp]) -> R {
    for (i, o) in ops.iter().enumerate() {
        match o {
            GOp::Set(x) => {
                g.set(*x);
                *v = *x
            }
            GOp::Add(x) => {
                g.add(*x);
                *v += *x
            }
            GOp::Sub(x) => {
                g.subtract(*x);
                *v -= *x
            }
            GOp::Inc => {
                g.increment();
                *v += 1.0
            }
            GOp::Dec => {
                g.decrement();
                *v -= 1.0
            }
            GOp::Track(inner) => {
                *v += 1.0;
                let r = g.track_inprogress(|| {
                    if !feq(g.value(), *v) {
                        return (17, Err(format!("op {i}: {:?} while work runs, expected {:?}", g.value(), *v)));
                    }
                    (17, run_gauge(g, v, inner))
                });
                ck_eq!(r.0, 17, "op {i}: result of the work");
                r.1?;
                *v -= 1.0;
            }
        }
        ck!(feq(g.value(), *v), "op {i} {o:?}: value {:?}, expected {:?}", g.value(), *v);
        if let GOp::Set(x) = o {
            ck!(x.is_nan() || g.value().to_bits() == x.to_bits(), "op {i} {o:?}: value {:?}", g.value());
        }
    }
    Ok(())
}
fn rand_gops(c: &mut Ctx, depth: usize) -> Vec<GOp> {
    let fd = c.dict.floats.clone();
    let n = 1 + size(c, if depth == 0 { 80 } else { 6 });
    (0..n)
        .map(|_| match c.rng.below(8) {
            0 => GOp::Set(float(&mut c.rng, &fd)),
            1 | 2 => GOp::Add(float(&mut c.rng, &fd)),
            3 | 4 => GOp::Sub(float(&mut c.rng, &fd)),
            5 => GOp::Inc,
            6 => GOp::Dec,
            _ if depth < 3 => GOp::Track(rand_gops(c, depth + 1)),
            _ => GOp::Inc,
        })
        .collect()
}
pub fn c08(c: &mut Ctx) {
    let run = |init: Option<f64>, ops: &[GOp]| -> R {
        let mut b = GaugeBuilder::new("g");
        if let Some(x) = init {
            b.initial_value(x);
        }
        let g = b.finish().map_err(|e| e.to_string())?;
        let mut v = init.unwrap_or(0.0);
        ck!(feq(g.value(), v), "initial value {:?}, expected {:?}", g.value(), v);
        let other = g.clone();
        run_gauge(&g, &mut v, ops)?;
        ck!(feq(other.value(), v), "another handle shows {:?}", other.value());
        Ok(())
    };
    c.case("new gauge".into(), true, || {
        ck_eq!(Gauge::new("g").unwrap().value(), 0.0, "value");
        Ok(())
    });
    let sp = special_floats();
    for x in &sp {
        for y in &sp {
            c.case(format!("gauge from {x:?}: add, subtract, set of {y:?}"), true, || {
                run(Some(*x), &[GOp::Add(*y)])?;
                run(Some(*x), &[GOp::Sub(*y)])?;
                run(Some(*x), &[GOp::Set(*y), GOp::Inc, GOp::Dec])?;
                run(None, &[GOp::Set(*x), GOp::Track(vec![GOp::Set(*y)]), GOp::Dec])
            });
        }
    }
    while c.within(1.0) {
        let fd = c.dict.floats.clone();
        let init = if c.rng.bool() { Some(float(&mut c.rng, &fd)) } else { None };
        let ops = rand_gops(c, 0);
        c.case(format!("gauge from {init:?}: {ops:?}"), true, || run(init, &ops));
    }
}

fn sorted_bounds(b: &[f64]) -> Vec<f64> {
    let mut v = b.to_vec();
    v.push(f64::INFINITY);
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    v.dedup();
    v
}
fn check_fresh(h: &Histogram, want: &[f64]) -> R {
    let got: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
    ck_eq!(got, want, "upper bounds");
    ck!(h.buckets().iter().all(|b| b.count() == 0), "a new bucket is not empty");
    ck_eq!(h.count(), 0, "count");
    ck_eq!(h.sum(), 0.0, "sum");
    ck_eq!(h.cumulative_buckets().map(|b| b.upper_bound()).collect::<Vec<_>>(), want, "cumulative bounds");
    Ok(())
}
fn check_bounds(bounds: &[f64], how: usize) -> R {
    let mut b = HistogramBuilder::new("h");
    match how % 3 {
        0 => {
            for x in bounds {
                b.bucket(*x);
            }
        }
        1 => {
            b.buckets(bounds.to_vec());
        }
        _ => {
            let k = bounds.len() / 2;
            b.buckets(bounds[..k].iter().cloned());
            for x in &bounds[k..] {
                b.bucket(*x);
            }
        }
    }
    let r = b.finish();
    if bounds.iter().any(|x| x.is_nan()) {
        ck!(invalid(&r), "not-a-number bound not refused with InvalidInput: {r:?}");
        return Ok(());
    }
    let h = r.map_err(|e| format!("refused: {e}"))?;
    check_fresh(&h, &sorted_bounds(bounds))
}
pub fn c09(c: &mut Ctx) {
    let al = [0.0, -0.0, 1.0, 2.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -1.0, f64::from_bits(1.0f64.to_bits() + 1), 5e-324];
    let mut seqs: Vec<Vec<f64>> = vec![vec![]];
    for d in 0..=if c.thorough { 4 } else { 3 } {
        for (i, s) in seqs.iter().enumerate() {
            c.case(format!("bounds {s:?} (way {})", i + d), true, || check_bounds(s, i + d));
        }
        seqs = seqs.iter().flat_map(|s| al.iter().map(move |x| [s.clone(), vec![*x]].concat())).collect();
    }
    c.case("plain histogram".into(), true, || check_fresh(&Histogram::new("h").unwrap(), &[f64::INFINITY]));
    while c.within(1.0) {
        let fd = c.dict.floats.clone();
        let n = size(c, 150);
        let mut bounds: Vec<f64> = vec![];
        for _ in 0..n {
            let x = if !bounds.is_empty() && c.rng.one_in(4) {
                let y = *c.rng.pick(&bounds);
                match c.rng.below(3) {
                    0 => y,
                    1 => f64::from_bits(y.to_bits().wrapping_add(1)),
                    _ => -y,
                }
            } else if c.rng.one_in(40) {
                float(&mut c.rng, &fd)
            } else {
                number(&mut c.rng, &fd)
            };
            bounds.push(x);
        }
        let how = c.rng.below(3);
        c.case(format!("bounds {bounds:?} (way {how})"), n > 0, || check_bounds(&bounds, how));
        let (a, w) = (float(&mut c.rng, &fd), float(&mut c.rng, &fd));
        let (a, w) = if c.rng.bool() { ((a * 4.0).round() / 4.0, (w * 4.0).round() / 4.0) } else { (a, w) };
        let n = size(c, 200);
        let extra: Vec<f64> = (0..c.rng.below(3)).map(|_| number(&mut c.rng, &fd)).collect();
        for lin in [true, false] {
            c.case(format!("{} buckets start={a:?} step={w:?} count={n} extra={extra:?}", if lin { "linear" } else { "exponential" }), n > 1, || {
                let (mut b, mut want): (_, Vec<f64>) = if lin {
                    (HistogramBuilder::with_linear_buckets("h", a, w, n), (0..n).map(|i| a + i as f64 * w).collect())
                } else {
                    (HistogramBuilder::with_exponential_buckets("h", a, w, n), (0..n).map(|i| a * w.powi(i as i32)).collect())
                };
                for x in &extra {
                    b.bucket(*x);
                    want.push(*x);
                }
                let r = b.finish();
                if want.iter().any(|x| x.is_nan()) {
                    ck!(invalid(&r), "not-a-number bound not refused with InvalidInput");
                    return Ok(());
                }
                let h = r.map_err(|e| format!("refused: {e}"))?;
                let want = sorted_bounds(&want);
                let got: Vec<f64> = h.buckets().iter().map(|b| b.upper_bound()).collect();
                let close = got.len() == want.len() && got.iter().zip(&want).all(|(g, w)| g == w || ((g - w).abs() <= w.abs() * 1e-12));
                if lin || !close {
                    ck_eq!(got, want, "upper bounds");
                }
                Ok(())
            });
        }
    }
}

fn hist(bounds: &[f64]) -> std::result::Result<Histogram, String> {
    let mut b = HistogramBuilder::new("h");
    b.buckets(bounds.to_vec());
    b.finish().map_err(|e| format!("build: {e}"))
}
fn check_observed(h: &Histogram, bounds: &[f64], seen: &[f64]) -> R {
    let mut want = vec![0u64; bounds.len()];
    let mut sum = 0.0;
    for v in seen {
        let i = bounds.iter().position(|b| b >= v).ok_or("no bucket")?;
        want[i] += 1;
        sum += v;
    }
    ck_eq!(h.buckets().iter().map(|b| b.count()).collect::<Vec<_>>(), want, "bucket counts");
    ck_eq!(h.count(), seen.len() as u64, "count");
    ck!(feq(h.sum(), sum), "sum {:?}, expected {:?}", h.sum(), sum);
    let cum: Vec<(f64, u64)> = bounds.iter().map(|b| (*b, seen.iter().filter(|v| *v <= b).count() as u64)).collect();
    let got: Vec<(f64, u64)> = h.cumulative_buckets().take(bounds.len() + 3).map(|b| (b.upper_bound(), b.cumulative_count())).collect();
    ck_eq!(got, cum, "cumulative buckets");
    Ok(())
}
pub fn c10(c: &mut Ctx) {
    let run = |bounds: &[f64], vals: &[f64]| -> R {
        let h = hist(bounds)?;
        let other = h.clone();
        let bs = sorted_bounds(bounds);
        let mut seen = vec![];
        for (i, v) in vals.iter().enumerate() {
            if v.is_nan() {
                ck!(panics(|| h.observe(*v)), "op {i}: observing not-a-number did not panic");
            } else {
                h.observe(*v);
                seen.push(*v);
            }
            if i < 40 || i + 1 == vals.len() {
                check_observed(&h, &bs, &seen).map_err(|e| format!("after observation {i} ({v:?}): {e}"))?;
            }
        }
        check_observed(&other, &bs, &seen)
    };
    let al = [0.0, -0.0, 1.0, 2.0, f64::INFINITY, f64::NEG_INFINITY, -1.0, f64::from_bits(1.0f64.to_bits() + 1), f64::from_bits(1.0f64.to_bits() - 1), 1.5];
    let mut seqs: Vec<Vec<f64>> = vec![vec![]];
    for _ in 0..=3 {
        for s in &seqs {
            c.case(format!("bounds {s:?}, each of {al:?} and NaN observed"), true, || {
                for v in al.iter().chain(&[f64::NAN]) {
                    run(s, &[*v])?;
                }
                run(s, &al)
            });
        }
        seqs = seqs.iter().flat_map(|s| al.iter().map(move |x| [s.clone(), vec![*x]].concat())).collect();
    }
    while c.within(1.0) {
        let fd = c.dict.floats.clone();
        let nb = size(c, 300);
        let bounds: Vec<f64> = (0..nb).map(|_| number(&mut c.rng, &fd)).collect();
        let nv = 1 + size(c, 300);
        let vals: Vec<f64> = (0..nv)
            .map(|_| {
                if !bounds.is_empty() && c.rng.bool() {
                    let y = *c.rng.pick(&bounds);
                    let y = match c.rng.below(4) {
                        0 => f64::from_bits(y.to_bits().wrapping_add(1)),
                        1 => f64::from_bits(y.to_bits().wrapping_sub(1)),
                        _ => y,
                    };
                    y
                } else if c.rng.one_in(30) {
                    f64::NAN
                } else {
                    number(&mut c.rng, &fd)
                }
            })
            .collect();
        c.case(format!("bounds {bounds:?}, observed {vals:?}"), true, || run(&bounds, &vals));
    }
}

fn agg_hist(f: &MetricFamilies) -> std::result::Result<AggregatedHistogram, String> {
    ck_err(f.as_ref().len() == 1, "not one family")?;
    match f.as_ref()[0].metrics() {
        Metrics::Histogram(v) if v.len() == 1 => Ok(v[0].clone()),
        o => Err(format!("not one histogram entry: {o:?}")),
    }
}
fn ck_err(b: bool, m: &str) -> R {
    if b {
        Ok(())
    } else {
        Err(m.into())
    }
}
pub fn c11(c: &mut Ctx) {
    let run = |members: &[(Vec<f64>, Vec<f64>)]| -> R {
        let mut g = Gatherer::new();
        let mut hs = vec![];
        for (b, vals) in members {
            let mut hb = HistogramBuilder::new("h");
            hb.buckets(b.clone()).registry(g.registry());
            let h = hb.finish().map_err(|e| format!("build: {e}"))?;
            for v in vals {
                h.observe(*v);
            }
            hs.push(h);
        }
        let fs = g.gather();
        if members.is_empty() {
            return ck_err(fs.as_ref().is_empty(), "families out of nothing");
        }
        let a = agg_hist(&fs)?;
        let mut bounds: Vec<f64> = members.iter().flat_map(|m| sorted_bounds(&m.0)).collect();
        bounds.sort_by(|a, b| a.partial_cmp(b).unwrap());
        bounds.dedup();
        let want: Vec<(f64, u64)> = bounds
            .iter()
            .map(|b| (*b, hs.iter().flat_map(|h| h.buckets().iter()).filter(|k| k.upper_bound() <= *b).map(|k| k.count()).sum()))
            .collect();
        let mut it = a.cumulative_buckets();
        let got: Vec<(f64, u64)> = it.by_ref().take(bounds.len() + 3).map(|b| (b.upper_bound(), b.cumulative_count())).collect();
        ck_eq!(got, want, "cumulative buckets");
        ck!(it.next().is_none(), "more buckets after the end");
        let total: u64 = members.iter().map(|m| m.1.len() as u64).sum();
        ck_eq!(a.count(), total, "count");
        ck_eq!(got.last().unwrap().1, total, "count of the +Inf bucket");
        ck_eq!(got.last().unwrap().0, f64::INFINITY, "last bound");
        if members.len() <= 2 {
            let s: f64 = hs.iter().map(|h| h.sum()).sum();
            ck!(feq(a.sum(), s), "sum {:?}, expected {:?}", a.sum(), s);
        } else if members.iter().flat_map(|m| &m.1).all(|v| v.fract() == 0.0 && v.abs() < 1e9) {
            ck_eq!(a.sum(), members.iter().flat_map(|m| &m.1).sum::<f64>(), "sum");
        }
        Ok(())
    };
    let al = [0.0, 1.0, f64::NEG_INFINITY, 2.0, f64::INFINITY, f64::from_bits(1.0f64.to_bits() + 1), 1e-17];
    let mut sets: Vec<Vec<f64>> = vec![];
    for m in 0..(1 << al.len()) {
        sets.push(al.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|x| *x.1).collect());
    }
    let vals = [0.0, 1.0, 1.5, -3.0, 5.0, f64::NEG_INFINITY, f64::INFINITY, 1e-17, 0.5e-17];
    for (i, a) in sets.iter().enumerate() {
        for (j, b) in sets.iter().enumerate() {
            if j <= i || (i + j) % 5 == 0 {
                let (va, vb) = (vals[..i % 9].to_vec(), vals[j % 9..].to_vec());
                c.case(format!("members {:?} {:?}", (a, &va), (b, &vb)), true, || run(&[(a.clone(), va.clone()), (b.clone(), vb.clone())]));
            }
        }
    }
    while c.within(1.0) {
        let fd = c.dict.floats.clone();
        let nm = size(c, 12);
        let np = 1 + size(c, 60);
        let pool: Vec<f64> = (0..np)
            .flat_map(|_| {
                let x = number(&mut c.rng, &fd);
                let y = f64::from_bits(x.to_bits() + (x.is_finite() as u64));
                if c.rng.one_in(3) && !y.is_nan() {
                    vec![x, y]
                } else {
                    vec![x]
                }
            })
            .collect();
        let int = c.rng.bool();
        let members: Vec<(Vec<f64>, Vec<f64>)> = (0..nm)
            .map(|_| {
                let nb = size(c, 40);
                let nv = size(c, 40);
                let b = (0..nb).map(|_| *c.rng.pick(&pool)).collect();
                let v = (0..nv)
                    .map(|_| {
                        if int {
                            c.rng.below(100) as f64 - 50.0
                        } else if c.rng.bool() {
                            *c.rng.pick(&pool)
                        } else {
                            number(&mut c.rng, &fd)
                        }
                    })
                    .collect();
                (b, v)
            })
            .collect();
        c.case(format!("members {members:?}"), nm > 1, || run(&members));
    }
}

fn want_quantiles(qs: &[f64], samples: &[f64]) -> Vec<(f64, f64)> {
    let mut s: Vec<f64> = samples.iter().cloned().filter(|x| !x.is_nan()).collect();
    s.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let mut q = qs.to_vec();
    q.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let n = s.len();
    if n == 0 {
        return vec![];
    }
    q.iter().map(|q| (*q, s[((q * n as f64).floor() as usize).min(n - 1)])).collect()
}
fn pairs(v: Vec<(Quantile, f64)>) -> Vec<(f64, f64)> {
    v.into_iter().map(|(q, v)| (q.as_f64(), v)).collect()
}
fn check_quantiles(members: &[(Vec<f64>, Vec<f64>)]) -> R {
    let mut g = Gatherer::new();
    let mut ss = vec![];
    for (q, vals) in members {
        let mut b = SummaryBuilder::new("s", Duration::from_secs(100_000));
        for q in q {
            b.quantile(*q);
        }
        b.registry(g.registry());
        let s = b.finish().map_err(|e| format!("build: {e}"))?;
        for v in vals {
            s.observe(*v);
        }
        ck_eq!(pairs(s.quantiles()), want_quantiles(q, vals), "quantiles of one summary");
        ck_eq!(pairs(s.quantiles()), want_quantiles(q, vals), "quantiles of one summary, asked again");
        ck_eq!(s.count(), vals.len() as u64, "count of one summary");
        ss.push(s);
    }
    let fs = g.gather();
    if members.is_empty() {
        return Ok(());
    }
    let a = match fs.as_ref()[0].metrics() {
        Metrics::Summary(v) if v.len() == 1 => v[0].clone(),
        o => return Err(format!("not one summary entry: {o:?}")),
    };
    let mut q: Vec<f64> = members.iter().flat_map(|m| m.0.clone()).collect();
    q.sort_by(|a, b| a.partial_cmp(b).unwrap());
    q.dedup();
    let vals: Vec<f64> = members.iter().flat_map(|m| m.1.clone()).collect();
    ck_eq!(pairs(a.quantiles()), want_quantiles(&q, &vals), "quantiles of the aggregation");
    ck_eq!(a.count(), vals.len() as u64, "count of the aggregation");
    Ok(())
}
pub fn c12(c: &mut Ctx) {
    for q in special_floats() {
        for q in [q, f64::from_bits(q.to_bits().wrapping_add(1)), f64::from_bits(q.to_bits().wrapping_sub(1)), -q] {
            c.case(format!("quantile {q:?} accepted?"), true, || {
                let ok = 0.0 <= q && q <= 1.0;
                match Quantile::new(q) {
                    Ok(x) => {
                        ck!(ok, "accepted");
                        ck_eq!(x.as_f64(), q, "value");
                    }
                    e => ck!(!ok && invalid(&e), "refused: {e:?}"),
                }
                let mut b = SummaryBuilder::new("s", Duration::from_secs(1));
                b.quantile(0.5).quantile(q);
                match b.finish() {
                    Ok(_) => ck!(ok, "builder accepted"),
                    e => ck!(!ok && invalid(&e), "builder refused: {e:?}"),
                }
                Ok(())
            });
        }
    }
    let qall = [0.0, -0.0, 0.1, 0.25, 0.3, 0.5, 0.9, 0.99, 0.999, 1.0, 0.9999999999999999, 5e-324];
    for n in 0..if c.thorough { 400 } else { 130 } {
        for d in 0..=8 {
            let qs: Vec<f64> = if d == 8 { qall.to_vec() } else { (0..=(n.min(40))).map(|i| i as f64 / (n.min(40) + d).max(1) as f64).collect() };
            let vals: Vec<f64> = (0..n).map(|i| ((i * 7919 + 13) % (n + d)) as f64).collect();
            c.case(format!("{n} samples, quantiles {qs:?}"), n > 0, || check_quantiles(&[(qs.clone(), vals.clone())]));
        }
    }
    while c.within(1.0) {
        let fd = c.dict.floats.clone();
        let nm = 1 + size(c, 6);
        let members: Vec<(Vec<f64>, Vec<f64>)> = (0..nm)
            .map(|_| {
                let nq = size(c, 30);
                let nv = size(c, 200);
                let q = (0..nq)
                    .map(|_| match c.rng.below(4) {
                        0 => *c.rng.pick(&qall),
                        1 => c.rng.below(101) as f64 / 100.0,
                        2 => c.rng.below(nv + 1) as f64 / (nv.max(1)) as f64,
                        _ => (c.rng.u64() >> 11) as f64 / (1u64 << 53) as f64,
                    })
                    .collect();
                let v = (0..nv).map(|_| if c.rng.bool() { c.rng.below(12) as f64 } else { float(&mut c.rng, &fd) }).collect();
                (q, v)
            })
            .collect();
        c.case(format!("members {members:?}"), true, || check_quantiles(&members));
    }
}

const NS: i128 = 1_000_000_000;
pub fn c13(c: &mut Ctx) {
    // 128 quantiles show every one of up to 64 distinct samples
    let qs: Vec<f64> = (0..=128).map(|i| i as f64 / 128.0).collect();
    let run = |window: Duration, hist: &[(i128, u8)], agg: bool| -> R {
        let r = (|| {
            let mut g = Gatherer::new();
            let mut b = SummaryBuilder::new("s", window);
            for q in &qs {
                b.quantile(*q);
            }
            b.registry(g.registry());
            let s = b.finish().map_err(|e| e.to_string())?;
            let w = window.as_nanos() as i128;
            let mut mono = true;
            let mut last = i128::MIN;
            let mut all: Vec<(i128, f64, bool)> = vec![]; // time, value, was always within the window
            let mut sum = 0.0;
            for (i, (t, op)) in hist.iter().enumerate() {
                clock::set_wall(*t);
                mono &= *t >= last;
                last = *t;
                for a in all.iter_mut() {
                    a.2 &= t - a.0 <= w;
                }
                match op {
                    0 | 1 => {
                        let v = (i + 1) as f64 + 0.5;
                        s.observe(v);
                        sum += v;
                        all.push((*t, v, true));
                    }
                    2 => {
                        let _ = s.to_string();
                    }
                    _ => {}
                }
                let (got, again) = if agg {
                    let f = g.gather();
                    match f.as_ref()[0].metrics() {
                        Metrics::Summary(v) => (pairs(v[0].quantiles()), pairs(v[0].quantiles())),
                        _ => return Err("no summary".into()),
                    }
                } else {
                    (pairs(s.quantiles()), pairs(s.quantiles()))
                };
                ck_eq!(again, got, "step {i} at {t}: second reading at the same time");
                let mut shown: Vec<f64> = got.iter().map(|x| x.1).collect();
                shown.dedup();
                let must: Vec<f64> = all.iter().filter(|a| a.2).map(|a| a.1).collect();
                if mono {
                    if must.len() <= 64 {
                        ck_eq!(shown, must, "step {i} at {t}: samples within the window");
                    }
                    ck_eq!(got, want_quantiles(&qs, &must), "step {i} at {t}: quantiles");
                } else if all.len() <= 64 {
                    for m in &must {
                        ck!(shown.contains(m), "step {i} at {t}: sample {m} is within the window but was dropped; shown {shown:?}");
                    }
                    for x in &shown {
                        ck!(all.iter().any(|a| a.1 == *x), "step {i}: {x} was never observed");
                    }
                }
                ck_eq!(s.count(), all.len() as u64, "step {i}: count");
                ck_eq!(s.sum(), sum, "step {i}: sum");
            }
            Ok(())
        })();
        clock::real_wall();
        r
    };
    if !clock::self_test() {
        // cannot drive the clock here: say so rather than report nonsense
        c.samples.push("the clock could not be controlled; only the real clock was used".into());
        return;
    }
    let base = 1_700_000_000i128 * NS;
    // exhaustive: 4 steps, each moving the clock by one of these, with window 2
    let moves = [0i128, 1, 2, 3, 1_000_000_000, -1, -3];
    let mut seqs: Vec<Vec<(i128, u8)>> = vec![vec![(base, 0)]];
    for d in 0..if c.thorough { 4 } else { 3 } {
        let _ = d;
        seqs = seqs
            .iter()
            .flat_map(|s| {
                moves.iter().flat_map(move |m| {
                    [0u8, 3].into_iter().map(move |o| {
                        let mut t = s.clone();
                        t.push((s.last().unwrap().0 + m, o));
                        t
                    })
                })
            })
            .collect();
        for (i, s) in seqs.iter().enumerate() {
            for w in [0, 2, 1_000_000_000] {
                let rel: Vec<_> = s.iter().map(|x| (x.0 - base, if x.1 == 0 { "observe" } else { "read" })).collect();
                c.case(format!("window {w} ns, {}, steps (ns, op) {rel:?}", if i % 2 == 0 { "direct" } else { "aggregated" }), true, || run(Duration::from_nanos(w), s, i % 2 == 1));
            }
        }
    }
    while c.within(1.0) {
        let ints: Vec<u64> = c.dict.ints.iter().filter(|i| **i >= 0 && **i < 1 << 40).map(|i| *i as u64).collect();
        let r = &mut c.rng;
        let window = match r.below(7) {
            0 => Duration::from_nanos(r.below(4) as u64),
            1 => Duration::from_secs(r.below(100) as u64),
            2 => Duration::new(r.below(20) as u64, r.below(1_000_000_000) as u32),
            3 => Duration::from_millis(r.below(5000) as u64),
            4 => Duration::MAX,
            5 if !ints.is_empty() => Duration::from_secs(*r.pick(&ints)),
            _ => Duration::from_secs(10),
        };
        let wn = (window.as_nanos() as i128).min(100_000 * NS);
        let back = r.one_in(3);
        let mut t = if r.one_in(5) { -500 * NS } else { base };
        let n = 2 + size(c, 90);
        let r = &mut c.rng;
        let mut h = vec![];
        for _ in 0..n {
            let d = match r.below(6) {
                0 => 0,
                1 => wn,
                2 => wn + 1,
                3 => (wn - 1).max(0),
                4 => wn / (1 + r.below(12) as i128),
                _ => r.below(1000) as i128 * wn.max(1) / 900,
            };
            t += if back && r.one_in(4) { -d } else { d };
            t = t.clamp(-1000 * NS, 4_000_000_000 * NS);
            h.push((t, r.below(4) as u8));
        }
        let agg = r.bool();
        let rel: Vec<_> = h.iter().map(|x| (x.0 - h[0].0, x.1)).collect();
        c.case(format!("window {window:?}, aggregated {agg}, first at {} ns, steps (ns, op) {rel:?}", h[0].0), true, || run(window, &h, agg));
    }
}

#[allow(dead_code)]
fn unused(_: Arc<()>) {}
