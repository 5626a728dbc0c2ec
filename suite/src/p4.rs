//! C20: the process collector against the operating system's own accounts.
//!
//! Two kinds of cases: the real /proc read by an independent reader before and after, in a process whose state is
//! varied; and made-up /proc files (in a scratch directory) served instead of the real ones.  What is made up is
//! judged only when the file was really asked for.
use crate::any::*;
use crate::ctx::*;
use crate::{ck, ck_eq};
use prometrics::metrics::*;
use prometrics::*;
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::ffi::{c_char, c_int, c_long, c_void, CStr, CString};
use std::fs;
use std::time::Duration;

type R = std::result::Result<(), String>;

extern "C" {
    fn sysconf(n: c_int) -> c_long;
    fn openat(d: c_int, p: *const c_char, f: c_int, ...) -> c_int;
    fn fdopendir(fd: c_int) -> *mut c_void;
    fn __errno_location() -> *mut c_int;
    fn getrlimit(r: c_int, l: *mut [u64; 2]) -> c_int;
    fn setrlimit(r: c_int, l: *const [u64; 2]) -> c_int;
}
const NOFILE: c_int = 7;
const TCK: c_int = 2;
const PAGE: c_int = 30;

#[derive(Default)]
struct Fake {
    on: bool,
    /// path -> what to open instead (None: no such file)
    map: BTreeMap<String, Option<CString>>,
    asked: Vec<String>,
}
thread_local!(static FAKE: RefCell<Fake> = RefCell::new(Fake::default()));

/// the path to open instead, or errno
fn redirect(p: *const c_char) -> std::result::Result<CString, c_int> {
    let s = unsafe { CStr::from_ptr(p) }.to_owned();
    let Ok(t) = s.to_str() else { return Ok(s) };
    if !t.starts_with("/proc/") {
        return Ok(s);
    }
    let r = FAKE.try_with(|f| {
        let Ok(mut f) = f.try_borrow_mut() else { return Ok(None) };
        if !f.on {
            return Ok(None);
        }
        let n = t.replacen(&format!("/proc/{}/", std::process::id()), "/proc/self/", 1);
        let n = n.trim_end_matches('/').to_string();
        match f.map.get(&n).cloned() {
            None => Ok(None),
            Some(x) => {
                f.asked.push(n);
                x.map(Some).ok_or(2)
            }
        }
    });
    match r {
        Ok(Ok(Some(n))) => Ok(n),
        Ok(Err(e)) => Err(e),
        _ => Ok(s),
    }
}
unsafe fn open_as(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    match redirect(p) {
        Ok(s) => openat(-100, s.as_ptr(), flags, mode),
        Err(e) => {
            *__errno_location() = e;
            -1
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: u32) -> c_int {
    open_as(p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn opendir(p: *const c_char) -> *mut c_void {
    let fd = open_as(p, 0o200000 | 0o2000000, 0);
    if fd < 0 {
        return std::ptr::null_mut();
    }
    fdopendir(fd)
}

/// what an independent reader finds in /proc
#[derive(Clone, Debug, PartialEq)]
struct Os {
    soft: Option<u64>,
    fds: usize,
    cpu: f64,
    start: f64,
    threads: f64,
    vsize: f64,
    rss: f64,
}
fn tck() -> f64 {
    unsafe { sysconf(TCK) as f64 }
}
fn stat_fields(s: &str) -> Vec<String> {
    s[s.rfind(')').unwrap() + 2..].split_whitespace().map(|x| x.to_string()).collect()
}
fn read_os() -> Os {
    let lim = fs::read_to_string("/proc/self/limits").unwrap();
    let l = lim.lines().find(|l| l.starts_with("Max open files")).unwrap();
    let f = stat_fields(&fs::read_to_string("/proc/self/stat").unwrap());
    let n = |i: usize| f[i - 3].parse::<f64>().unwrap();
    let bt: f64 = fs::read_to_string("/proc/stat").unwrap().lines().find_map(|l| l.strip_prefix("btime ").map(|x| x.trim().parse().unwrap())).unwrap();
    Os {
        soft: l[14..].split_whitespace().next().unwrap().parse().ok(),
        fds: fs::read_dir("/proc/self/fd").unwrap().count() - 1,
        cpu: (n(14) + n(15)) / tck(),
        start: bt + n(22) / tck(),
        threads: n(20),
        vsize: n(23),
        rss: n(24) * unsafe { sysconf(PAGE) as f64 },
    }
}
/// what the collector says: name -> (kind, value)
fn collected(fs: &metric::MetricFamilies) -> std::result::Result<BTreeMap<String, (Kind, f64)>, String> {
    let mut r = BTreeMap::new();
    for f in families(fs) {
        ck!(f.help.is_none(), "family {:?} has a help text", f.parts);
        ck_eq!(f.parts.0.as_deref(), Some("process"), "namespace of {:?}", f.parts);
        ck!(f.parts.1.is_none(), "{:?} has a subsystem", f.parts);
        ck_eq!(f.entries.len(), 1, "entries of {:?}", f.parts);
        let e = &f.entries[0];
        ck!(e.labels.is_empty(), "{:?} has labels", f.parts);
        r.insert(f.parts.2.clone(), (f.kind, e.total));
    }
    Ok(r)
}
const GAUGES: [&str; 6] = ["max_fds", "open_fds", "start_time_seconds", "threads_total", "virtual_memory_bytes", "resident_memory_bytes"];
fn near(a: f64, b: f64) -> bool {
    a == b || (a - b).abs() <= 1e-11 * a.abs().max(b.abs())
}
fn kinds(got: &BTreeMap<String, (Kind, f64)>) -> R {
    for (n, (k, _)) in got {
        if n == "cpu_seconds_total" {
            ck_eq!(*k, Kind::Counter, "kind of {n}");
        } else {
            ck!(GAUGES.contains(&n.as_str()), "unexpected metric process_{n}");
            ck_eq!(*k, Kind::Gauge, "kind of {n}");
        }
    }
    Ok(())
}
/// the real /proc
fn live(g: &mut Gatherer) -> R {
    let mut last = Ok(());
    for _ in 0..40 {
        let a = read_os();
        let fams = g.gather();
        let b = read_os();
        let got = collected(&fams)?;
        kinds(&got)?;
        let get = |n: &str| got.get(n).map(|x| x.1);
        if let (Some(s), true) = (a.soft, a.soft == b.soft) {
            ck_eq!(get("max_fds"), Some(s as f64), "process_max_fds");
        } else if a.soft.is_none() && b.soft.is_none() {
            ck_eq!(get("max_fds"), None, "process_max_fds without a limit");
        }
        let cpu = get("cpu_seconds_total").ok_or("no process_cpu_seconds_total")?;
        ck!(a.cpu - 1e-9 <= cpu && cpu <= b.cpu + 1e-9, "process_cpu_seconds_total {cpu}, by the system between {} and {}", a.cpu, b.cpu);
        let st = get("start_time_seconds").ok_or("no process_start_time_seconds")?;
        ck!((st - a.start).abs() <= 1.0, "process_start_time_seconds {st}, by the system {}", a.start);
        // these may change under our feet: judged when they did not
        let mut again = false;
        let mut r = Ok(());
        for (n, x, y) in [
            ("open_fds", a.fds as f64, b.fds as f64),
            ("threads_total", a.threads, b.threads),
            ("virtual_memory_bytes", a.vsize, b.vsize),
            ("resident_memory_bytes", a.rss, b.rss),
        ] {
            if x != y {
                again = true;
            }
            let v = get(n);
            if v != Some(x) && r.is_ok() {
                r = Err(format!("process_{n} {v:?}, by the system {x} before and {y} after"));
            }
        }
        last = r;
        if last.is_ok() {
            return Ok(());
        }
        if !again {
            // unchanged before and after, and yet different: look once more to be sure
            let a = read_os();
            let got = collected(&g.gather())?;
            let b = read_os();
            if a == b {
                for (n, x) in [("open_fds", a.fds as f64), ("threads_total", a.threads), ("virtual_memory_bytes", a.vsize), ("resident_memory_bytes", a.rss)] {
                    ck_eq!(got.get(n).map(|x| x.1), Some(x), "process_{n}");
                }
            }
        }
        std::thread::sleep(Duration::from_millis(2));
    }
    // never still: only gross differences count
    let a = read_os();
    let got = collected(&g.gather())?;
    for (n, x) in [("open_fds", a.fds as f64), ("threads_total", a.threads), ("virtual_memory_bytes", a.vsize), ("resident_memory_bytes", a.rss)] {
        let v = got.get(n).map(|x| x.1).ok_or(format!("no process_{n}"))?;
        ck!(v > x / 2.0 - 8.0 && v < x * 2.0 + 8.0, "process_{n} {v}, by the system {x} ({last:?})");
    }
    Ok(())
}

#[derive(Clone, Debug)]
struct Made {
    soft: Option<Option<u64>>, // None: the file is missing
    hard: Option<u64>,
    fds: Option<usize>,
    stat: Option<[u64; 8]>, // utime stime cutime cstime threads start vsize rss
    btime: Option<u64>,
    other: [u64; 4], // faults, limit of the resident set, guest time, guest time of children
}
fn made(m: &Made, dir: &str) -> R {
    let w = |n: &str, s: String| -> CString {
        let p = format!("{dir}/{n}");
        fs::write(&p, s).unwrap();
        CString::new(p).unwrap()
    };
    let num = |x: Option<u64>| x.map_or("unlimited".to_string(), |v| v.to_string());
    let mut map = BTreeMap::new();
    let lim = fs::read_to_string("/proc/self/limits").unwrap();
    let lim: Vec<String> = lim
        .lines()
        .map(|l| if l.starts_with("Max open files") { format!("{:<25} {:<20} {:<20} {:<10}", "Max open files", num(m.soft.unwrap_or(None)), num(m.hard), "files") } else { l.to_string() })
        .collect();
    map.insert("/proc/self/limits".to_string(), m.soft.map(|_| w("limits", lim.join("\n") + "\n")));
    let st = fs::read_to_string("/proc/self/stat").unwrap();
    let cut = st.rfind(')').unwrap() + 2;
    let mut f = stat_fields(&st);
    if let Some(v) = m.stat {
        for (i, x) in [14, 15, 16, 17, 20, 22, 23, 24].iter().zip(v) {
            f[*i - 3] = x.to_string();
        }
        for (i, x) in [(10, 0), (11, 0), (12, 0), (13, 0), (25, 1), (43, 2), (44, 3)] {
            f[i - 3] = m.other[x].to_string();
        }
    }
    map.insert("/proc/self/stat".to_string(), m.stat.map(|_| w("stat", format!("{}{}\n", &st[..cut], f.join(" ")))));
    let ss = fs::read_to_string("/proc/stat").unwrap();
    let ss: Vec<String> = ss.lines().map(|l| if l.starts_with("btime ") { format!("btime {}", m.btime.unwrap_or(0)) } else { l.to_string() }).collect();
    map.insert("/proc/stat".to_string(), m.btime.map(|_| w("sysstat", ss.join("\n") + "\n")));
    let fd = format!("{dir}/fd");
    let _ = fs::remove_dir_all(&fd);
    fs::create_dir(&fd).unwrap();
    for i in 0..m.fds.unwrap_or(0) + 1 {
        fs::write(format!("{fd}/{i}"), "").unwrap();
    }
    map.insert("/proc/self/fd".to_string(), m.fds.map(|_| CString::new(fd).unwrap()));
    FAKE.with(|f| *f.borrow_mut() = Fake { on: true, map, asked: vec![] });
    let mut g = Gatherer::new();
    g.registry().register(ProcessMetricsCollector::new());
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| g.gather()));
    let asked = FAKE.with(|f| std::mem::take(&mut *f.borrow_mut())).asked;
    let fams = r.map_err(|e| format!("gather panicked: {}", panic_text(&*e)))?;
    let got = collected(&fams)?;
    kinds(&got)?;
    let get = |n: &str| got.get(n).map(|x| x.1);
    let has = |p: &str| asked.iter().any(|a| a == p);
    let same = |n: &str, want: Option<f64>| -> R {
        match (get(n), want) {
            (None, None) => Ok(()),
            (Some(a), Some(b)) if near(a, b) => Ok(()),
            (a, b) => Err(format!("process_{n}: got {a:?}, the system says {b:?}")),
        }
    };
    if has("/proc/self/limits") {
        same("max_fds", m.soft.and_then(|s| s).map(|s| s as f64))?;
    }
    if has("/proc/self/fd") {
        same("open_fds", m.fds.map(|x| x as f64))?;
    }
    if has("/proc/self/stat") {
        let v = m.stat;
        same("cpu_seconds_total", v.map(|v| (v[0] + v[1]) as f64 / tck()))?;
        same("threads_total", v.map(|v| v[4] as f64))?;
        same("virtual_memory_bytes", v.map(|v| v[6] as f64))?;
        same("resident_memory_bytes", v.map(|v| v[7] as f64 * unsafe { sysconf(PAGE) as f64 }))?;
        if v.is_none() || has("/proc/stat") {
            let t = if let (Some(v), Some(b)) = (v, m.btime) { Some(b as f64 + v[5] as f64 / tck()) } else { None };
            match (get("start_time_seconds"), t) {
                (None, None) => {}
                (Some(a), Some(b)) if (a - b).abs() <= 1.0 => {}
                (a, b) => return Err(format!("process_start_time_seconds: got {a:?}, the system says {b:?}")),
            }
        }
    }
    Ok(())
}

pub fn c20(c: &mut Ctx) {
    let dir = std::env::temp_dir().join(format!("pmx-c20-{}", std::process::id()));
    let _ = fs::remove_dir_all(&dir);
    fs::create_dir_all(&dir).unwrap();
    let d = dir.to_str().unwrap().to_string();
    let mut g = Gatherer::new();
    g.registry().register(ProcessMetricsCollector::new());
    c.case("a fresh collector".into(), true, || {
        let mut g = Gatherer::new();
        g.registry().register(ProcessMetricsCollector::default());
        live(&mut g)
    });
    // a child that was waited for used some time
    c.case("children waited for".into(), true, || {
        let _ = std::process::Command::new("/bin/sh").args(["-c", "i=0; while [ $i -lt 60000 ]; do i=$((i+1)); done"]).status();
        live(&mut g)
    });
    c.case("system time used".into(), true, || {
        use std::io::Read;
        let mut f = fs::File::open("/dev/zero").unwrap();
        let mut b = vec![0u8; 1 << 20];
        for _ in 0..400 {
            f.read_exact(&mut b).unwrap();
        }
        live(&mut g)
    });
    let mut old = [0u64; 2];
    unsafe { getrlimit(NOFILE, &mut old) };
    for k in [0usize, 1, 2, 7, 30] {
        for (thr, mb) in [(0usize, 0usize), (1, 3), (5, 20)] {
            let soft = if k == 0 { old[0] } else { (200 + k as u64 * 13).min(old[0]) };
            c.case(format!("{k} descriptors opened, {thr} threads started, {mb} MB touched, limit {soft}"), true, || {
                let files: Vec<_> = (0..k).map(|_| fs::File::open("/dev/null").unwrap()).collect();
                let stop = std::sync::Arc::new(std::sync::Barrier::new(thr + 1));
                let ts: Vec<_> = (0..thr)
                    .map(|_| {
                        let s = stop.clone();
                        std::thread::spawn(move || {
                            s.wait();
                        })
                    })
                    .collect();
                let m = vec![1u8; mb << 20];
                let l = [soft, old[1]];
                unsafe { setrlimit(NOFILE, &l) };
                let r = live(&mut g);
                unsafe { setrlimit(NOFILE, &old) };
                stop.wait();
                for t in ts {
                    t.join().unwrap();
                }
                drop((files, m));
                r
            });
        }
    }
    // made-up states; the corners first
    let base = Made { soft: Some(Some(1024)), hard: Some(4096), fds: Some(3), stat: Some([123, 45, 600, 70, 4, 9876, 5 << 30, 321]), btime: Some(1_600_000_000), other: [17, u64::MAX, 0, 0] };
    let mut all = vec![base.clone()];
    for s in [None, Some(None), Some(Some(0)), Some(Some(1 << 20))] {
        all.push(Made { soft: s, ..base.clone() });
    }
    for f in [None, Some(0), Some(1), Some(64), Some(65), Some(300)] {
        all.push(Made { fds: f, ..base.clone() });
    }
    all.push(Made { other: [0, 4096 * 100, 50, 30], ..base.clone() });
    all.push(Made { stat: Some([10, 500, 0, 0, 1, 1, 1 << 20, 256]), ..base.clone() });
    all.push(Made { stat: None, ..base.clone() });
    all.push(Made { btime: None, ..base.clone() });
    all.push(Made { stat: None, btime: None, fds: None, soft: None, ..base.clone() });
    for m in all {
        c.case(format!("{m:?}"), true, || made(&m, &d));
    }
    while c.within(1.0) {
        let r = &mut c.rng;
        let mut big = |bits: usize| r.u64() >> (64 - 1 - r.below(bits));
        let st = [big(40), big(40), big(40), big(40), big(20), big(40), big(46), big(34)];
        let m = Made {
            soft: if r.one_in(8) { None } else { Some(if r.one_in(6) { None } else { Some(r.u64() >> (32 + r.below(32))) }) },
            hard: if r.bool() { None } else { Some(r.u64() >> 33) },
            fds: if r.one_in(8) { None } else { Some(r.below(40)) },
            stat: if r.one_in(8) { None } else { Some(st) },
            btime: if r.one_in(8) { None } else { Some(r.u64() >> (33 + r.below(30))) },
            other: [r.u64() >> (1 + r.below(60)), r.u64() >> r.below(60), r.u64() >> (24 + r.below(36)), r.u64() >> (24 + r.below(36))],
        };
        c.case(format!("{m:?}"), true, || made(&m, &d));
    }
    let _ = fs::remove_dir_all(&dir);
}
