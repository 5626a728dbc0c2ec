//! C01..C05: names, labels, escaping, text.
use crate::any::*;
use crate::ctx::*;
use crate::gen::*;
use crate::{ck, ck_eq};
use prometrics::label::Label;
use prometrics::metric::*;
use prometrics::metrics::*;
use prometrics::*;
use std::collections::BTreeMap;
use std::time::Duration;

fn check_name(k: Kind, ns: Option<&str>, ss: Option<&str>, name: &str) -> std::result::Result<(), String> {
    let mut b = AnyBuilder::new(k, name);
    if let Some(s) = ns {
        b.namespace(s);
    }
    if let Some(s) = ss {
        b.subsystem(s);
    }
    let r = b.finish();
    let good = ns.map_or(true, |s| good_name(s, true)) && ss.map_or(true, |s| good_name(s, true)) && good_name(name, true);
    match r {
        Ok(m) => {
            ck!(good, "accepted, but it must be refused");
            let mut want = String::new();
            for p in [ns, ss].into_iter().flatten() {
                want.push_str(p);
                want.push('_');
            }
            want.push_str(name);
            ck_eq!(m.name().to_string(), want, "shown name");
            ck_eq!(m.name().namespace(), ns, "namespace");
            ck_eq!(m.name().subsystem(), ss, "subsystem");
            ck_eq!(m.name().name(), name, "name");
        }
        Err(e) => {
            ck!(!good, "refused ({:?}), but it must be accepted", e.kind());
            ck_eq!(*e.kind(), ErrorKind::InvalidInput, "kind of the error");
        }
    }
    Ok(())
}

fn name_pool(c: &mut Ctx) -> String {
    match c.rng.below(6) {
        0 => {
            let d = c.dict.strs.clone();
            any_string(&mut c.rng, &d)
        }
        1 => {
            let mut s: Vec<char> = valid_name(&mut c.rng).chars().collect();
            let i = c.rng.below(s.len());
            s[i] = any_char(&mut c.rng);
            s.into_iter().collect()
        }
        2 => {
            let mut s: Vec<char> = valid_name(&mut c.rng).chars().collect();
            let i = c.rng.below(s.len());
            s[i] = *c.rng.pick(NAME_CHARS);
            s.into_iter().collect()
        }
        3 => {
            let n = size(c, 3000);
            let mut s: Vec<char> = (0..n.max(1)).map(|i| if i % 7 == 3 { ':' } else { 'a' }).collect();
            if c.rng.bool() {
                let i = c.rng.below(s.len());
                s[i] = *c.rng.pick(NAME_CHARS);
            }
            s.into_iter().collect()
        }
        _ => valid_name(&mut c.rng),
    }
}

pub fn c01(c: &mut Ctx) {
    // every Unicode character in the first, second and last position
    for (what, pre, post) in [("first", "", "a"), ("second", "a", ""), ("third", "a_", "z"), ("only", "", "")] {
        let mut u = 0u32;
        while u < 0x110000 {
            let hi = (u + 0x2000).min(0x110000);
            c.evaluations += (hi - u) as u64 - 1;
            c.case(format!("name with every character of U+{u:04X}..U+{hi:04X} as its {what} one"), true, || {
                for x in (u..hi).filter_map(char::from_u32) {
                    let s = format!("{pre}{x}{post}");
                    check_name(Kind::Counter, None, None, &s).map_err(|e| format!("name {s:?}: {e}"))?;
                }
                Ok(())
            });
            u = hi;
        }
    }
    // every string of up to three characters from the representatives, for every part and kind
    let mut strs = vec![String::new()];
    for a in NAME_CHARS {
        strs.push(a.to_string());
        for b in NAME_CHARS {
            strs.push(format!("{a}{b}"));
        }
    }
    for k in KINDS {
        for (i, s) in strs.iter().enumerate() {
            c.case(format!("{k:?} name={s:?}"), true, || check_name(k, None, None, s));
            c.case(format!("{k:?} namespace={s:?} name=\"x\""), true, || check_name(k, Some(s), None, "x"));
            c.case(format!("{k:?} subsystem={s:?} name=\"x\""), true, || check_name(k, None, Some(s), "x"));
            if i % 7 == 0 {
                c.case(format!("{k:?} namespace=\"n\" subsystem={s:?} name=\"x\""), true, || check_name(k, Some("n"), Some(s), "x"));
            }
        }
    }
    let strs2 = strs.clone();
    for a in NAME_CHARS {
        c.case(format!("names {a:?} followed by every two representatives"), true, || {
            for s in &strs2 {
                let s = format!("{a}{s}");
                check_name(Kind::Gauge, None, None, &s).map_err(|e| format!("name {s:?}: {e}"))?;
            }
            Ok(())
        });
    }
    while c.within(1.0) {
        let k = *c.rng.pick(&KINDS);
        let (ns, ss, n) = (name_pool(c), name_pool(c), name_pool(c));
        let ns = if c.rng.bool() { Some(ns) } else { None };
        let ss = if c.rng.bool() { Some(ss) } else { None };
        c.case(format!("{k:?} namespace={ns:?} subsystem={ss:?} name={n:?}"), true, || check_name(k, ns.as_deref(), ss.as_deref(), &n));
        // the shortcut constructors and the common builder take the same path
        if c.rng.one_in(4) {
            let n2 = n.clone();
            c.case(format!("shortcuts, name={n2:?}"), true, || {
                let good = good_name(&n2, true);
                for r in [
                    Counter::new(&n2).map(|m| m.metric_name().to_string()),
                    Gauge::new(&n2).map(|m| m.metric_name().to_string()),
                    Histogram::new(&n2).map(|m| m.metric_name().to_string()),
                    Summary::new(&n2, Duration::from_secs(1)).map(|m| m.metric_name().to_string()),
                ] {
                    match r {
                        Ok(s) => {
                            ck!(good, "accepted");
                            ck_eq!(s, n2, "shown name");
                        }
                        Err(e) => {
                            ck!(!good, "refused");
                            ck_eq!(*e.kind(), ErrorKind::InvalidInput, "kind of the error");
                        }
                    }
                }
                Ok(())
            });
        }
    }
}

fn check_label(name: &str, value: &str) -> std::result::Result<(), String> {
    match Label::new(name, value) {
        Ok(l) => {
            ck!(good_label_name(name), "accepted, but it must be refused");
            ck_eq!(l.name(), name, "name");
            ck_eq!(l.value(), value, "value");
        }
        Err(e) => {
            ck!(!good_label_name(name), "refused, but it must be accepted");
            ck_eq!(*e.kind(), ErrorKind::InvalidInput, "kind of the error");
        }
    }
    Ok(())
}

fn check_label_on(k: Kind, pre: &[(String, String)], name: &str, value: &str) -> std::result::Result<(), String> {
    let ok = good_label_name(name) && k.reserved() != Some(name);
    // at build time, among other labels
    let mut b = AnyBuilder::new(k, "m");
    for (n, v) in pre {
        b.label(n, v);
    }
    b.label(name, value);
    let mut want: BTreeMap<String, String> = pre.iter().cloned().collect();
    let before: Vec<_> = want.clone().into_iter().collect();
    want.insert(name.into(), value.into());
    let want: Vec<_> = want.into_iter().collect();
    match b.finish() {
        Ok(m) => {
            ck!(ok, "builder accepted it");
            ck_eq!(m.label_vec(), want, "labels after building");
        }
        Err(e) => {
            ck!(!ok, "builder refused it");
            ck_eq!(*e.kind(), ErrorKind::InvalidInput, "kind of the builder's error");
        }
    }
    // afterwards
    let mut b = AnyBuilder::new(k, "m");
    for (n, v) in pre {
        b.label(n, v);
    }
    let mut m = b.finish().map_err(|e| format!("building with valid labels failed: {e}"))?;
    let other = m.clone();
    let r = m.labels_mut().insert(name, value);
    match r {
        Ok(()) => {
            ck!(ok, "insert accepted it");
            ck_eq!(m.label_vec(), want, "labels after insert");
        }
        Err(e) => {
            ck!(!ok, "insert refused it");
            ck_eq!(*e.kind(), ErrorKind::InvalidInput, "kind of insert's error");
            ck_eq!(m.label_vec(), before, "labels after a refused insert");
        }
    }
    ck_eq!(other.label_vec(), m.label_vec(), "labels seen by another handle");
    Ok(())
}

pub fn c02(c: &mut Ctx) {
    for (what, pre, post) in [("first", "", "a"), ("second", "a", ""), ("third", "a_", "z"), ("only", "", ""), ("second, after _", "_", "")] {
        let mut u = 0u32;
        while u < 0x110000 {
            let hi = (u + 0x2000).min(0x110000);
            c.evaluations += (hi - u) as u64 - 1;
            c.case(format!("label name with every character of U+{u:04X}..U+{hi:04X} as its {what} one"), true, || {
                for x in (u..hi).filter_map(char::from_u32) {
                    let s = format!("{pre}{x}{post}");
                    check_label(&s, &s).map_err(|e| format!("label name {s:?}: {e}"))?;
                }
                Ok(())
            });
            u = hi;
        }
    }
    let fixed = [
        "le", "quantile", "Le", "LE", "lee", "_le", "le_", "l", "quantiles", "Quantile", "_quantile", "quantil", "_", "__", "___", "_a", "__a", "a__", "_1", "1",
        "__name__", "instance", "job", "", "a:b", ":", "le ", " le",
    ];
    for k in KINDS {
        for n in fixed {
            for v in ["", "v", "le", "quantile", "\n"] {
                c.case(format!("{k:?} label {n:?}={v:?}"), true, || check_label_on(k, &[], n, v));
                let pre = [("a".to_string(), "1".to_string()), ("zz".to_string(), "2".to_string())];
                c.case(format!("{k:?} label {n:?}={v:?} beside a and zz"), true, || check_label_on(k, &pre, n, v));
            }
        }
    }
    for a in NAME_CHARS {
        for b in NAME_CHARS {
            let s = format!("{a}{b}");
            c.case(format!("label names {s:?}x"), true, || {
                check_label(&s, "v")?;
                for d in NAME_CHARS {
                    let s = format!("{s}{d}");
                    check_label(&s, "v").map_err(|e| format!("label name {s:?}: {e}"))?;
                }
                Ok(())
            });
        }
    }
    while c.within(1.0) {
        let k = *c.rng.pick(&KINDS);
        let n = if c.rng.one_in(5) { fixed[c.rng.below(fixed.len())].to_string() } else { name_pool(c) };
        let d = c.dict.strs.clone();
        let v = any_string(&mut c.rng, &d);
        let mut pre = Vec::new();
        let np = size(c, 60);
        for _ in 0..np {
            let nm = valid_name(&mut c.rng);
            if nm != "le" && nm != "quantile" && !pre.iter().any(|p: &(String, String)| p.0 == nm) {
                pre.push((nm, any_string(&mut c.rng, &d)));
            }
        }
        c.case(format!("{k:?} label {n:?}={v:?} beside {pre:?}"), true, || {
            check_label(&n, &v)?;
            check_label_on(k, &pre, &n, &v)
        });
    }
}

#[derive(Clone, Debug)]
enum LOp {
    Insert(String, String),
    Remove(String),
    Clear,
}

fn labels_agree(m: &Any, want: &BTreeMap<String, String>, probe: &[String]) -> std::result::Result<(), String> {
    let w: Vec<_> = want.clone().into_iter().collect();
    ck_eq!(m.label_vec(), w, "labels");
    ck_eq!(m.labels().len(), w.len(), "len");
    ck_eq!(m.labels().is_empty(), w.is_empty(), "is_empty");
    for n in probe.iter().chain(want.keys()) {
        let got = m.labels().get(n).map(|l| (l.name().to_string(), l.value().to_string()));
        ck_eq!(got, want.get(n).map(|v| (n.clone(), v.clone())), "get({n:?})");
    }
    let text: Vec<String> = w.iter().map(|(n, v)| format!("{}=\"{}\"", n, escape_label(v))).collect();
    ck_eq!(m.labels().to_string(), format!("{{{}}}", text.join(",")), "labels as text");
    Ok(())
}

fn run_label_ops(k: Kind, build: &[(String, String)], ops: &[LOp], probe: &[String], each: bool) -> std::result::Result<(), String> {
    let mut want = BTreeMap::new();
    let mut b = AnyBuilder::new(k, "m");
    for (n, v) in build {
        b.label(n, v);
        want.insert(n.clone(), v.clone());
    }
    let mut m = b.finish().map_err(|e| format!("build: {e}"))?;
    let other = m.clone();
    labels_agree(&m, &want, probe).map_err(|e| format!("after building: {e}"))?;
    for (i, o) in ops.iter().enumerate() {
        match o {
            LOp::Insert(n, v) => {
                m.labels_mut().insert(n, v).map_err(|e| format!("op {i}: {e}"))?;
                want.insert(n.clone(), v.clone());
            }
            LOp::Remove(n) => {
                m.labels_mut().remove(n);
                want.remove(n);
            }
            LOp::Clear => {
                m.labels_mut().clear();
                want.clear();
            }
        }
        if each || i + 1 == ops.len() {
            labels_agree(&m, &want, probe).map_err(|e| format!("after op {i}: {e}"))?;
        }
    }
    labels_agree(&other, &want, probe).map_err(|e| format!("another handle: {e}"))?;
    // a metric built again from the same builder starts from the builder's labels
    let again = b.finish().map_err(|e| format!("build again: {e}"))?;
    labels_agree(&again, &build.iter().cloned().collect(), probe).map_err(|e| format!("built again: {e}"))
}

pub fn c03(c: &mut Ctx) {
    let mut all = vec![LOp::Clear];
    for n in ["a", "b", "B", "ab"] {
        all.push(LOp::Remove(n.into()));
        for v in ["x", "", "a"] {
            all.push(LOp::Insert(n.into(), v.into()));
        }
    }
    let probe: Vec<String> = ["a", "b", "B", "ab", "", "aa", "A", "x", "abc"].iter().map(|s| s.to_string()).collect();
    let depth = if c.thorough { 4 } else { 3 };
    let mut seqs: Vec<Vec<LOp>> = vec![vec![]];
    for _ in 0..depth {
        let mut next = Vec::new();
        for s in &seqs {
            for o in &all {
                let mut t = s.clone();
                t.push(o.clone());
                next.push(t);
            }
        }
        for s in &next {
            let k = KINDS[s.len() % 4];
            c.case(format!("{k:?} {s:?}"), true, || run_label_ops(k, &[], s, &probe, false));
        }
        seqs = next;
    }
    while c.within(1.0) {
        let k = *c.rng.pick(&KINDS);
        let npool = size(c, 80).max(1);
        let mut pool: Vec<String> = Vec::new();
        let strs: Vec<String> = c.dict.strs.iter().filter(|s| good_label_name(s)).cloned().collect();
        for _ in 0..npool {
            let n = if !strs.is_empty() && c.rng.one_in(6) { c.rng.pick(&strs).clone() } else { valid_name(&mut c.rng) };
            if k.reserved() != Some(&n) {
                pool.push(n);
            }
        }
        if pool.is_empty() {
            pool.push("a".into());
        }
        let d = c.dict.strs.clone();
        let mut build = Vec::new();
        for _ in 0..size(c, 90) {
            build.push((c.rng.pick(&pool).clone(), any_string(&mut c.rng, &d)));
        }
        let mut ops = Vec::new();
        for _ in 0..size(c, 120) {
            let n = c.rng.pick(&pool).clone();
            ops.push(match c.rng.below(12) {
                0 => LOp::Clear,
                1..=3 => LOp::Remove(n),
                _ => LOp::Insert(n, any_string(&mut c.rng, &d)),
            });
        }
        let probe = pool.clone();
        c.case(format!("{k:?} built with {build:?}, then {ops:?}"), !build.is_empty() || !ops.is_empty(), || run_label_ops(k, &build, &ops, &probe, true));
    }
}

/// Reads `name="value"` pairs as the text format defines them, stopping at `}` or the end.
fn parse_labels(s: &str) -> std::result::Result<(Vec<(String, String)>, &str), String> {
    let mut out = Vec::new();
    let mut rest = s;
    loop {
        if rest.is_empty() || rest.starts_with('}') {
            return Ok((out, rest));
        }
        if !out.is_empty() {
            rest = rest.strip_prefix(',').ok_or_else(|| format!("no comma at {rest:?}"))?;
        }
        let i = rest.find("=\"").ok_or_else(|| format!("no =\" in {rest:?}"))?;
        let name = rest[..i].to_string();
        let mut v = String::new();
        let mut it = rest[i + 2..].char_indices();
        let mut end = None;
        while let Some((j, ch)) = it.next() {
            match ch {
                '"' => {
                    end = Some(i + 2 + j + 1);
                    break;
                }
                '\n' => return Err("raw line feed in a value".into()),
                '\\' => match it.next().map(|x| x.1) {
                    Some('\\') => v.push('\\'),
                    Some('"') => v.push('"'),
                    Some('n') => v.push('\n'),
                    o => return Err(format!("escape \\{o:?}")),
                },
                _ => v.push(ch),
            }
        }
        let end = end.ok_or("value not closed")?;
        out.push((name, v));
        rest = &rest[end..];
    }
}

fn check_escaped(k: Kind, labels: &[(String, String)], help: Option<&str>) -> std::result::Result<(), String> {
    let mut g = Gatherer::new();
    let mut b = AnyBuilder::new(k, "m");
    if let AnyBuilder::Summary(b) = &mut b {
        b.quantile(0.5).quantile(0.0);
    }
    if let AnyBuilder::Histogram(b) = &mut b {
        b.bucket(1.0);
    }
    for (n, v) in labels {
        b.label(n, v);
    }
    if let Some(h) = help {
        b.help(h);
    }
    b.registry(g.registry());
    let m = b.finish().map_err(|e| format!("build: {e}"))?;
    m.feed(0.5);
    let own = m.text();
    let gathered = g.gather().to_text();
    let want: BTreeMap<String, String> = labels.iter().cloned().collect();
    let want: Vec<_> = want.into_iter().collect();
    let enc: Vec<String> = want.iter().map(|(n, v)| format!("{}=\"{}\"", n, escape_label(v))).collect();
    for (what, text) in [("own text", &own), ("gathered text", &gathered)] {
        let mut helps = 0;
        let mut samples = 0;
        for line in text.split('\n') {
            if let Some(h) = line.strip_prefix("# HELP m ") {
                helps += 1;
                ck_eq!(Some(h.to_string()), help.map(escape_help), "{what}: HELP text");
                continue;
            }
            if line.starts_with('#') || line.is_empty() {
                continue;
            }
            samples += 1;
            if let Some(i) = line.find('{') {
                let (mut ls, rest) = parse_labels(&line[i + 1..]).map_err(|e| format!("{what}: {e} in {line:?}"))?;
                ck!(rest.starts_with("} "), "{what}: no end of labels in {line:?}");
                let mut raw = line[i + 1..line.len() - rest.len()].to_string();
                if let Some(r) = k.reserved() {
                    if ls.first().map_or(false, |l| l.0 == r) {
                        let l = ls.remove(0);
                        raw = raw[format!("{}=\"{}\"", l.0, l.1).len()..].trim_start_matches(',').to_string();
                    }
                }
                ck_eq!(ls, want, "{what}: decoded labels of {line:?}");
                ck_eq!(raw, enc.join(","), "{what}: escaped labels of {line:?}");
            } else {
                ck!(want.is_empty(), "{what}: no labels on {line:?}");
            }
        }
        let lines = match k {
            Kind::Counter | Kind::Gauge => 1,
            Kind::Summary | Kind::Histogram => 4,
        };
        ck_eq!(samples, lines, "{what}: number of sample lines of {text:?}");
        if what == "gathered text" {
            ck_eq!(helps, help.is_some() as usize, "{what}: number of HELP lines");
        }
    }
    Ok(())
}

pub fn c04(c: &mut Ctx) {
    let mut u = 0u32;
    while u < 0x110000 {
        let hi = (u + 0x2000).min(0x110000);
        c.evaluations += (hi - u) as u64 - 1;
        c.case(format!("label values with every character of U+{u:04X}..U+{hi:04X}"), true, || {
            for x in (u..hi).filter_map(char::from_u32) {
                let v = format!("{x}a{x}");
                let got = Label::new("n", &v).map_err(|e| e.to_string())?.to_string();
                ck_eq!(got, format!("n=\"{}\"", escape_label(&v)), "label with value {v:?}");
            }
            Ok(())
        });
        u = hi;
    }
    let alphabet = ['\\', '"', '\n', 'n', 'é', '\t'];
    let mut strs = vec![String::new()];
    let mut last = strs.clone();
    for _ in 0..if c.thorough { 5 } else { 4 } {
        last = last.iter().flat_map(|s| alphabet.iter().map(move |a| format!("{s}{a}"))).collect();
        strs.extend(last.clone());
    }
    for (i, s) in strs.iter().enumerate() {
        let k = KINDS[i % 4];
        c.case(format!("{k:?} label n={s:?}"), true, || check_escaped(k, &[("n".into(), s.clone())], None));
        if s.chars().count() <= 2 {
            for k in KINDS {
                c.case(format!("{k:?} help={s:?} label n={s:?}"), true, || check_escaped(k, &[("n".into(), s.clone())], Some(s)));
            }
        } else {
            c.case(format!("{k:?} help={s:?}"), true, || check_escaped(k, &[], Some(s)));
        }
    }
    let mut u = 0u32;
    while u < 0x110000 && c.within(0.9) {
        let hi = (u + 0x800).min(0x110000);
        let s: String = (u..hi).filter_map(char::from_u32).collect();
        for k in KINDS {
            c.case(format!("{k:?} label and help holding every character of U+{u:04X}..U+{hi:04X}"), true, || check_escaped(k, &[("n".into(), s.clone())], Some(&s)));
        }
        u = if u < 0x4000 { hi } else { hi + 0x8000 };
    }
    while c.within(1.0) {
        let k = *c.rng.pick(&KINDS);
        let d = c.dict.strs.clone();
        let mut ls = Vec::new();
        for _ in 0..size(c, 40) {
            let n = valid_name(&mut c.rng);
            if k.reserved() != Some(&n) {
                ls.push((n, any_string(&mut c.rng, &d)));
            }
        }
        let h = if c.rng.bool() { Some(any_string(&mut c.rng, &d)) } else { None };
        c.case(format!("{k:?} labels {ls:?} help {h:?}"), true, || check_escaped(k, &ls, h.as_deref()));
    }
}

#[derive(Clone, Debug)]
pub struct Spec {
    pub kind: Kind,
    pub ns: Option<String>,
    pub ss: Option<String>,
    pub name: String,
    pub help: Option<String>,
    pub labels: BTreeMap<String, String>,
    pub ts: Option<i64>,
    pub bounds: Vec<f64>,
    pub quantiles: Vec<f64>,
    pub values: Vec<f64>,
}
impl Spec {
    pub fn full(&self) -> String {
        [self.ns.as_deref(), self.ss.as_deref(), Some(&self.name)].into_iter().flatten().collect::<Vec<_>>().join("_")
    }
    pub fn build(&self, g: &Gatherer) -> std::result::Result<Any, String> {
        let mut b = AnyBuilder::new(self.kind, &self.name);
        if let Some(s) = &self.ns {
            b.namespace(s);
        }
        if let Some(s) = &self.ss {
            b.subsystem(s);
        }
        if let Some(s) = &self.help {
            b.help(s);
        }
        for (k, v) in &self.labels {
            b.label(k, v);
        }
        match &mut b {
            AnyBuilder::Histogram(b) => {
                b.buckets(self.bounds.clone());
            }
            AnyBuilder::Summary(b) => {
                for q in &self.quantiles {
                    b.quantile(*q);
                }
            }
            _ => {}
        }
        b.registry(g.registry());
        let m = b.finish().map_err(|e| format!("build: {e}"))?;
        for v in &self.values {
            match &m {
                Any::Gauge(g) => g.set(*v),
                m => m.feed(*v),
            }
        }
        if let Some(t) = self.ts {
            m.timestamp_mut().set(t);
        }
        Ok(m)
    }
    /// The text, from the values the metric reports.
    pub fn text(&self, m: &Any) -> String {
        let n = self.full();
        let ls: Vec<String> = self.labels.iter().map(|(n, v)| format!("{}=\"{}\"", n, escape_label(v))).collect();
        let set = if ls.is_empty() { String::new() } else { format!("{{{}}}", ls.join(",")) };
        let more: String = ls.iter().map(|l| format!(",{l}")).collect();
        let ts = self.ts.map(|t| format!(" {t}")).unwrap_or_default();
        match m {
            Any::Counter(m) => format!("{n}{set} {}{ts}", fmt_float(m.value())),
            Any::Gauge(m) => format!("{n}{set} {}{ts}", fmt_float(m.value())),
            Any::Histogram(m) => {
                let mut s = String::new();
                for b in m.cumulative_buckets() {
                    s += &format!("{n}_bucket{{le=\"{}\"{more}}} {}{ts}\n", fmt_float(b.upper_bound()), b.cumulative_count());
                }
                s + &format!("{n}_sum{set} {}{ts}\n{n}_count{set} {}{ts}", fmt_float(m.sum()), m.count())
            }
            Any::Summary(m) => {
                let mut s = String::new();
                for (q, v) in m.quantiles() {
                    s += &format!("{n}{{quantile=\"{}\"{more}}} {}{ts}\n", q.as_f64(), fmt_float(v));
                }
                s + &format!("{n}_sum{set} {}{ts}\n{n}_count{set} {}{ts}", fmt_float(m.sum()), m.count())
            }
        }
    }
    pub fn head(&self) -> String {
        let n = self.full();
        let h = self.help.as_ref().map(|h| format!("# HELP {n} {}\n", escape_help(h))).unwrap_or_default();
        format!("{h}# TYPE {n} {}\n", self.kind.text())
    }
}
fn aggregated_text(s: &Spec, f: &MetricFamily) -> std::result::Result<Vec<String>, String> {
    let n = s.full();
    let ls: Vec<String> = s.labels.iter().map(|(n, v)| format!("{}=\"{}\"", n, escape_label(v))).collect();
    let set = if ls.is_empty() { String::new() } else { format!("{{{}}}", ls.join(",")) };
    let more: String = ls.iter().map(|l| format!(",{l}")).collect();
    let t = |t: Option<i64>| t.map(|t| format!(" {t}")).unwrap_or_default();
    Ok(match f.metrics() {
        Metrics::Counter(v) => v.iter().map(|m| format!("{n}{set} {}{}", fmt_float(m.value()), t(m.timestamp().get()))).collect(),
        Metrics::Gauge(v) => v.iter().map(|m| format!("{n}{set} {}{}", fmt_float(m.value()), t(m.timestamp().get()))).collect(),
        Metrics::Histogram(v) => v
            .iter()
            .map(|m| {
                let ts = t(m.timestamp().get());
                let mut s = String::new();
                for b in m.cumulative_buckets().take(10_000) {
                    s += &format!("{n}_bucket{{le=\"{}\"{more}}} {}{ts}\n", fmt_float(b.upper_bound()), b.cumulative_count());
                }
                s + &format!("{n}_sum{set} {}{ts}\n{n}_count{set} {}{ts}", fmt_float(m.sum()), m.count())
            })
            .collect(),
        Metrics::Summary(v) => v
            .iter()
            .map(|m| {
                let ts = t(m.timestamp().get());
                let mut s = String::new();
                for (q, v) in m.quantiles() {
                    s += &format!("{n}{{quantile=\"{}\"{more}}} {}{ts}\n", q.as_f64(), fmt_float(v));
                }
                s + &format!("{n}_sum{set} {}{ts}\n{n}_count{set} {}{ts}", fmt_float(m.sum()), m.count())
            })
            .collect(),
    })
}

pub fn rand_spec(c: &mut Ctx, k: Kind) -> Spec {
    let d = c.dict.strs.clone();
    let fd = c.dict.floats.clone();
    let mut labels = BTreeMap::new();
    for _ in 0..size(c, 12) {
        let n = valid_name(&mut c.rng);
        if k.reserved() != Some(&n) {
            labels.insert(n, any_string(&mut c.rng, &d));
        }
    }
    let nb = size(c, 40);
    let nq = size(c, 20);
    let nv = size(c, 60);
    let r = &mut c.rng;
    Spec {
        kind: k,
        ns: if r.one_in(3) { Some(valid_name(r)) } else { None },
        ss: if r.one_in(3) { Some(valid_name(r)) } else { None },
        name: valid_name(r),
        help: if r.bool() { Some(any_string(r, &d)) } else { None },
        labels,
        ts: if r.bool() { Some(*r.pick(&[0, 1, -1, 1234567890123, i64::MAX, i64::MIN + 1, -5, 999, 1000, 1 << 53])) } else { None },
        bounds: (0..nb).map(|_| number(r, &fd)).collect(),
        quantiles: (0..nq).map(|_| *r.pick(&[0.0, 0.5, 0.9, 0.99, 1.0, 0.25, 0.75, 1e-9, 0.1])).collect(),
        values: (0..nv).map(|_| if k == Kind::Histogram { number(r, &fd) } else { float(r, &fd) }).collect(),
    }
}

pub fn c05(c: &mut Ctx) {
    let one = |s: &Spec, copies: usize| -> std::result::Result<(), String> {
        let mut g = Gatherer::new();
        let m = s.build(&g)?;
        ck_eq!(m.text(), s.text(&m), "text of the metric");
        let mut keep = vec![];
        for _ in 0..copies {
            keep.push(s.build(&g)?);
        }
        let fs = g.gather();
        ck_eq!(fs.as_ref().len(), 1, "families");
        let f = &fs.as_ref()[0];
        let body = aggregated_text(s, f)?;
        ck_eq!(body.len(), 1, "entries");
        let fam = format!("{}{}\n", s.head(), body[0]);
        ck_eq!(f.to_string(), fam, "text of the family");
        ck_eq!(fs.to_text(), fam, "gathered text");
        let mut qs = s.quantiles.clone();
        qs.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let repeated = qs.windows(2).any(|w| w[0] == w[1]);
        if copies == 0 && !repeated {
            ck_eq!(body[0], s.text(&m), "the aggregation of one metric shows what the metric shows");
        }
        // lines: as many buckets / quantiles as reported, finite text, one line feed at the end
        ck!(fam.ends_with('\n') && !fam.ends_with("\n\n"), "line structure");
        Ok(())
    };
    for v in special_floats() {
        for k in KINDS {
            for ts in [None, Some(0), Some(-1), Some(i64::MAX), Some(i64::MIN + 1), Some(1_500_000_000_123)] {
                let s = Spec {
                    kind: k,
                    ns: None,
                    ss: None,
                    name: "m".into(),
                    help: None,
                    labels: if ts == Some(0) { [("a".to_string(), "b".to_string())].into() } else { BTreeMap::new() },
                    ts,
                    bounds: if v.is_nan() { vec![] } else { vec![v] },
                    quantiles: vec![0.5, 1.0],
                    values: if v.is_nan() && k == Kind::Histogram { vec![] } else { vec![v] },
                };
                c.case(format!("{s:?}"), true, || one(&s, 0));
            }
        }
    }
    while c.within(1.0) {
        let k = *c.rng.pick(&KINDS);
        let s = rand_spec(c, k);
        let copies = if c.rng.bool() { 0 } else { c.rng.below(4) };
        c.case(format!("{copies} copies besides {s:?}"), true, || one(&s, copies));
        // several families one after the other
        if c.rng.one_in(5) {
            let mut specs = vec![];
            for _ in 0..c.rng.below(6) {
                let k = *c.rng.pick(&KINDS);
                let mut s = rand_spec(c, k);
                s.quantiles.sort_by(|a, b| a.partial_cmp(b).unwrap());
                s.quantiles.dedup();
                specs.push(s);
            }
            c.case(format!("families {specs:?}"), specs.len() > 1, || {
                let mut g = Gatherer::new();
                let mut ms = vec![];
                for s in &specs {
                    ms.push(s.build(&g)?);
                }
                let fs = g.gather();
                let text = fs.to_text();
                let cat: String = fs.as_ref().iter().map(|f| f.to_string()).collect();
                ck_eq!(text, cat, "to_text is the families' texts one after the other");
                for (s, m) in specs.iter().zip(&ms) {
                    if specs.iter().filter(|x| x.full() == s.full()).count() == 1 {
                        let want = format!("{}{}\n", s.head(), s.text(m));
                        ck!(text.contains(&want), "{want:?} is missing in {text:?}");
                    }
                }
                Ok(())
            });
        }
    }
}
