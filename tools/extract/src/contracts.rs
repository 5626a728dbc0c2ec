//! The contract files: directives `//@ ...` followed by raw Verus text.
use std::collections::BTreeMap;

#[derive(Clone, Default, Debug)]
pub struct LoopC {
    pub kind: String,
    pub inv: String,
    pub pre: String,
    pub body: String,
    pub end: String,
    pub post: String,
}
#[derive(Clone, Default, Debug)]
pub struct ClosureC {
    pub req: String,
    pub cmp: String,
    pub entry: String,
}
#[derive(Clone, Default, Debug)]
pub struct FnC {
    pub path: String,
    pub params: Option<Vec<String>>,
    pub props: Vec<String>,
    pub trusted: bool,
    pub inline: bool,
    /// leave string literals longer than one character opaque
    pub short: bool,
    pub attrs: String,
    pub spec: String,
    pub panics: String,
    /// the first statements (`hide`)
    pub head: String,
    pub entry: String,
    pub exit: String,
    pub loops: BTreeMap<usize, LoopC>,
    pub closures: BTreeMap<usize, ClosureC>,
    pub before: BTreeMap<usize, String>,
    /// proof text around the K-th call of a kind: "sort 0", "sorted 0", ...
    pub at: BTreeMap<String, String>,
}
#[derive(Default)]
pub struct Contracts {
    pub fns: BTreeMap<String, FnC>,
    pub spec: String,
    pub prelude: String,
}
/// the names of the locals when the contract was written, and the shape of the loops
pub fn baseline(dir: &str) -> BTreeMap<String, (String, Vec<String>)> {
    let s = std::fs::read_to_string(format!("{}/shapes.tsv", dir)).unwrap_or_default();
    s.lines()
        .filter_map(|l| {
            let v: Vec<&str> = l.split('\t').collect();
            if v.len() == 3 { Some((v[0].to_string(), (v[1].to_string(), v[2].split(' ').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()))) } else { None }
        })
        .collect()
}
fn reword(s: &str, m: &BTreeMap<String, String>) -> String {
    let id = |c: char| c.is_alphanumeric() || c == '_';
    let mut o = String::new();
    let mut cur = String::new();
    let mut dot = false; // a field or method name
    let mut last = ' ';
    for c in s.chars().chain(std::iter::once('\n')) {
        if id(c) {
            if cur.is_empty() {
                dot = last == '.';
            }
            cur.push(c);
        } else {
            if !cur.is_empty() {
                match m.get(&cur) {
                    Some(n) if !dot => o.push_str(n),
                    _ => o.push_str(&cur),
                }
                cur.clear();
            }
            o.push(c);
        }
        last = c;
    }
    o.pop();
    o
}
impl FnC {
    /// the same contract for a body whose locals were renamed
    pub fn renamed(&self, was: &[String], now: &[String]) -> FnC {
        let mut f = self.clone();
        if was.len() != now.len() || was == now {
            return f;
        }
        let mut m = BTreeMap::new();
        for (a, b) in was.iter().zip(now) {
            if a != b && !now.contains(a) && !was.contains(b) {
                if let Some(x) = m.insert(a.clone(), b.clone()) {
                    if x != *b {
                        return f;
                    }
                }
            }
        }
        let r = |s: &mut String| *s = reword(s, &m);
        r(&mut f.head);
        r(&mut f.entry);
        r(&mut f.exit);
        for l in f.loops.values_mut() {
            r(&mut l.inv);
            r(&mut l.pre);
            r(&mut l.body);
            r(&mut l.end);
            r(&mut l.post);
        }
        for c in f.closures.values_mut() {
            r(&mut c.req);
            r(&mut c.cmp);
            r(&mut c.entry);
        }
        for t in f.at.values_mut() {
            r(t);
        }
        f
    }
}
pub fn load(dir: &str) -> Contracts {
    let mut c = Contracts::default();
    let mut files: Vec<_> = std::fs::read_dir(dir).expect("contracts").filter_map(|e| e.ok()).map(|e| e.path()).collect();
    files.sort();
    for f in files {
        let name = f.file_name().unwrap().to_string_lossy().to_string();
        let src = std::fs::read_to_string(&f).unwrap();
        if name.ends_with(".rs") {
            c.prelude.push_str(&src);
            continue;
        }
        if !name.ends_with(".vc") {
            continue;
        }
        let mut cur: Option<FnC> = None;
        let mut sink: Vec<String> = vec!["ignore".into()];
        for l in src.lines() {
            if let Some(d) = l.trim_start().strip_prefix("//@ ") {
                let w: Vec<&str> = d.split_whitespace().collect();
                match w[0] {
                    "spec" => {
                        if let Some(f) = cur.take() {
                            c.fns.insert(f.path.clone(), f);
                        }
                        sink = vec!["spec".into()];
                    }
                    "fn" => {
                        if let Some(f) = cur.take() {
                            c.fns.insert(f.path.clone(), f);
                        }
                        let mut f = FnC::default();
                        let rest = d[2..].trim();
                        let (head, tail) = match rest.find('(') {
                            Some(i) => {
                                let j = rest.find(')').unwrap();
                                f.params = Some(rest[i + 1..j].split(',').map(|s| s.trim().to_string()).filter(|s| !s.is_empty()).collect());
                                (rest[..i].trim(), &rest[j + 1..])
                            }
                            None => {
                                let i = rest.find(' ').unwrap_or(rest.len());
                                (&rest[..i], &rest[i..])
                            }
                        };
                        f.path = head.to_string();
                        for t in tail.split_whitespace() {
                            if let Some(p) = t.strip_prefix("props=") {
                                f.props = p.split(',').map(|s| s.to_string()).collect();
                            } else if t == "trusted" {
                                f.trusted = true
                            } else if t == "inline" {
                                f.inline = true
                            } else if t == "short" {
                                f.short = true
                            } else if let Some(a) = t.strip_prefix("attr=") {
                                f.attrs.push_str(a);
                                f.attrs.push('\n');
                            }
                        }
                        cur = Some(f);
                        sink = vec!["fnspec".into()];
                    }
                    "panics" => {
                        if let Some(f) = cur.as_mut() {
                            f.panics = d[6..].trim().to_string();
                        }
                        sink = vec!["ignore".into()];
                    }
                    "closure" => {
                        let k: usize = w[1].parse().unwrap();
                        sink = vec!["closure".into(), k.to_string(), w[2].to_string()];
                        let at = d.find(w[2]).unwrap() + w[2].len();
                        let t = d[at..].trim();
                        if let Some(f) = cur.as_mut() {
                            let cc = f.closures.entry(k).or_default();
                            match w[2] {
                                "req" => cc.req = t.to_string(),
                                "cmp" => cc.cmp = t.to_string(),
                                _ => {}
                            }
                        }
                    }
                    "loop" => {
                        let k: usize = w[1].parse().unwrap();
                        let part = w.get(2).copied().unwrap_or("any");
                        if let Some(f) = cur.as_mut() {
                            let lc = f.loops.entry(k).or_default();
                            match part {
                                "pre" | "body" | "end" | "post" => sink = vec!["loop".into(), k.to_string(), part.to_string()],
                                kind => {
                                    lc.kind = kind.to_string();
                                    sink = vec!["loop".into(), k.to_string(), "inv".into()];
                                }
                            }
                        }
                    }
                    "sort" | "sorted" | "dedup" | "deduped" | "search" | "searched" => sink = vec!["at".into(), format!("{} {}", w[0], w[1])],
                    "before" => sink = vec!["before".into(), w[1].to_string()],
                    "entry" | "exit" | "head" => sink = vec![w[0].to_string()],
                    "note" => {}
                    x => panic!("unknown directive {} in {}", x, name),
                }
                continue;
            }
            let line = format!("{}\n", l);
            match sink[0].as_str() {
                "spec" => c.spec.push_str(&line),
                "ignore" => {}
                s => {
                    let f = cur.as_mut().unwrap();
                    match s {
                        "fnspec" => f.spec.push_str(&line),
                        "entry" => f.entry.push_str(&line),
                        "exit" => f.exit.push_str(&line),
                        "head" => f.head.push_str(&line),
                        "at" => f.at.entry(sink[1].clone()).or_default().push_str(&line),
                        "before" => f.before.entry(sink[1].parse().unwrap()).or_default().push_str(&line),
                        "closure" => {
                            let cc = f.closures.entry(sink[1].parse().unwrap()).or_default();
                            match sink[2].as_str() {
                                "req" => cc.req.push_str(&line),
                                "cmp" => cc.cmp.push_str(&line),
                                _ => cc.entry.push_str(&line),
                            }
                        }
                        "loop" => {
                            let lc = f.loops.entry(sink[1].parse().unwrap()).or_default();
                            match sink[2].as_str() {
                                "inv" => lc.inv.push_str(&line),
                                "pre" => lc.pre.push_str(&line),
                                "body" => lc.body.push_str(&line),
                                "end" => lc.end.push_str(&line),
                                _ => lc.post.push_str(&line),
                            }
                        }
                        _ => {}
                    }
                }
            }
        }
        if let Some(f) = cur.take() {
            c.fns.insert(f.path.clone(), f);
        }
    }
    c
}
