//! pmx-extract: the verified text is produced from /repo's current source on every run.
//!
//! usage: pmx-extract REPO TYPES CONTRACTS PROPERTY OUT.rs OUT.map [quarantined,functions]
mod contracts;
mod flow;
mod krate;
mod tr;
use contracts::*;
use krate::*;
use std::collections::{BTreeMap, BTreeSet, HashMap};
use syn::*;
use tr::*;

fn ts<T: quote::ToTokens>(t: &T) -> String {
    quote::quote!(#t).to_string()
}
struct Done {
    sig: String,     // text before the contract (with a world marker)
    head: String,    // impl header or ""
    body: String,
    helpers: Vec<String>,
    calls: BTreeSet<String>,
    inlined: BTreeSet<String>,
    reason: Option<String>,
    shape: String,
}
fn base_cx(f: &FnInfo) -> Cx {
    Cx {
        m: f.module,
        suf: String::new(),
        self_: "self".into(),
        self_ty: f.self_ty.clone(),
        assoc: f.assoc.clone(),
        hof: HashMap::new(),
        closure: false,
        tail: false,
        rb: 0,
        tries: HashMap::new(),
        depth: 0,
        stack: vec![f.path.clone()],
        ty_params: HashMap::new(),
    }
}
fn bounds(f: &FnInfo, id: &str) -> String {
    let mut o = String::new();
    for g in &f.generics {
        for p in g.type_params() {
            if p.ident == id {
                o.push_str(&p.bounds.iter().map(|b| ts(b)).collect::<Vec<_>>().join(" + "));
            }
        }
        if let Some(w) = &g.where_clause {
            for p in &w.predicates {
                if let WherePredicate::Type(t) = p {
                    if ts(&t.bounded_ty) == id {
                        o.push(' ');
                        o.push_str(&ts(&t.bounds));
                    }
                }
            }
        }
    }
    o
}
fn lifetimes(g: &Generics) -> Vec<String> {
    g.lifetimes().map(|l| ts(&l.lifetime)).collect()
}
fn translate(k: &Krate, c: &Contracts, fc: &FnC) -> Done {
    let fi = &k.fns[&fc.path];
    let mut t = Tr {
        k,
        c,
        fc: fc.clone(),
        fname: fc.path.clone(),
        nloop: 0, nat: BTreeMap::new(),
        ntmp: 0,
        nclo: 0,
        helpers: vec![],
        calls: BTreeSet::new(),
        loops_seen: vec![], shapes: BTreeMap::new(),
        inlined: BTreeSet::new(),
        strs: BTreeSet::new(),
    };
    let mut cx = base_cx(fi);
    let mut gens: Vec<String> = lifetimes(&fi.sig.generics);
    for p in fi.sig.generics.type_params() {
        let b = bounds(fi, &p.ident.to_string());
        let id = p.ident.to_string();
        if b.contains("Fn") {
            continue; // handled with the parameter
        } else if b.contains("IntoIterator") && b.contains("Item = f64") {
            cx.ty_params.insert(id, "Vec<F64>".into());
        } else if b.contains("Collect") {
            cx.ty_params.insert(id, "UserCollector".into());
        } else {
            cx.ty_params.insert(id.clone(), id.clone());
            gens.push(id);
        }
    }
    let mut reason: Option<String> = None;
    let mut params: Vec<String> = vec![];
    let mut pre = String::new();
    let mut names = fc.params.clone().unwrap_or_default().into_iter();
    for p in &fi.sig.inputs {
        match p {
            FnArg::Receiver(r) => params.push(match (&r.reference, r.mutability.is_some()) {
                (Some(_), true) => "&mut self".into(),
                (Some((_, Some(l))), false) => format!("&{} self", l),
                (Some(_), false) => "&self".into(),
                (None, true) => {
                    reason = Some("mut self".into());
                    "self".into()
                }
                (None, false) => "self".into(),
            }),
            FnArg::Typed(pt) => {
                let (id, mu) = match &*pt.pat {
                    Pat::Ident(i) => (i.ident.to_string(), i.mutability.is_some()),
                    _ => {
                        reason = Some("parameter pattern".into());
                        ("_p".into(), false)
                    }
                };
                let nm = names.next().unwrap_or_else(|| id.clone());
                let tys = ts(&pt.ty);
                let ty = if fn_param(fi, &tys) {
                    let b = bounds(fi, &tys);
                    let b = b.replace(' ', "");
                    if let Some(r) = b.split("FnOnce()->").nth(1) {
                        cx.ty_params.insert(format!("fn:{}", id), "work".into());
                        format!("Work<{}>", r)
                    } else {
                        reason = Some(format!("closure parameter {}", tys));
                        "Opaque".into()
                    }
                } else {
                    match t.map_ty(&cx, &pt.ty) {
                        Ok(s) => s,
                        Err(e) => {
                            reason = Some(e);
                            "Opaque".into()
                        }
                    }
                };
                params.push(format!("{}: {}", nm, ty));
                if nm != id || mu {
                    pre.push_str(&format!("let {}{} = {};\n", if mu { "mut " } else { "" }, id, nm));
                }
            }
        }
    }
    if fc.params.as_ref().map_or(false, |p| p.len() != params.iter().filter(|p| !p.ends_with("self")).count()) {
        reason = Some("the number of parameters changed".into());
    }
    let ret = match &fi.sig.output {
        ReturnType::Default => String::new(),
        ReturnType::Type(_, ty) => match t.map_ty(&cx, ty) {
            Ok(s) => format!(" -> (r: {})", s),
            Err(e) => {
                reason = Some(e);
                " -> (r: Opaque)".into()
            }
        },
    };
    let g = if gens.is_empty() { String::new() } else { format!("<{}>", gens.join(", ")) };
    let name = fc.path.rsplit("::").next().unwrap().to_string();
    let sig = format!("pub fn {}{}({}{}){}", name, g, params.join(", "), wmark(&fc.path, params.is_empty()), ret);
    let head = match &fi.self_ty {
        Some(st) => {
            let lt = lifetimes(&fi.generics[0]);
            let l = if lt.is_empty() { String::new() } else { format!("<{}>", lt.join(", ")) };
            match t.map_ty(&cx, st) {
                Ok(s) => format!("impl{} {} {{\n", l, s),
                Err(e) => {
                    reason = Some(e);
                    String::new()
                }
            }
        }
        None => String::new(),
    };
    let mut body = String::new();
    if reason.is_none() && !fc.trusted {
        match t.stmts(&fi.block.stmts, &cx, Some(fc)) {
            Ok(b) => {
                let mut lits = String::new();
                for s in &t.strs {
                    if fc.short && s.chars().count() > 1 { continue; }
                    let cs: Vec<String> = s.chars().map(|c| format!("{:?}", c)).collect();
                    lits.push_str(&format!("proof {{ reveal_strlit({:?}); assert({:?}@ =~= Seq::<char>::empty(){}); }}\n", s, s, cs.iter().map(|c| format!(".push({})", c)).collect::<String>()));
                }
                let vac = if std::env::var("PMX_VACUITY").is_ok() { "proof { assert(false); }\n" } else { "" };
                body = format!("{}{}{}{}{}{}", fc.head, pre, lits, fc.entry, vac, b)
            }
            Err(e) => reason = Some(e),
        }
        if reason.is_none() {
            for (i, l) in &fc.loops {
                match t.loops_seen.get(*i) {
                    None => reason = Some(format!("loop {} of the contract is gone", i)),
                    Some(s) => {
                        if !l.kind.is_empty() && l.kind != "any" && !l.kind.split('|').any(|x| x == s) {
                            reason = Some(format!("loop {} is a {} loop, the contract has a {} loop", i, s, l.kind));
                        }
                    }
                }
            }
            if reason.is_none() && t.loops_seen.len() > fc.loops.len() {
                reason = Some(format!("{} loops, the contract covers {}", t.loops_seen.len(), fc.loops.len()));
            }
            if reason.is_none() && t.nclo < fc.closures.len() {
                reason = Some("a closure of the contract is gone".into());
            }
        }
    }
    let shape = t.loops_seen.iter().enumerate().map(|(i, s)| t.shapes.get(&i).unwrap_or(s).replace([' ', '\t'], "")).collect::<Vec<_>>().join(" ");
    Done { sig, head, body, helpers: t.helpers, calls: t.calls, inlined: t.inlined, reason, shape }
}
/// replace world markers; `need` says whether a callee takes the world
fn subst(s: &str, need: &dyn Fn(&str) -> bool, decl: bool) -> String {
    let mut o = String::new();
    let mut it = s.chars();
    while let Some(ch) = it.next() {
        if ch == '\u{1}' {
            let mode = it.next().unwrap();
            let mut name = String::new();
            for c in it.by_ref() {
                if c == '\u{2}' {
                    break;
                }
                name.push(c);
            }
            if need(&name) {
                let sep = if mode == 'c' { ", " } else { "" };
                o.push_str(sep);
                o.push_str(if decl { "Tracked(w): Tracked<&mut World>" } else { "Tracked(w)" });
            }
        } else {
            o.push(ch);
        }
    }
    o
}
fn markers(s: &str) -> BTreeSet<String> {
    let mut v = BTreeSet::new();
    for p in s.split('\u{1}').skip(1) {
        if let Some(i) = p.find('\u{2}') {
            v.insert(p[1..i].to_string());
        }
    }
    v
}
fn mentions_w(s: &str) -> bool {
    let b: Vec<char> = s.chars().collect();
    let id = |c: char| c.is_alphanumeric() || c == '_';
    (0..b.len()).any(|i| b[i] == 'w' && (i == 0 || !id(b[i - 1])) && (i + 1 == b.len() || !id(b[i + 1])))
}
fn rank_spec(variants: &[String], ty: &str, x: &str) -> String {
    let mut o = format!("(match {} {{ ", x);
    for (i, v) in variants.iter().enumerate() {
        o.push_str(&format!("{}::{} => {}int, ", ty, v, i));
    }
    o.push_str("})");
    o
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let k = Krate::load(&a[1], &a[2]);
    let c = contracts::load(&a[3]);
    let prop = a[4].clone();
    let base = contracts::baseline(&a[3]);
    let quarantined: BTreeSet<String> = a.get(7).map(|s| s.split(',').filter(|x| !x.is_empty()).map(|x| x.to_string()).collect()).unwrap_or_default();
    let mut done: BTreeMap<String, Done> = BTreeMap::new();
    let mut missing: Vec<String> = vec![];
    for (p, fc) in &c.fns {
        if fc.inline {
            continue;
        }
        if !k.fns.contains_key(p) {
            missing.push(p.clone());
            continue;
        }
        let now = flow::locals(&k.fns[p].block);
        let fc = match base.get(p) {
            Some((_, was)) => fc.renamed(was, &now),
            None => fc.clone(),
        };
        done.insert(p.clone(), translate(&k, &c, &fc));
    }
    // which functions take the world
    let mut need: BTreeSet<String> = BTreeSet::new();
    for (p, d) in &done {
        let fc = &c.fns[p];
        let all: String = format!("{}{}", fc.spec, fc.panics);
        let m = markers(&d.body);
        if mentions_w(&all) || ((d.reason.is_none()) && (m.contains("!"))) || (d.reason.is_none() && d.helpers.iter().any(|h| markers(h).contains("!"))) {
            need.insert(p.clone());
        }
    }
    loop {
        let n = need.len();
        for (p, d) in &done {
            if d.reason.is_some() || c.fns[p].trusted {
                continue;
            }
            let mut ms = markers(&d.body);
            for h in &d.helpers {
                ms.extend(markers(h));
            }
            if ms.iter().any(|x| need.contains(x)) {
                need.insert(p.clone());
            }
        }
        if need.len() == n {
            break;
        }
    }
    // ------------------------------------------------------------ emission
    let mut mods: BTreeMap<Vec<String>, String> = BTreeMap::new();
    let mut undecided: Vec<(String, String)> = vec![];
    let mut verified: Vec<String> = vec![];
    let mut assumed: Vec<String> = vec![];
    let mut trusted: Vec<String> = vec![];
    let mut opaque: Vec<String> = vec![];
    let mut opaque2: Vec<String> = vec![];
    let dummy = |m: usize| Cx { m, suf: String::new(), self_: "self".into(), self_ty: None, assoc: HashMap::new(), hof: HashMap::new(), closure: false, tail: false, rb: 0, tries: HashMap::new(), depth: 0, stack: vec![], ty_params: HashMap::new() };
    let mk = |k: &Krate| -> FnC { let _ = k; FnC::default() };
    for (mi, m) in k.modules.iter().enumerate() {
        let o = mods.entry(m.path.clone()).or_default();
        let mp = |n: &str| {
            let mut v = vec!["crate".to_string()];
            v.extend(m.path.clone());
            v.push(n.to_string());
            v.join("::")
        };
        let mut t = Tr { k: &k, c: &c, fc: mk(&k), fname: String::new(), nloop: 0, nat: BTreeMap::new(), ntmp: 0, nclo: 0, helpers: vec![], calls: BTreeSet::new(), loops_seen: vec![], shapes: BTreeMap::new(), inlined: BTreeSet::new(), strs: BTreeSet::new() };
        let cx = dummy(mi);
        let mut fty = |t: &mut Tr, ty: &Type, w: &str| match t.map_ty(&cx, ty) {
            Ok(s) => s,
            Err(e) => {
                opaque.push(format!("{}: {}", w, e));
                "Opaque".to_string()
            }
        };
        for it in &m.items {
            match it {
                Item::Struct(s) => {
                    let n = s.ident.to_string();
                    let full = mp(&n);
                    let d = k.derives.get(&full["crate::".len()..]).cloned().unwrap_or_default();
                    if full == "crate::error::Error" {
                        continue;
                    }
                    let lts = lifetimes(&s.generics);
                    let g = if lts.is_empty() { String::new() } else { format!("<{}>", lts.join(", ")) };
                    if d.iter().any(|x| x == "Copy") {
                        o.push_str("#[derive(Clone, Copy)]\n");
                    }
                    let mut fs: Vec<String> = vec![];
                    match &s.fields {
                        Fields::Named(f) => {
                            o.push_str(&format!("pub struct {}{} {{\n", n, g));
                            for x in &f.named {
                                let id = x.ident.as_ref().unwrap().to_string();
                                o.push_str(&format!("pub {}: {},\n", id, fty(&mut t, &x.ty, &format!("{}.{}", full, id))));
                                fs.push(id);
                            }
                            o.push_str("}\n");
                        }
                        Fields::Unnamed(f) => {
                            let v: Vec<String> = f.unnamed.iter().enumerate().map(|(i, x)| format!("pub {}", fty(&mut t, &x.ty, &format!("{}.{}", full, i)))).collect();
                            for i in 0..v.len() {
                                fs.push(i.to_string());
                            }
                            o.push_str(&format!("pub struct {}{}({});\n", n, g, v.join(", ")));
                        }
                        Fields::Unit => o.push_str(&format!("pub struct {};\n", n)),
                    }
                    if !lts.is_empty() {
                        continue;
                    }
                    if d.iter().any(|x| x == "PartialEq") {
                        let e: Vec<String> = fs.iter().map(|f| format!("self.{}.deq(&o.{})", f, f)).collect();
                        o.push_str(&format!("impl PEq for {} {{ open spec fn deq(&self, o: &Self) -> bool {{ {} }} }}\n", n, e.join(" && ")));
                    }
                    if d.iter().any(|x| x == "Ord") {
                        let mut e = String::from("0int");
                        for f in fs.iter().rev() {
                            e = format!("{{ let c = self.{}.dcmp(&o.{}); if c != 0 {{ c }} else {{ {} }} }}", f, f, e);
                        }
                        o.push_str(&format!("impl POrd for {} {{ open spec fn dcmp(&self, o: &Self) -> int {{ {} }} }}\n", n, e));
                    }
                    if d.iter().any(|x| x == "PartialOrd") && fs.len() == 1 {
                        o.push_str(&format!("impl PPOrd for {} {{ open spec fn dpcmp(&self, o: &Self) -> Option<int> {{ self.{}.dpcmp(&o.{}) }} }}\n", n, fs[0], fs[0]));
                    }
                }
                Item::Enum(s) => {
                    let n = s.ident.to_string();
                    let full = mp(&n);
                    let d = k.derives.get(&full["crate::".len()..]).cloned().unwrap_or_default();
                    if d.iter().any(|x| x == "Copy") {
                        o.push_str("#[derive(Clone, Copy)]\n");
                    }
                    o.push_str(&format!("pub enum {} {{\n", n));
                    let mut plain = true;
                    let mut vs = vec![];
                    for v in &s.variants {
                        vs.push(v.ident.to_string());
                        match &v.fields {
                            Fields::Unit => o.push_str(&format!("{},\n", v.ident)),
                            Fields::Unnamed(f) => {
                                plain = false;
                                let x: Vec<String> = f.unnamed.iter().map(|x| fty(&mut t, &x.ty, &format!("{}::{}", full, v.ident))).collect();
                                o.push_str(&format!("{}({}),\n", v.ident, x.join(", ")));
                            }
                            Fields::Named(f) => {
                                plain = false;
                                let x: Vec<String> = f.named.iter().map(|x| format!("{}: {}", x.ident.as_ref().unwrap(), fty(&mut t, &x.ty, &full))).collect();
                                o.push_str(&format!("{} {{ {} }},\n", v.ident, x.join(", ")));
                            }
                        }
                    }
                    o.push_str("}\n");
                    if plain && d.iter().any(|x| x == "PartialEq") {
                        o.push_str(&format!("impl PEq for {} {{ open spec fn deq(&self, o: &Self) -> bool {{ *self == *o }} }}\n", n));
                    }
                    if plain && d.iter().any(|x| x == "Ord") {
                        o.push_str(&format!("impl {} {{ pub open spec fn rank(&self) -> int {{ {} }} }}\n", n, rank_spec(&vs, &n, "*self")));
                        o.push_str(&format!("impl POrd for {} {{ open spec fn dcmp(&self, o: &Self) -> int {{ int_cmp(self.rank(), o.rank()) }} }}\n", n));
                    }
                }
                Item::Const(s) => {
                    let ty = fty(&mut t, &s.ty, &mp(&s.ident.to_string()));
                    match t.expr(&s.expr, &cx) {
                        Ok(e) => o.push_str(&format!("pub const {}: {} = {};\n", s.ident, ty, e)),
                        Err(e) => opaque2.push(format!("constant {}: {}", s.ident, e)),
                    }
                }
                _ => {}
            }
        }
    }
    opaque.extend(opaque2);
    for (p, d) in &done {
        let fc = &c.fns[p];
        let mine = fc.props.is_empty() || fc.props.iter().any(|x| *x == prop) || prop == "ALL";
        let q = quarantined.contains(p);
        let mut ext = false;
        if fc.trusted {
            ext = true;
            trusted.push(p.clone());
        } else if let Some(r) = &d.reason {
            ext = true;
            if mine {
                undecided.push((p.clone(), r.clone()));
            }
        } else if q {
            ext = true;
            undecided.push((p.clone(), "the verifier rejects the extracted text".into()));
        } else if !mine {
            ext = true;
            assumed.push(p.clone());
        } else {
            verified.push(p.clone());
        }
        let fi = &k.fns[p];
        let m = &k.modules[fi.module];
        let o = mods.entry(m.path.clone()).or_default();
        let isneed = |n: &str| n == "!" || need.contains(n) || (n == "!?" && need.contains(p));
        o.push_str(&format!("// @fn {}\n", p));
        if !ext {
            for h in &d.helpers {
                let (sig, body) = match h.find("{\n") {
                    Some(i) => h.split_at(i),
                    None => (h.as_str(), ""),
                };
                let _ = body;
                // the signature runs to the first line which is just `{`
                let at = h.find("\n{\n").map(|i| i + 1).unwrap_or(sig.len());
                let (sg, bd) = h.split_at(at);
                let (first, rest) = match sg.find("-> (r:") {
                    Some(i) => sg.split_at(i),
                    None => (sg, ""),
                };
                o.push_str("#[verifier::exec_allows_no_decreases_clause]\n");
                o.push_str(&subst(first, &isneed, true));
                let world = subst(first, &isneed, true).contains("Tracked(w)");
                o.push_str(&subst(rest, &isneed, true).replace("/*same*/", if world { "same(*old(w), *final(w)),\n" } else { "" }));
                o.push_str(&subst(bd, &isneed, false));
            }
        }
        o.push_str(&d.head);
        if ext {
            o.push_str("#[verifier::external_body]\n");
        } else {
            o.push_str("#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n#[verifier::exec_allows_no_decreases_clause]\n");
        }
        o.push_str(&fc.attrs);
        o.push_str(&subst(&d.sig, &isneed, true));
        o.push('\n');
        o.push_str(&fc.spec);
        if ext {
            o.push_str("{ unimplemented!() }\n");
        } else {
            o.push_str("{\n");
            o.push_str(&subst(&d.body, &isneed, false));
            o.push_str("}\n");
        }
        if !d.head.is_empty() {
            o.push_str("}\n");
        }
        o.push_str(&format!("// @end {}\n", p));
    }
    let mut out = String::new();
    out.push_str("#![allow(unused_imports, unused_variables, unused_mut, unused_parens, unused_braces, dead_code, non_snake_case, unreachable_code, unused_must_use, unused_assignments, unused_labels, non_upper_case_globals, elided_lifetimes_in_paths, mismatched_lifetime_syntaxes, private_interfaces, unreachable_patterns, unused_attributes)]\n");
    out.push_str("use vstd::prelude::*;\nuse std::sync::Arc;\nuse std::cmp::Ordering;\nverus! {\n");
    out.push_str("// @prelude\n");
    out.push_str(&c.prelude);
    out.push_str("// @spec\n");
    out.push_str(&c.spec);
    out.push_str("// @modules\n");
    fn emit(mods: &BTreeMap<Vec<String>, String>, path: &[String], out: &mut String) {
        if let Some(s) = mods.get(path) {
            out.push_str(s);
        }
        let mut kids: BTreeSet<String> = BTreeSet::new();
        for k in mods.keys() {
            if k.len() > path.len() && k[..path.len()] == *path {
                kids.insert(k[path.len()].clone());
            }
        }
        for kd in kids {
            let mut p = path.to_vec();
            p.push(kd.clone());
            out.push_str(&format!("pub mod {} {{\nuse crate::*;\nuse vstd::prelude::*;\nuse std::sync::Arc;\nuse std::cmp::Ordering;\n", kd));
            emit(mods, &p, out);
            out.push_str("}\n");
        }
    }
    emit(&mods, &[], &mut out);
    out.push_str("} // verus!\nfn main() {}\n");
    std::fs::write(&a[5], out).unwrap();
    // the map
    let esc = |s: &str| s.replace('\\', "\\\\").replace('"', "\\\"").replace('\n', " ").replace('\t', " ");
    let list = |v: &Vec<String>| v.iter().map(|s| format!("\"{}\"", esc(s))).collect::<Vec<_>>().join(", ");
    let mut j = String::from("{\n");
    j.push_str(&format!("\"verified\": [{}],\n", list(&verified)));
    j.push_str(&format!("\"assumed\": [{}],\n", list(&assumed)));
    j.push_str(&format!("\"trusted\": [{}],\n", list(&trusted)));
    let miss: Vec<String> = missing.iter().filter(|p| { let f = &c.fns[*p]; f.props.is_empty() || f.props.iter().any(|x| *x == prop) || prop == "ALL" }).cloned().collect();
    j.push_str(&format!("\"missing\": [{}],\n", list(&miss)));
    j.push_str(&format!("\"opaque\": [{}],\n", list(&opaque)));
    let mut inl: BTreeSet<String> = BTreeSet::new();
    for p in &verified {
        inl.extend(done[p].inlined.iter().cloned());
    }
    j.push_str(&format!("\"inlined\": [{}],\n", list(&inl.into_iter().collect())));
    let calls: Vec<String> = verified.iter().map(|p| format!("\"{}\": [{}]", p, list(&done[p].calls.iter().cloned().collect()))).collect();
    let shapes: Vec<String> = done.iter().map(|(p, d)| format!("\"{}\": [\"{}\", \"{}\"]", p, esc(&d.shape), flow::locals(&k.fns[p].block).join(" "))).collect();
    j.push_str(&format!("\"shapes\": {{{}}},\n", shapes.join(", ")));
    j.push_str(&format!("\"calls\": {{{}}},\n", calls.join(", ")));
    j.push_str(&format!("\"undecided\": [{}]\n}}\n", undecided.iter().map(|(a, b)| format!("[\"{}\", \"{}\"]", esc(a), esc(b))).collect::<Vec<_>>().join(", ")));
    std::fs::write(&a[6], j).unwrap();
}
